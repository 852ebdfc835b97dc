// C28: typed pointers, instructions and lines accept what they announce and
// refuse the rest without any change.
#include "learn.h"
#include "world.h"
#include <functional>
#include <type_traits>

using vp::Chooser;
using vp::fmt;
using Data::Constant;
using Data::UntypedSharedPtr;

namespace {
    // ---------------------------------------------------------- S1: pointers
    struct Counted
    {
        int id = -1;
        ~Counted();
    };
    std::vector<int> ended; // identifiers of the destroyed objects, in order
    Counted::~Counted()
    {
        ended.push_back(id);
    }

    struct Held
    {
        std::string base;
        bool array, constant;
        std::string how;
        std::function<UntypedSharedPtr(const void*&)> make;
    };
    struct Request
    {
        std::string base;
        bool array, constant;
        // address obtained (null: refused)
        std::function<const void*(const UntypedSharedPtr&)> get;
    };
    std::vector<Held> helds;
    std::vector<Request> requests;
    template <class R> void request(const char* b, bool a, bool c)
    {
        requests.push_back({b, a, c, [](const UntypedSharedPtr& p) -> const void* {
                                try {
                                    auto s = p.getSharedPointer<R>();
                                    static_assert(
                                        std::is_same_v<
                                            decltype(s),
                                            std::shared_ptr<
                                                std::remove_all_extents_t<R>>>);
                                    return (const void*)s.get();
                                }
                                catch (std::runtime_error&) {
                                    return nullptr;
                                }
                            }});
    }
    template <class T> void base(const char* b)
    {
        helds.push_back({b, false, false, "owned", [](const void*& a) {
                             T* t = new T();
                             a = t;
                             return UntypedSharedPtr(t);
                         }});
        helds.push_back({b, false, true, "owned", [](const void*& a) {
                             const T* t = new T();
                             a = t;
                             return UntypedSharedPtr(t);
                         }});
        helds.push_back({b, false, false, "borrowed", [](const void*& a) {
                             static T t{};
                             a = &t;
                             return UntypedSharedPtr(
                                 &t, UntypedSharedPtr::emptyDestructor<T>());
                         }});
        helds.push_back({b, false, true, "borrowed", [](const void*& a) {
                             static const T t{};
                             a = &t;
                             return UntypedSharedPtr(
                                 &t,
                                 UntypedSharedPtr::emptyDestructor<const T>());
                         }});
        helds.push_back({b, true, false, "array", [](const void*& a) {
                             T* t = new T[3]();
                             a = t;
                             return UntypedSharedPtr(
                                 std::make_shared<UntypedSharedPtr::Model<T[]>>(
                                     t));
                         }});
        helds.push_back(
            {b, true, true, "array", [](const void*& a) {
                 T* t = new T[3]();
                 a = t;
                 return UntypedSharedPtr(
                     std::make_shared<UntypedSharedPtr::Model<const T[]>>(t));
             }});
        request<T>(b, false, false);
        request<const T>(b, false, true);
        request<T[]>(b, true, false);
        request<const T[]>(b, true, true);
    }
    void bases()
    {
        base<int>("int"), base<double>("double"), base<unsigned>("unsigned");
        base<unsigned char>("uchar"), base<float>("float");
        base<int64_t>("int64"), base<Constant>("constant");
        base<Counted>("object");
    }
    void types()
    {
        vp::bound("types", "pointers to values and arrays of 8 types, constant "
                           "or not, owned or borrowed; each of the 32 types "
                           "requested from each, directly, from a copy, and "
                           "twice");
        vp::explore("types", [](Chooser& c) {
            auto& h = helds[c.pick((int)helds.size())];
            vp::describe(h.base + " " + (h.constant ? "const " : "") + h.how);
            const void* address = nullptr;
            UntypedSharedPtr p = h.make(address);
            UntypedSharedPtr q(p);
            for (int round = 0; round < 2; round++)
                for (auto& r : requests) {
                    bool ok = r.base == h.base && r.array == h.array &&
                              (r.constant || !h.constant);
                    for (auto* x : {&p, &q}) {
                        const void* g = r.get(*x);
                        vp::count("operations");
                        VP_CHECK((g != nullptr) == ok, "type",
                                 "%s%s%s is %s", r.constant ? "const " : "",
                                 r.base.c_str(), r.array ? "[]" : "",
                                 ok ? "refused" : "accepted");
                        VP_CHECK(!ok || g == address, "address",
                                 "another address is given");
                    }
                }
            vp::distinct("states", vp::digest(h.base + h.how) * 2 + h.constant);
        });
    }
    // lifetimes: two slots of untyped pointers, two of typed ones
    void lifetimes(int depth)
    {
        vp::bound("lifetimes",
                  fmt("all histories of %d operations (creation of a value, "
                      "array or constant ones, copy, assignment, end, access, "
                      "refused access) on two untyped and two typed pointers",
                      depth));
        vp::explore("lifetimes", [=](Chooser& c) {
            ended.clear();
            std::unique_ptr<UntypedSharedPtr> u[2];
            std::shared_ptr<const Counted> t[2];
            int mu[2] = {-1, -1}, mt[2] = {-1, -1}; // object (model)
            int n = 0;
            std::vector<int> kind;
            std::vector<const void*> at;
            std::set<int> gone;
            auto settle = [&](const std::string& what) {
                // objects without any reference ended once, the others did not
                std::vector<int> want;
                for (int o = 0; o < n; o++) {
                    bool ref = mu[0] == o || mu[1] == o || mt[0] == o ||
                               mt[1] == o;
                    int times = 0;
                    for (int e : ended)
                        times += e == o;
                    int expect = ref ? 0 : kind[o] >= 2 ? 2 : 1;
                    VP_CHECK(times == expect, "lifetime",
                             "after %s, a value with%s accesses was "
                             "released %d times instead of %d",
                             what.c_str(), ref ? "" : "out", times, expect);
                }
            };
            for (int step = 0; step < depth; step++) {
                int op = c.pick(7), i = c.pick(2);
                std::string d;
                if (op == 0) {
                    int k = c.pick(4);
                    int id = n++;
                    kind.push_back(k);
                    d = fmt("new %d in u%d", k, i);
                    if (k < 2) {
                        Counted* o = new Counted;
                        o->id = id;
                        at.push_back(o);
                        UntypedSharedPtr p =
                            k == 0 ? UntypedSharedPtr(o)
                                   : UntypedSharedPtr((const Counted*)o);
                        if (u[i])
                            *u[i] = p;
                        else
                            u[i].reset(new UntypedSharedPtr(p));
                    }
                    else {
                        Counted* o = new Counted[2];
                        o[0].id = o[1].id = id;
                        at.push_back(o);
                        std::shared_ptr<UntypedSharedPtr::Concept> m;
                        if (k == 2)
                            m = std::make_shared<
                                UntypedSharedPtr::Model<Counted[]>>(o);
                        else
                            m = std::make_shared<
                                UntypedSharedPtr::Model<const Counted[]>>(o);
                        u[i].reset(new UntypedSharedPtr(m));
                    }
                    mu[i] = id;
                }
                else if (op == 1) { // copy to the other slot
                    if (!u[i] || !u[1 - i])
                        c.prune();
                    *u[1 - i] = *u[i];
                    mu[1 - i] = mu[i];
                    d = fmt("u%d = u%d", 1 - i, i);
                }
                else if (op == 2) {
                    if (!u[i])
                        c.prune();
                    u[1 - i].reset(new UntypedSharedPtr(*u[i]));
                    mu[1 - i] = mu[i];
                    d = fmt("copy of u%d", i);
                }
                else if (op == 3) {
                    if (!u[i])
                        c.prune();
                    u[i].reset();
                    mu[i] = -1;
                    d = fmt("end of u%d", i);
                }
                else if (op == 4) { // access
                    int j = c.pick(2);
                    if (!u[i])
                        c.prune();
                    int k = kind[mu[i]];
                    if (k < 2)
                        t[j] = u[i]->getSharedPointer<const Counted>();
                    else {
                        auto a = u[i]->getSharedPointer<const Counted[]>();
                        t[j] = a;
                    }
                    mt[j] = mu[i];
                    d = fmt("t%d = access to u%d", j, i);
                    VP_CHECK(t[j].get() == at[mt[j]], "address",
                             "another address is given");
                }
                else if (op == 5) { // refused access
                    if (!u[i])
                        c.prune();
                    int k = kind[mu[i]];
                    d = fmt("refused access to u%d", i);
                    try {
                        if (k == 0)
                            u[i]->getSharedPointer<const double>();
                        else if (k == 1)
                            u[i]->getSharedPointer<Counted>();
                        else if (k == 2)
                            u[i]->getSharedPointer<Counted>();
                        else
                            u[i]->getSharedPointer<Counted[]>();
                        vp::fail("type", "a wrong access is accepted");
                    }
                    catch (std::runtime_error&) {
                    }
                }
                else {
                    if (!t[i])
                        c.prune();
                    t[i].reset();
                    mt[i] = -1;
                    d = fmt("end of t%d", i);
                }
                vp::describe(d + "; ");
                vp::count("operations");
                settle(d);
                for (int j = 0; j < 2; j++)
                    VP_CHECK(!t[j] || t[j]->id == mt[j], "value",
                             "an access gives another value");
                std::string s;
                std::map<int, int> names;
                for (int o : {mu[0], mu[1], mt[0], mt[1]}) {
                    if (o >= 0)
                        names.emplace(o, (int)names.size());
                    s += o < 0 ? "-" : fmt("%d.%d,", names[o], kind[o]);
                }
                c.visit("lifetimes", vp::digest(s), depth - step - 1, depth);
                vp::distinct("states", vp::digest("life" + s));
            }
        });
    }

    // ------------------------------------------------------ S2: instructions
    using namespace Instructions;
    struct Arg
    {
        std::string type; // as announced by the pointer
        size_t n;         // elements
        UntypedSharedPtr p;
        std::vector<double> v;
    };
    template <class T, class S> Arg scalar(const char* type, S v)
    {
        return {type, 1, UntypedSharedPtr(new T{v}), {(double)v}};
    }
    template <class T>
    Arg array(const char* type, const std::vector<double>& v)
    {
        auto* a = new std::remove_const_t<T>[v.size()];
        for (size_t i = 0; i < v.size(); i++)
            a[i] = std::remove_const_t<T>(v[i]);
        return {type, v.size(),
                UntypedSharedPtr(
                    std::make_shared<UntypedSharedPtr::Model<T[]>>(a)),
                v};
    }
    struct Op
    {
        std::string type; // announced: element, then [] for any array
        size_t n;         // elements used
        const std::type_info* announced;
        std::string printed;
    };
    struct Ins
    {
        std::string name, tmpl;
        std::vector<Op> ops;
        std::unique_ptr<Instruction> i;
        std::function<double(const std::vector<std::vector<double>>&)> f;
    };
    std::vector<Ins> ins;
    template <class T> struct Desc;
#define DESC(T, ty, n_, el)                                                    \
    template <> struct Desc<T>                                                 \
    {                                                                          \
        static Op op()                                                         \
        {                                                                      \
            return {ty, n_, &typeid(T), el};                                   \
        }                                                                      \
        static double sum(const T& x, double w)                                \
        {                                                                      \
            const std::remove_all_extents_t<T>* p =                            \
                (const std::remove_all_extents_t<T>*)&x;                       \
            double r = 0;                                                      \
            for (size_t i = 0; i < n_; i++)                                    \
                r += w * (double)(i + 1) * (double)p[i];                       \
            return r;                                                          \
        }                                                                      \
    }
    using D2 = const double[2];
    using D3 = const double[3];
    using I3 = const int[3];
    using D22 = const double[2][2];
    using C2 = const Constant[2];
    using F12 = const float[1][2];
    DESC(double, "double", 1, "double");
    DESC(int, "int", 1, "int");
    DESC(float, "float", 1, "float");
    DESC(unsigned char, "uchar", 1, "unsigned char");
    DESC(int64_t, "int64", 1, "long");
    DESC(Constant, "constant", 1, "int32_t");
    DESC(D2, "double[]", 2, "double");
    DESC(D3, "double[]", 3, "double");
    DESC(I3, "int[]", 3, "int");
    DESC(D22, "double[]", 4, "double");
    DESC(C2, "constant[]", 2, "int32_t");
    DESC(F12, "float[]", 2, "float");

    double weighted(const std::vector<std::vector<double>>& a,
                    const std::vector<Op>& ops)
    {
        double r = 0, w = 1;
        for (size_t k = 0; k < ops.size(); k++, w *= 64)
            for (size_t i = 0; i < ops[k].n; i++)
                r += w * (double)(i + 1) * a[k][i];
        return r;
    }
    template <class T> double part(const void* p, double w)
    {
        double r = 0;
        auto* e = (const std::remove_all_extents_t<T>*)p;
        for (size_t i = 0; i < Desc<T>::op().n; i++)
            r += w * (double)(i + 1) * (double)e[i];
        return r;
    }
    template <class T> const void* address(const T& x)
    {
        if constexpr (std::is_pointer_v<T>)
            return (const void*)x;
        else
            return (const void*)&x;
    }
    template <class... T> void lambda(const std::string& name)
    {
        Ins i;
        i.name = name;
        i.ops = {Desc<T>::op()...};
        static int k = 0;
        i.tmpl = k++ % 3 ? fmt("$0 = f%d($1);", k) : "";
        auto f = [](T... x) -> double {
            double r = 0, w = 1;
            // arrays are received as pointers
            ((r += part<T>(address(x), w), w *= 64), ...);
            return r;
        };
        if (i.tmpl.empty())
            i.i.reset(new LambdaInstruction<T...>(f));
        else
            i.i.reset(new LambdaInstruction<T...>(f, i.tmpl));
        auto ops = i.ops;
        i.f = [ops](const std::vector<std::vector<double>>& a) {
            return weighted(a, ops);
        };
        ins.push_back(std::move(i));
    }
    template <class T> void lambdas1(const std::string& n)
    {
        lambda<T>(n);
        lambda<T, double>(n + ",double");
        lambda<T, int>(n + ",int");
        lambda<T, D2>(n + ",double[2]");
        lambda<T, C2>(n + ",constant[2]");
    }
    template <class T> void lambdas3(const std::string& n)
    {
        lambdas1<T>(n);
        lambda<T, D22>(n + ",double[2][2]");
        lambda<double, T, int>("double," + n + ",int");
        lambda<Constant, F12, T>("constant,float[1][2]," + n);
        lambda<int, I3, double, T>("int,int[3],double," + n);
    }
    template <class T> void primitive(const std::string& n)
    {
        Ins a;
        a.name = "add " + n;
        a.ops = {Desc<T>::op(), Desc<T>::op()};
        a.i.reset(new AddPrimitiveType<T>());
        a.f = [](const std::vector<std::vector<double>>& x) {
            return x[0][0] + x[1][0];
        };
        ins.push_back(std::move(a));
        Ins b;
        b.name = "add " + n + " printed";
        b.tmpl = "$0 = $1 + $2;";
        b.ops = {Desc<T>::op(), Desc<T>::op()};
        b.i.reset(new AddPrimitiveType<T>(b.tmpl));
        b.f = [](const std::vector<std::vector<double>>& x) {
            return x[0][0] + x[1][0];
        };
        ins.push_back(std::move(b));
        Ins m;
        m.name = "mult " + n;
        m.tmpl = "$0 = $1 * $2;";
        m.ops = {Desc<T>::op(), Desc<Constant>::op()};
        m.i.reset(new MultByConstant<T>());
        m.f = [](const std::vector<std::vector<double>>& x) {
            return x[0][0] * x[1][0];
        };
        ins.push_back(std::move(m));
    }
    void instructions()
    {
        lambdas3<double>("double");
        lambdas1<int>("int");
        lambdas1<float>("float");
        lambdas3<unsigned char>("uchar");
        lambdas1<int64_t>("int64");
        lambdas3<Constant>("constant");
        lambdas3<D2>("double[2]");
        lambdas1<D3>("double[3]");
        lambdas1<I3>("int[3]");
        lambdas1<D22>("double[2][2]");
        lambdas1<C2>("constant[2]");
        lambdas1<F12>("float[1][2]");
        // more operands
        lambda<double, int, double, int, double>("five");
        lambda<int, D2, double, I3, double, int>("six");
        lambda<double, int, D2, double, int, Constant, double>("seven");
        primitive<double>("double");
        primitive<int>("int");
        primitive<float>("float");
        primitive<unsigned char>("uchar");
        primitive<int64_t>("int64");
    }
    // arguments: distinct values, at least four elements in the arrays
    std::vector<std::function<Arg(int)>> argMakers = {
        [](int k) { return scalar<double>("double", 1.5 + k); },
        [](int k) { return scalar<const double>("double", -2.25 - k); },
        [](int k) { return scalar<int>("int", 7 + k); },
        [](int k) { return scalar<const int>("int", -9 + k); },
        [](int k) { return scalar<float>("float", 0.5f + (float)k); },
        [](int k) {
            return scalar<unsigned char>("uchar", (unsigned char)(201 + k));
        },
        [](int k) { return scalar<int64_t>("int64", (int64_t)70000000 + k); },
        [](int k) {
            return Arg{"constant", 1, UntypedSharedPtr(new Constant{11 + k}),
                       {11.0 + k}};
        },
        [](int k) {
            return Arg{"constant", 1,
                       UntypedSharedPtr((const Constant*)new Constant{-5 + k}),
                       {-5.0 + k}};
        },
        [](int k) { return array<double>("double[]", {3.0 + k, -1, 17, 0.5}); },
        [](int k) {
            return array<const double>("double[]", {-4.0 + k, 19, 2, 8});
        },
        [](int k) { return array<int>("int[]", {23.0 + k, 5, -6, 2}); },
        [](int k) { return array<const int>("int[]", {-1.0 + k, 4, 44, 9}); },
        [](int k) { return array<float>("float[]", {2.5 + k, 29, 1, 1}); },
        [](int k) {
            std::vector<double> v{31.0 + k, -13, 6, 1};
            auto* a = new Constant[4];
            for (int i = 0; i < 4; i++)
                a[i].value = (int32_t)v[i];
            return Arg{"constant[]", 4,
                       UntypedSharedPtr(
                           std::make_shared<UntypedSharedPtr::Model<
                               const Constant[]>>(a)),
                       v};
        },
        [](int k) {
            return array<unsigned char>("uchar[]", {7.0 + k, 3, 1, 2});
        }};
    void operands()
    {
        vp::bound("operands",
                  fmt("%zu instructions of 1-7 operands; every vector of 0-2 "
                      "arguments and every vector of 3-7 with at most one "
                      "wrong argument, among %zu kinds of arguments; one "
                      "missing or additional argument",
                      ins.size(), argMakers.size()));
        int ni = (int)ins.size(), na = (int)argMakers.size();
        vp::explore("announced", [=](Chooser& c) {
            auto& I = ins[c.pick(ni)];
            vp::describe(I.name + " ");
            auto& x = *I.i;
            size_t n = I.ops.size();
            vp::count("operations");
            VP_CHECK(x.getNbOperands() == n, "number",
                     "%u operands are announced instead of %zu",
                     x.getNbOperands(), n);
            VP_CHECK(x.getOperandTypes().size() == n, "number",
                     "%zu types are announced instead of %zu",
                     x.getOperandTypes().size(), n);
            for (size_t k = 0; k < n; k++) {
                VP_CHECK(x.getOperandTypes()[k].get() == *I.ops[k].announced,
                         "announced", "the type of operand %zu is %s", k,
                         x.getOperandTypes()[k].get().name());
                VP_CHECK(x.getPrintablePrimitiveOperandType(k) ==
                             I.ops[k].printed,
                         "printed", "the printed type of operand %zu is %s",
                         k, x.getPrintablePrimitiveOperandType(k).c_str());
            }
            VP_CHECK(x.isPrintable() == !I.tmpl.empty(), "printable",
                     "isPrintable is wrong");
            VP_CHECK(x.getPrintTemplate() == I.tmpl, "template",
                     "another template is given");
        });
        vp::explore("operands", [=](Chooser& c) {
            auto& I = ins[c.pick(ni)];
            vp::describe(I.name + " ");
            auto& x = *I.i;
            size_t n = I.ops.size();
            // number of arguments
            int nb = c.pick((int)n + 2);
            std::vector<Arg> args;
            int wrong = 0;
            // up to 2 arguments: any; beyond: the first of each type and one
            // wrong argument
            for (int k = 0; k < nb; k++) {
                if (nb <= 2) {
                    args.push_back(argMakers[c.pick(na)](k));
                }
                else {
                    std::vector<int> good, bad;
                    std::set<std::string> seen;
                    for (int a = 0; a < na; a++) {
                        Arg t = argMakers[a](k);
                        if ((size_t)k < n && t.type == I.ops[k].type)
                            good.push_back(a);
                        else if (seen.insert(t.type).second)
                            bad.push_back(a);
                    }
                    if ((size_t)k >= n) { // additional
                        args.push_back(argMakers[bad[c.pick((int)bad.size())]](k));
                        continue;
                    }
                    // beyond 4 operands: one constant or not per type
                    if (n > 4 && good.size() > 1)
                        good = {good[k % good.size()]};
                    int total = (int)good.size() + (wrong ? 0 : (int)bad.size());
                    if (total == 0)
                        c.prune();
                    int p = c.pick(total);
                    if (p < (int)good.size())
                        args.push_back(argMakers[good[p]](k));
                    else {
                        args.push_back(argMakers[bad[p - good.size()]](k));
                        wrong++;
                    }
                }
            }
            std::vector<UntypedSharedPtr> v;
            std::vector<std::vector<double>> m;
            bool ok = (size_t)nb == n;
            for (int k = 0; k < nb; k++) {
                v.push_back(args[k].p);
                m.push_back(args[k].v);
                if ((size_t)k < n && args[k].type != I.ops[k].type)
                    ok = false;
                vp::describe(args[k].type + " ");
            }
            vp::count("operations");
            bool got = x.checkOperandTypes(v);
            VP_CHECK(got == ok, "check", "these arguments are %s",
                     got ? "accepted" : "refused");
            vp::distinct("states", vp::digest(I.name) * 31 +
                                       vp::digest(fmt("%d%d", nb, ok)));
            if (ok) {
                double r, want = I.f(m);
                try {
                    r = x.execute(v);
                }
                catch (std::exception& e) {
                    vp::fail("value", std::string("throws ") + e.what());
                }
                VP_CHECK(r == want, "value", "returns %.17g instead of %.17g",
                         r, want);
                VP_CHECK(x.execute(v) == want, "value",
                         "a second execution differs");
            }
            else if ((size_t)nb <= n) {
                try {
                    double r = x.execute(v);
                    VP_CHECK(r == 0.0, "refused",
                             "wrong arguments are used: %.17g", r);
                }
                catch (std::exception&) {
                }
            }
        });
    }
    // sets of instructions
    void sets(int depth)
    {
        vp::bound("sets", fmt("all sequences of 0-%d additions of 4 "
                              "instructions, repeated ones included",
                              depth));
        vp::explore("sets", [=](Chooser& c) {
            Set s;
            std::vector<const Instruction*> m;
            int n = c.pick(depth + 1);
            const size_t pickable[4] = {0, 1, 6, 8}; // 1, 2, 3 and 4 operands
            for (int i = 0;; i++) {
                unsigned mx = 0;
                for (auto x : m)
                    mx = std::max(mx, x->getNbOperands());
                VP_CHECK(s.getNbInstructions() == m.size(), "set",
                         "%u instructions instead of %zu",
                         s.getNbInstructions(), m.size());
                VP_CHECK(s.getMaxNbOperands() == mx, "set",
                         "%u operands at most instead of %u",
                         s.getMaxNbOperands(), mx);
                for (uint64_t k = 0; k < m.size(); k++)
                    VP_CHECK(&s.getInstruction(k) == m[k], "set",
                             "another instruction is given");
                for (uint64_t k : {(uint64_t)m.size(), (uint64_t)m.size() + 7,
                                   UINT64_MAX, (uint64_t)1 << 32}) {
                    try {
                        s.getInstruction(k);
                        vp::fail("set", "an instruction beyond the set");
                    }
                    catch (std::out_of_range&) {
                    }
                }
                if (i == n)
                    break;
                auto& I = *ins[pickable[c.pick(4)]].i;
                VP_CHECK(s.add(I), "set", "an instruction is refused");
                m.push_back(&I);
                vp::count("operations");
            }
            vp::distinct("states", (uint64_t)n * 77 + s.getMaxNbOperands());
        });
    }

    // -------------------------------------------------------------- S3: lines
    struct ML
    {
        uint64_t i = 0, d = 0;
        std::vector<std::pair<uint64_t, uint64_t>> o;
        bool operator==(const ML& x) const
        {
            return i == x.i && d == x.d && o == x.o;
        }
    };
    void compare(const wd::World& w, const Program::Line& l, const ML& m,
                 const char* what, bool beyond = false)
    {
        VP_CHECK(&l.getEnvironment() == w.env.get(), "line",
                 "%s: another environment", what);
        VP_CHECK(l.getInstructionIndex() == m.i, "line",
                 "%s: instruction %llu instead of %llu", what,
                 (unsigned long long)l.getInstructionIndex(),
                 (unsigned long long)m.i);
        VP_CHECK(l.getDestinationIndex() == m.d, "line",
                 "%s: destination %llu instead of %llu", what,
                 (unsigned long long)l.getDestinationIndex(),
                 (unsigned long long)m.d);
        for (size_t k = 0; k < m.o.size(); k++)
            VP_CHECK(l.getOperand(k) == m.o[k], "line",
                     "%s: operand %zu is %llu@%llu instead of %llu@%llu", what,
                     k, (unsigned long long)l.getOperand(k).first,
                     (unsigned long long)l.getOperand(k).second,
                     (unsigned long long)m.o[k].first,
                     (unsigned long long)m.o[k].second);
        if (!beyond)
            return;
        for (uint64_t k : {(uint64_t)m.o.size(), (uint64_t)m.o.size() + 3,
                           (uint64_t)1 << 32, UINT64_MAX}) {
            try {
                l.getOperand(k);
                vp::fail("line", "an operand beyond the last one is given");
            }
            catch (std::range_error&) {
            }
        }
    }
    void lines(const char* name, int depth)
    {
        wd::World& w = wd::world(name);
        vp::bound(fmt("lines %s", name),
                  fmt("all histories of %d settings, checked or not, on two "
                      "lines: values 0, 1, last, first outside, 2^32, maximum; "
                      "after each, comparison and copies",
                      depth));
        vp::explore(fmt("lines-%s", name), [=, &w](Chooser& c) {
            Program::Line a(*w.env), b(*w.env);
            ML ma, mb;
            ma.o.assign(w.nbOps, {0, 0});
            mb = ma;
            compare(w, a, ma, "new line", true);
            auto values = [](size_t n) {
                std::vector<uint64_t> v{0};
                for (uint64_t x : {(uint64_t)1, (uint64_t)n - 1, (uint64_t)n,
                                   (uint64_t)1 << 32, UINT64_MAX})
                    if (std::find(v.begin(), v.end(), x) == v.end())
                        v.push_back(x);
                return v;
            };
            for (int step = 0; step < depth; step++) {
                bool first = c.pick(2) == 0;
                Program::Line& l = first ? a : b;
                ML& m = first ? ma : mb;
                int op = c.pick(3);
                bool check = c.pick(2) == 0;
                std::string d;
                bool got, want;
                if (op == 0) {
                    auto v = values(w.instr.size());
                    uint64_t x = v[c.pick((int)v.size())];
                    want = !check || x < w.instr.size();
                    got = check && c.pick(2) ? l.setInstructionIndex(x)
                                             : l.setInstructionIndex(x, check);
                    if (want)
                        m.i = x;
                    d = fmt("instruction %llu", (unsigned long long)x);
                }
                else if (op == 1) {
                    auto v = values(w.regs);
                    uint64_t x = v[c.pick((int)v.size())];
                    want = !check || x < w.regs;
                    got = check && c.pick(2) ? l.setDestinationIndex(x)
                                             : l.setDestinationIndex(x, check);
                    if (want)
                        m.d = x;
                    d = fmt("destination %llu", (unsigned long long)x);
                }
                else {
                    auto ks = values(w.nbOps);
                    for (uint64_t x = 2; x + 1 < w.nbOps; x++)
                        ks.push_back(x);
                    auto k = ks[c.pick((int)ks.size())];
                    auto v = values(w.nbSources());
                    uint64_t s = v[c.pick((int)v.size())];
                    auto u = values(w.largest());
                    uint64_t x = u[c.pick((int)u.size())];
                    d = fmt("operand %llu = %llu@%llu", (unsigned long long)k,
                            (unsigned long long)s, (unsigned long long)x);
                    if (k >= w.nbOps) {
                        vp::describe(d + "; ");
                        try {
                            l.setOperand(k, s, x, check);
                            vp::fail("operand", "an operand beyond the last "
                                                "one is accepted");
                        }
                        catch (std::range_error&) {
                        }
                        want = got = false;
                    }
                    else {
                        want = !check || (s < w.nbSources() && x < w.largest());
                        got = l.setOperand(k, s, x, check);
                        if (want)
                            m.o[k] = {s, x};
                    }
                }
                vp::describe(std::string(first ? "a." : "b.") + d +
                             (check ? "; " : " unchecked; "));
                vp::count("operations");
                VP_CHECK(got == want, "verdict", "%s",
                         got ? "accepted" : "refused");
                compare(w, a, ma, "line a");
                compare(w, b, mb, "line b");
                VP_CHECK((a == b) == (ma == mb), "equality",
                         "equality of lines is %s", a == b ? "true" : "false");
                VP_CHECK((a != b) == !(ma == mb), "equality",
                         "difference of lines is %s", a != b ? "true" : "false");
                VP_CHECK((b == a) == (ma == mb), "equality",
                         "equality is not symmetric");
                Program::Line q(l);
                compare(w, q, m, "copy", step == 0);
                VP_CHECK(q == l && l == q, "equality",
                         "a copy differs from the line");
                std::string s;
                for (auto* x : {&ma, &mb}) {
                    s += fmt("%llu>%llu", (unsigned long long)x->i,
                             (unsigned long long)x->d);
                    for (auto& o : x->o)
                        s += fmt(",%llu@%llu", (unsigned long long)o.first,
                                 (unsigned long long)o.second);
                    s += ";";
                }
                c.visit(name, vp::digest(s), depth - step - 1, depth);
                vp::distinct("states", vp::digest(name + s));
            }
        });
    }

    // ----------------------------------------------------------- S4: programs
    void programs(int depth, size_t start = 0)
    {
        wd::World& w = wd::world("typed");
        std::string id = start ? fmt("programs%zu", start) : "programs";
        vp::bound(id, fmt("all histories of %d additions, removals and "
                                  "exchanges of lines at positions 0, 1, %slast, "
                                  "first outside, 2^32 and maximum, from %zu "
                                  "lines",
                                  depth, start ? "7, half, " : "", start));
        vp::explore(id, [=, &w](Chooser& c) {
            Program::Program p(*w.env);
            std::vector<std::pair<const Program::Line*, uint64_t>> m;
            uint64_t label = 0;
            for (size_t k = 0; k < start; k++) {
                auto& l = p.addNewLine();
                l.setDestinationIndex(++label, false);
                m.push_back({&l, label});
            }
            for (int step = 0; step < depth; step++) {
                std::vector<uint64_t> pos;
                for (uint64_t x :
                     {(uint64_t)0, (uint64_t)1, start ? (uint64_t)7 : (uint64_t)0,
                      start ? (uint64_t)m.size() / 2 : (uint64_t)0,
                      (uint64_t)m.size() - 1,
                      (uint64_t)m.size(), (uint64_t)m.size() + 1,
                      (uint64_t)1 << 32, UINT64_MAX})
                    if (std::find(pos.begin(), pos.end(), x) == pos.end())
                        pos.push_back(x);
                int op = c.pick(4);
                bool thrown = false, want = false;
                std::string d;
                if (op == 0) {
                    d = "add";
                    auto& l = p.addNewLine();
                    l.setDestinationIndex(++label, false);
                    m.push_back({&l, label});
                }
                else if (op == 1) {
                    uint64_t x = pos[c.pick((int)pos.size())];
                    d = fmt("add at %llu", (unsigned long long)x);
                    want = x > m.size();
                    try {
                        auto& l = p.addNewLine(x);
                        l.setDestinationIndex(++label, false);
                        if (!want)
                            m.insert(m.begin() + x, {&l, label});
                    }
                    catch (std::out_of_range&) {
                        thrown = true;
                    }
                }
                else if (op == 2) {
                    uint64_t x = pos[c.pick((int)pos.size())];
                    d = fmt("remove %llu", (unsigned long long)x);
                    want = x >= m.size();
                    try {
                        p.removeLine(x);
                        if (!want)
                            m.erase(m.begin() + x);
                    }
                    catch (std::out_of_range&) {
                        thrown = true;
                    }
                }
                else {
                    uint64_t x = pos[c.pick((int)pos.size())],
                             y = pos[c.pick((int)pos.size())];
                    d = fmt("exchange %llu and %llu", (unsigned long long)x,
                            (unsigned long long)y);
                    want = x >= m.size() || y >= m.size();
                    try {
                        p.swapLines(x, y);
                        if (!want)
                            std::swap(m[x], m[y]);
                    }
                    catch (std::out_of_range&) {
                        thrown = true;
                    }
                }
                vp::describe(d + "; ");
                vp::count("operations");
                VP_CHECK(thrown == want, "verdict", "%s",
                         thrown ? "refused" : "accepted");
                VP_CHECK(p.getNbLines() == m.size(), "lines",
                         "%zu lines instead of %zu", p.getNbLines(), m.size());
                const Program::Program& cp = p;
                for (size_t k = 0; k < m.size(); k++) {
                    VP_CHECK(&p.getLine(k) == m[k].first &&
                                 &cp.getLine(k) == m[k].first,
                             "lines", "another line at %zu", k);
                    VP_CHECK(p.getLine(k).getDestinationIndex() == m[k].second,
                             "lines", "the line at %zu is modified", k);
                    VP_CHECK(!p.isIntron(k), "lines",
                             "the line at %zu is marked", k);
                }
                for (uint64_t k : {(uint64_t)m.size(), (uint64_t)m.size() + 5,
                                   (uint64_t)1 << 32, UINT64_MAX}) {
                    int refused = 0;
                    for (int q = 0; q < 3; q++)
                        try {
                            if (q == 0)
                                p.getLine(k);
                            else if (q == 1)
                                cp.getLine(k);
                            else
                                p.isIntron(k);
                        }
                        catch (std::out_of_range&) {
                            refused++;
                        }
                    VP_CHECK(refused == 3, "lines",
                             "a line beyond the end is given");
                }
                std::string s;
                std::map<uint64_t, int> names;
                // the order of the labels only
                std::vector<uint64_t> sorted;
                for (auto& x : m)
                    sorted.push_back(x.second);
                std::sort(sorted.begin(), sorted.end());
                for (auto& x : m)
                    s += fmt("%d,", (int)(std::find(sorted.begin(),
                                                    sorted.end(), x.second) -
                                          sorted.begin()));
                c.visit(id.c_str(), vp::digest(s), depth - step - 1, depth);
                vp::distinct("states", vp::digest(id + s));
            }
        });
    }

    // ------------------------------------------------------- S6: environments
    struct Classes : Learn::ClassificationLearningEnvironment
    {
        Data::PrimitiveTypeArray<double> d{1};
        Classes(uint64_t n) : ClassificationLearningEnvironment(n)
        {
        }
        void setClass(uint64_t x)
        {
            currentClass = x;
        }
        void doAction(uint64_t a) override
        {
            ClassificationLearningEnvironment::doAction(a);
        }
        void reset(size_t s = 0, Learn::LearningMode m = Learn::LearningMode::TRAINING, uint16_t i = 0,
                   uint64_t g = 0) override
        {
            ClassificationLearningEnvironment::reset(s, m, i, g);
        }
        std::vector<std::reference_wrapper<const Data::DataHandler>>
        getDataSources() override
        {
            return {d};
        }
        bool isTerminal() const override
        {
            return false;
        }
    };
    struct Plain : Learn::LearningEnvironment
    {
        int done = 0;
        Plain(uint64_t n) : LearningEnvironment(n)
        {
        }
        void doAction(uint64_t a) override
        {
            LearningEnvironment::doAction(a);
            done++;
        }
        void reset(size_t, Learn::LearningMode, uint16_t, uint64_t) override
        {
        }
        std::vector<std::reference_wrapper<const Data::DataHandler>>
        getDataSources() override
        {
            return {};
        }
        double getScore() const override
        {
            return 0;
        }
        bool isTerminal() const override
        {
            return false;
        }
    };
    void actions(int depth)
    {
        vp::bound("actions",
                  fmt("environments with 1-3 actions: all histories of %d "
                      "actions 0, 1, 2, 3, 2^32 and maximum, in each class",
                      depth));
        vp::explore("actions", [=](Chooser& c) {
            int n = 1 + c.pick(3);
            Plain e(n);
            Classes k(n);
            VP_CHECK(e.getNbActions() == (uint64_t)n &&
                         k.getNbActions() == (uint64_t)n,
                     "actions", "wrong number of actions");
            VP_CHECK(!e.isCopyable() && e.clone() == nullptr, "actions",
                     "an environment without clone is announced copyable");
            std::vector<std::vector<uint64_t>> t(n, std::vector<uint64_t>(n, 0));
            int done = 0;
            for (int s = 0; s < depth; s++) {
                int op = c.pick(7);
                if (op == 6) {
                    k.reset();
                    for (auto& v : t)
                        v.assign(n, 0);
                    vp::describe("reset; ");
                }
                else {
                    uint64_t cls = c.pick(n), a;
                    a = op < 4    ? (uint64_t)op
                        : op == 4 ? (uint64_t)1 << 32
                                  : UINT64_MAX;
                    k.setClass(cls);
                    vp::describe(fmt("class %d action %llu; ", (int)cls,
                                     (unsigned long long)a));
                    for (int q = 0; q < 2; q++) {
                        bool thrown = false;
                        try {
                            if (q)
                                k.doAction(a);
                            else
                                e.doAction(a);
                        }
                        catch (std::runtime_error&) {
                            thrown = true;
                        }
                        VP_CHECK(thrown == (a >= (uint64_t)n), "action",
                                 "action %llu of %d is %s",
                                 (unsigned long long)a, n,
                                 thrown ? "refused" : "accepted");
                    }
                    if (a < (uint64_t)n)
                        t[cls][a]++, done++;
                }
                vp::count("operations");
                VP_CHECK(k.getClassificationTable() == t, "table",
                         "the table is not that of the accepted actions");
                VP_CHECK(e.done == done, "action",
                         "a refused action is executed");
                std::string d = fmt("%d", n);
                for (auto& v : t)
                    for (auto x : v)
                        d += fmt(",%d", (int)x);
                vp::distinct("states", vp::digest("act" + d));
                c.visit("actions", vp::digest(d), depth - s - 1, depth);
            }
        });
    }
    // sums of results of different types or sizes
    void results()
    {
        vp::bound("results", "all pairs of results of the three types with 1-3 "
                             "scores or classes; the refused ones");
        vp::explore("results", [](Chooser& c) {
            auto make = [&](int type, int n, double v)
                -> std::shared_ptr<Learn::EvaluationResult> {
                std::vector<double> s;
                std::vector<size_t> k;
                for (int i = 0; i < n; i++)
                    s.push_back(v + i), k.push_back(i + 1);
                if (type == 0)
                    return std::make_shared<Learn::EvaluationResult>(v, n);
                if (type == 1)
                    return std::make_shared<Learn::ClassificationEvaluationResult>(
                        s, k);
                std::initializer_list<double> l1{v}, l2{v, v + 1},
                    l3{v, v + 1, v + 2};
                return std::make_shared<Learn::AdversarialEvaluationResult>(
                    n == 1 ? l1 : n == 2 ? l2 : l3, (size_t)n);
            };
            auto text = [](const Learn::EvaluationResult& r) {
                std::string s =
                    fmt("%.17g/%zu", r.getResult(), r.getNbEvaluation());
                if (auto* x = dynamic_cast<
                        const Learn::ClassificationEvaluationResult*>(&r)) {
                    for (auto v : x->getScorePerClass())
                        s += fmt(",%.17g", v);
                    for (auto v : x->getNbEvaluationPerClass())
                        s += fmt(";%zu", v);
                }
                if (auto* x =
                        dynamic_cast<const Learn::AdversarialEvaluationResult*>(
                            &r)) {
                    auto y = *x;
                    for (size_t i = 0; i < y.getSize(); i++)
                        s += fmt(",%.17g", y.getScoreOf((int)i));
                }
                return s;
            };
            int ta = c.pick(3), na = 1 + c.pick(3), tb = c.pick(3),
                nb = 1 + c.pick(3);
            auto a = make(ta, na, 1.5), b = make(tb, nb, -7);
            std::string before = text(*a), other = text(*b);
            vp::describe(before + " += " + other);
            vp::count("operations");
            bool ok = ta == tb && (ta == 0 || na == nb), thrown = false;
            try {
                *a += *b;
            }
            catch (std::runtime_error&) {
                thrown = true;
            }
            VP_CHECK(thrown == !ok, "sum", "this sum is %s",
                     thrown ? "refused" : "accepted");
            VP_CHECK(!thrown || text(*a) == before, "sum",
                     "a refused sum modifies the result: %s",
                     text(*a).c_str());
            VP_CHECK(text(*b) == other, "sum", "the added result is modified");
            if (ta == 1 && na != nb) {
                try {
                    Learn::ClassificationEvaluationResult x(
                        std::vector<double>(na, 1.0),
                        std::vector<size_t>(nb, 1));
                    vp::fail("sum", "numbers of classes which differ are "
                                    "accepted");
                }
                catch (std::runtime_error&) {
                }
            }
            vp::distinct("states", vp::digest(before + other));
        });
    }
    // vertices which are not those of the agent
    void foreign()
    {
        vp::bound("foreign", "evaluation of each vertex of another graph, of a "
                             "removed vertex and of a null one, before and "
                             "after a generation");
        vp::explore("foreign", [](Chooser& c) {
            auto p = ln::params(3, 0.5);
            p.mutation.tpg.nbActions = 2;
            auto is = gg::basicSet();
            gg::Game g1(2, 1), g2(2, 1);
            Learn::LearningAgent a(g1, is->set, p), b(g2, is->set, p);
            a.init(1);
            b.init(2);
            if (c.pick(2))
                a.trainOneGeneration(0);
            auto v = b.getTPGGraph()->getVertices();
            const TPG::TPGVertex* x = nullptr;
            int k = c.pick((int)v.size() + 2);
            if (k < (int)v.size())
                x = v[k];
            else if (k == (int)v.size()) {
                x = &a.getTPGGraph()->addNewTeam();
                a.getTPGGraph()->removeVertex(*x);
            }
            auto mode = (Learn::LearningMode)c.pick(3);
            gg::GraphNames n;
            std::string before = gg::graphText(*a.getTPGGraph(), &n) +
                                 gg::archiveText(a.getArchive(), n);
            bool thrown = false;
            vp::count("operations");
            try {
                a.evaluateOneRoot(0, mode, x);
            }
            catch (std::runtime_error&) {
                thrown = true;
            }
            VP_CHECK(thrown, "foreign", "this vertex is evaluated");
            gg::GraphNames m;
            std::string after = gg::graphText(*a.getTPGGraph(), &m) +
                                gg::archiveText(a.getArchive(), m);
            VP_CHECK(before == after, "foreign",
                     "a refused evaluation modifies the agent");
            vp::distinct("states", vp::digest(before) + k);
        });
    }
} // namespace

void vp_main()
{
    bool T = vp::opt.thorough();
    bases();
    instructions();
    types();
    lifetimes(T ? 8 : 6);
    operands();
    sets(T ? 6 : 4);
    lines("double", T ? 4 : 2);
    lines("typed", T ? 4 : 2);
    lines("arrays", T ? 4 : 2);
    lines("words", T ? 3 : 2);
    lines("large", T ? 3 : 2);
    programs(T ? 7 : 5);
    programs(T ? 4 : 3, 12);
    programs(T ? 3 : 2, 40);
    actions(T ? 7 : 5);
    results();
    foreign();
}
