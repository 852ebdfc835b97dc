// C07: mutation of graphs, for every outcome of the random draws.
// C08: initialisation and mutation of programs, for every outcome of the draws.
#include "draws.h"
#include <functional>
#include <set>
using vp::Chooser;
using vp::fmt;

namespace {
    using Mutator::MutationParameters;
    using P = Program::Program;

    // ------------------------------------------------------- environments
    struct World
    {
        std::string name;
        gg::ISet iset;
        std::vector<std::unique_ptr<Data::DataHandler>> data;
        std::unique_ptr<Environment> env;
        bool singleRegister = false;
        void build(int regs, int consts)
        {
            std::vector<std::reference_wrapper<const Data::DataHandler>> v;
            for (auto& d : data)
                v.push_back(*d);
            env.reset(new Environment(iset.set, v, regs, consts));
            singleRegister = regs == 1;
        }
    };
    template <class T> Data::PrimitiveTypeArray<T>* arr(size_t n)
    {
        auto* a = new Data::PrimitiveTypeArray<T>(n);
        for (size_t i = 0; i < n; i++)
            a->setDataAt(typeid(T), i, (T)(i + 1));
        return a;
    }
    using LD = Instructions::LambdaInstruction<double>;
    using LDD = Instructions::LambdaInstruction<double, double>;

    World* makeWorld(const std::string& n)
    {
        World* w = new World;
        w->name = n;
        auto half = [](double a) { return a / 2; };
        auto sub = [](double a, double b) { return a - b; };
        if (n == "one-type") {
            w->iset.add<LD>(half);
            w->iset.add<LD>([](double a) { return -a; });
            w->data.emplace_back(arr<double>(2));
            w->build(2, 0);
        }
        else if (n == "two-operands") {
            w->iset.add<LD>(half);
            w->iset.add<LDD>(sub);
            w->data.emplace_back(arr<double>(3));
            w->build(2, 0);
        }
        else if (n == "typed") {
            w->iset.add<Instructions::LambdaInstruction<int>>(
                [](int a) { return (double)a; });
            w->iset.add<LD>(half);
            w->iset.add<Instructions::LambdaInstruction<Data::Constant, double>>(
                [](Data::Constant a, double b) { return (double)a * b; });
            w->data.emplace_back(arr<int>(2));
            w->build(2, 2);
        }
        else if (n == "arrays") {
            w->iset.add<Instructions::LambdaInstruction<const double[2]>>(
                [](const double a[2]) { return a[0] - a[1]; });
            w->iset.add<LD>(half);
            w->data.emplace_back(arr<int>(5));
            w->data.emplace_back(arr<double>(3));
            w->build(3, 0);
        }
        else if (n == "one-address") {
            w->iset.add<LD>(half);
            w->iset.add<LDD>(sub);
            w->data.emplace_back(arr<double>(1));
            w->build(1, 0);
        }
        else if (n == "one-register") {
            w->iset.add<LD>(half);
            w->iset.add<LD>([](double a) { return -a; });
            w->data.emplace_back(arr<double>(2));
            w->build(1, 0);
        }
        else if (n == "five-instructions") {
            for (int i = 0; i < 5; i++)
                w->iset.add<LD>([i](double a) { return a + i; });
            w->data.emplace_back(arr<double>(2));
            w->build(3, 0);
        }
        else if (n == "wide") {
            for (int i = 0; i < 7; i++)
                w->iset.add<LD>([i](double a) { return a / 2 + i; });
            w->data.emplace_back(arr<double>(2));
            w->data.emplace_back(arr<double>(9));
            w->build(8, 0);
        }
        else if (n == "wide-constants") {
            w->iset.add<LD>(half);
            w->iset.add<Instructions::LambdaInstruction<Data::Constant>>(
                [](Data::Constant a) { return (double)a; });
            w->iset.add<LD>([](double a) { return -a; });
            w->iset.add<Instructions::LambdaInstruction<int>>(
                [](int a) { return (double)a; });
            w->data.emplace_back(arr<int>(3));
            w->data.emplace_back(arr<double>(6));
            w->build(5, 7);
        }
        else
            abort();
        return w;
    }
    World& world(const std::string& n)
    {
        static std::map<std::string, std::unique_ptr<World>> m;
        auto& p = m[n];
        if (!p)
            p.reset(makeWorld(n));
        return *p;
    }

    // ------------------------------------------------------- lines
    struct L
    {
        uint64_t i, d;
        std::vector<std::pair<uint64_t, uint64_t>> o;
        bool operator<(const L& x) const
        {
            return std::tie(i, d, o) < std::tie(x.i, x.d, x.o);
        }
        bool operator==(const L& x) const
        {
            return i == x.i && d == x.d && o == x.o;
        }
    };
    std::string text(const L& l)
    {
        std::string s = fmt("%d>%d", (int)l.i, (int)l.d);
        for (auto& p : l.o)
            s += fmt(",%d@%d", (int)p.first, (int)p.second);
        return s;
    }
    L lineOf(const Program::Line& l, const Environment& e)
    {
        L r{l.getInstructionIndex(), l.getDestinationIndex(), {}};
        for (size_t k = 0; k < e.getMaxNbOperands(); k++)
            r.o.push_back(l.getOperand(k));
        return r;
    }
    struct Prog
    {
        std::vector<L> l;
        std::vector<int> c;
        bool operator==(const Prog& x) const
        {
            return l == x.l && c == x.c;
        }
        bool operator<(const Prog& x) const
        {
            return std::tie(l, c) < std::tie(x.l, x.c);
        }
    };
    std::string text(const Prog& p)
    {
        std::string s = "{";
        for (auto& l : p.l)
            s += text(l) + "; ";
        for (int c : p.c)
            s += fmt("c%d ", c);
        return s + "}";
    }
    Prog progOf(const P& p)
    {
        Prog r;
        for (size_t i = 0; i < p.getNbLines(); i++)
            r.l.push_back(lineOf(p.getLine(i), p.getEnvironment()));
        for (size_t i = 0; i < p.getEnvironment().getNbConstant(); i++)
            r.c.push_back((int32_t)p.getConstantAt(i));
        return r;
    }
    void fill(P& p, const Prog& m)
    {
        for (auto& l : m.l) {
            auto& x = p.addNewLine();
            x.setInstructionIndex(l.i);
            x.setDestinationIndex(l.d);
            for (size_t k = 0; k < l.o.size(); k++)
                x.setOperand(k, l.o[k].first, l.o[k].second);
        }
        for (size_t i = 0; i < m.c.size(); i++)
            p.getConstantHandler().setDataAt(typeid(Data::Constant), i,
                                             Data::Constant{m.c[i]});
        p.identifyIntrons();
    }
    bool handles(const Environment& e, uint64_t src, uint64_t instr, size_t op)
    {
        static std::map<std::tuple<const Environment*, uint64_t, uint64_t,
                                   size_t>,
                        bool>
            cache;
        auto k = std::make_tuple(&e, src, instr, op);
        auto it = cache.find(k);
        if (it == cache.end())
            it = cache
                     .emplace(k, e.getFakeDataSources().at(src).get().canHandle(
                                     e.getInstructionSet()
                                         .getInstruction(instr)
                                         .getOperandTypes()
                                         .at(op)
                                         .get()))
                     .first;
        return it->second;
    }
    bool validLine(const L& l, const Environment& e)
    {
        if (l.i >= e.getNbInstructions() || l.d >= e.getNbRegisters())
            return false;
        auto& ins = e.getInstructionSet().getInstruction(l.i);
        for (size_t k = 0; k < l.o.size(); k++) {
            if (l.o[k].first >= e.getNbDataSources() ||
                l.o[k].second >= e.getLargestAddressSpace())
                return false;
            if (k < ins.getNbOperands() &&
                !handles(e, l.o[k].first, l.i, k))
                return false;
        }
        return true;
    }
    // all the lines of an environment which are valid
    const std::vector<L>& allLines(const Environment& e)
    {
        static std::map<const Environment*, std::vector<L>> cache;
        auto& r = cache[&e];
        if (!r.empty())
            return r;
        size_t mo = e.getMaxNbOperands(), ns = e.getNbDataSources(),
               la = e.getLargestAddressSpace();
        for (uint64_t i = 0; i < e.getNbInstructions(); i++)
            for (uint64_t d = 0; d < e.getNbRegisters(); d++) {
                size_t tot = 1;
                for (size_t k = 0; k < mo; k++)
                    tot *= ns * la;
                for (size_t x = 0; x < tot; x++) {
                    L l{i, d, {}};
                    size_t y = x;
                    for (size_t k = 0; k < mo; k++) {
                        l.o.push_back({y % ns, (y / ns) % la});
                        y /= ns * la;
                    }
                    if (validLine(l, e))
                        r.push_back(l);
                }
            }
        return r;
    }
    // which lines contribute to register 0, by backward propagation
    std::vector<bool> introns(const Prog& p, const Environment& e)
    {
        std::vector<bool> r(p.l.size());
        std::set<uint64_t> live{0};
        for (size_t j = p.l.size(); j-- > 0;) {
            auto& l = p.l[j];
            r[j] = !live.count(l.d);
            if (r[j])
                continue;
            live.erase(l.d);
            auto& ins = e.getInstructionSet().getInstruction(l.i);
            for (size_t k = 0; k < ins.getNbOperands(); k++) {
                if (l.o[k].first != 0)
                    continue;
                // an array operand reads several consecutive registers
                bool array = &ins.getOperandTypes()[k].get() ==
                             &typeid(const double[2]) ||
                             ins.getOperandTypes()[k].get() ==
                                 typeid(double[2]);
                uint64_t n = array ? 2 : 1;
                uint64_t at = l.o[k].second % (e.getNbRegisters() - n + 1);
                for (uint64_t q = 0; q < n; q++)
                    live.insert(at + q);
            }
        }
        return r;
    }
    void validProgram(const P& p, const std::string& key, size_t maxSize,
                      const MutationParameters* mp, const std::string& ctx)
    {
        Prog m = progOf(p);
        auto& e = p.getEnvironment();
        if (m.l.empty() || m.l.size() > maxSize)
            vp::fail(key, fmt("a program of %zu lines (at most %zu) %s",
                              m.l.size(), maxSize, ctx.c_str()));
        for (auto& l : m.l)
            if (!validLine(l, e))
                vp::fail(key, "invalid line " + text(l) + " " + ctx);
        if (mp)
            for (int c : m.c)
                if (c < mp->prog.minConstValue || c > mp->prog.maxConstValue)
                    vp::fail(key, fmt("constant %d out of bounds %s", c,
                                      ctx.c_str()));
        auto in = introns(m, e);
        for (size_t i = 0; i < in.size(); i++)
            if (p.isIntron(i) != in[i])
                vp::fail(key + "-introns",
                         fmt("line %zu of %s is %s as an intron %s", i,
                             text(m).c_str(),
                             in[i] ? "not marked" : "marked", ctx.c_str()));
        // it can be executed
        try {
            P q(p);
            Program::ProgramExecutionEngine x(q);
            x.executeProgram();
        }
        catch (std::exception& ex) {
            vp::fail(key + "-execution", std::string(ex.what()) + " " +
                                             text(m) + " " + ctx);
        }
        vp::count("programs_checked");
        vp::distinct("programs", vp::digest(text(m)));
    }

    // Everything reached by the runs of a scenario must be exactly this set
    void reach(const std::string& name, const std::set<std::string>& expected,
               const std::string& key,
               const std::function<std::string(Chooser&)>& run, int maxDev = -1)
    {
        vp::ExploreOptions o;
        o.splitDepth = 2;
        o.maxDev = maxDev;
        uint64_t v0 = vp::nbViolations();
        bool ok = vp::explore(
            name,
            [&](Chooser& c) {
                std::string t = run(c);
                if (!expected.count(t))
                    vp::fail(key, "unexpected result " + t);
                vp::distinct(("reach-" + name).c_str(), vp::digest(t));
                vp::count("transitions");
            },
            o);
        if (!ok || vp::nbViolations() != v0)
            return;
        uint64_t n = vp::nbDistinct(("reach-" + name).c_str());
        if (n != expected.size() && !vp::isKnown(key)) {
            // which one is missing: run again is too long, name one count
            vp::recordViolation(
                key + "-missing",
                fmt("%s: only %llu of the %zu possible results are produced "
                    "by the random draws (such as %s)",
                    name.c_str(), (unsigned long long)n, expected.size(),
                    expected.begin()->c_str()),
                name, "");
        }
        vp::count("results_expected", expected.size());
    }

    // ================================================================= C08
    Prog start(World& w, int n, int salt)
    {
        auto all = allLines(*w.env);
        Prog p;
        for (int i = 0; i < n; i++)
            p.l.push_back(all[(size_t)(vp::mix(salt, i * 7 + 1) % all.size())]);
        for (size_t i = 0; i < w.env->getNbConstant(); i++)
            p.c.push_back((int)(i % 2) - salt % 2);
        return p;
    }
    MutationParameters params(size_t maxSize = 2)
    {
        MutationParameters m;
        m.prog.maxProgramSize = maxSize;
        m.prog.minConstValue = -1;
        m.prog.maxConstValue = 1;
        return m;
    }

    // sets of expected results of the elementary mutations
    void constants(std::set<Prog>& s, Prog p, size_t i)
    {
        if (i == p.c.size()) {
            s.insert(p);
            return;
        }
        for (int v = -1; v <= 1; v++) {
            p.c[i] = v;
            constants(s, p, i + 1);
        }
    }
    std::set<std::string> texts(const std::set<Prog>& s)
    {
        std::set<std::string> r;
        for (auto& p : s)
            r.insert(text(p));
        return r;
    }
    std::set<Prog> afterDelete(const Prog& p)
    {
        std::set<Prog> r;
        for (size_t i = 0; i < p.l.size(); i++) {
            Prog q = p;
            q.l.erase(q.l.begin() + i);
            r.insert(q);
        }
        return r;
    }
    std::set<Prog> afterInsert(const Prog& p, const std::vector<L>& all)
    {
        std::set<Prog> r;
        for (size_t i = 0; i <= p.l.size(); i++)
            for (auto& l : all) {
                Prog q = p;
                q.l.insert(q.l.begin() + i, l);
                r.insert(q);
            }
        return r;
    }
    std::set<Prog> afterSwap(const Prog& p)
    {
        std::set<Prog> r;
        for (size_t i = 0; i < p.l.size(); i++)
            for (size_t j = 0; j < i; j++) {
                Prog q = p;
                std::swap(q.l[i], q.l[j]);
                r.insert(q);
            }
        return r;
    }
    // lines which differ by one component; an instruction change may also
    // change the data source of the operands it could not read
    std::set<L> alterations(const L& l, const Environment& e)
    {
        std::set<L> r;
        size_t ns = e.getNbDataSources(), la = e.getLargestAddressSpace();
        for (uint64_t d = 0; d < e.getNbRegisters(); d++)
            if (d != l.d) {
                L q = l;
                q.d = d;
                r.insert(q);
            }
        auto& old = e.getInstructionSet().getInstruction(l.i);
        for (size_t k = 0; k < l.o.size(); k++) {
            // data source: another one which provides the type
            bool any = false;
            for (uint64_t s = 0; s < ns; s++) {
                L q = l;
                q.o[k].first = s;
                if (s != l.o[k].first && validLine(q, e)) {
                    r.insert(q);
                    any = true;
                }
            }
            if (!any && k < old.getNbOperands())
                r.insert(l); // nothing else is possible
            for (uint64_t a = 0; a < la; a++)
                if (a != l.o[k].second) {
                    L q = l;
                    q.o[k].second = a;
                    r.insert(q);
                }
        }
        for (uint64_t i = 0; i < e.getNbInstructions(); i++) {
            if (i == l.i)
                continue;
            std::vector<L> part{l};
            part[0].i = i;
            auto& ins = e.getInstructionSet().getInstruction(i);
            for (size_t k = 0; k < ins.getNbOperands(); k++) {
                auto can = [&](uint64_t s) { return handles(e, s, i, k); };
                if (can(l.o[k].first))
                    continue;
                std::vector<L> nx;
                for (auto& q : part)
                    for (uint64_t s = 0; s < ns; s++)
                        if (can(s)) {
                            nx.push_back(q);
                            nx.back().o[k].first = s;
                        }
                part = nx;
            }
            r.insert(part.begin(), part.end());
        }
        return r;
    }
    std::set<Prog> afterAlter(const Prog& p, const Environment& e)
    {
        std::set<Prog> r;
        for (size_t i = 0; i < p.l.size(); i++)
            for (auto& l : alterations(p.l[i], e)) {
                Prog q = p;
                q.l[i] = l;
                r.insert(q);
            }
        return r;
    }
    std::set<Prog> afterConstant(const Prog& p)
    {
        std::set<Prog> r;
        for (size_t i = 0; i < p.c.size(); i++)
            for (int v = -1; v <= 1; v++) {
                Prog q = p;
                q.c[i] = v;
                r.insert(q);
            }
        return r;
    }

    void programs()
    {
        bool T = vp::opt.thorough();
        vp::bound("programs", "environments with 1-3 registers, 0-2 constants, "
                              "1-2 data sources, 2-5 instructions with 1-2 "
                              "operands; programs of 1-3 lines");
        std::vector<std::string> names = {"one-type", "two-operands", "typed",
                                          "arrays", "one-address",
                                          "five-instructions", "one-register",
                                          "wide", "wide-constants"};
        vp::bound("larger programs", "environments with 8 registers or 7 "
                                     "constants, 9 locations, 7 instructions; "
                                     "programs of up to 13 lines");
        auto wide = [](const std::string& n) { return n[0] == 'w'; };
        // ---- initialisation reaches every valid program and nothing else
        for (auto& n : names) {
            World& w = world(n);
            auto all = allLines(*w.env);
            for (int size = 1; size <= 2; size++) {
                double tot = size == 1 ? all.size() : (double)all.size() * all.size();
                for (size_t i = 0; i < w.env->getNbConstant(); i++)
                    tot *= 3;
                if (tot > (T ? 3e6 : 2e4))
                    continue;
                std::set<Prog> ex;
                for (auto& a : all) {
                    Prog p;
                    p.c.resize(w.env->getNbConstant());
                    p.l = {a};
                    constants(ex, p, 0);
                    if (size == 2)
                        for (auto& b : all) {
                            p.l = {a, b};
                            constants(ex, p, 0);
                        }
                }
                auto mp = params(size);
                reach(fmt("init-%s-%d", n.c_str(), size), texts(ex),
                      "program-init", [&](Chooser& c) {
                          draws::Scope s(c);
                          P p(*w.env);
                          if (c.nbPicks() == 0)
                              fill(p, start(w, 2, 3)); // what was there goes
                          Mutator::RNG rng(1);
                          Mutator::ProgramMutator::initRandomProgram(p, mp, rng);
                          validProgram(p, "program-init", size, &mp,
                                       s.p.log);
                          return text(progOf(p));
                      });
            }
            // one line initialised
            std::set<std::string> ex;
            for (auto& a : all)
                ex.insert(text(a));
            reach("line-" + n, ex, "line-init", [&](Chooser& c) {
                draws::Scope s(c);
                P p(*w.env);
                Mutator::RNG rng(1);
                Mutator::LineMutator::initRandomCorrectLine(p.addNewLine(), rng);
                return text(lineOf(p.getLine(0), *w.env));
            });
        }
        // ---- elementary mutations
        for (auto& n : names)
            for (int size : wide(n) ? std::vector<int>{5, 12}
                                    : std::vector<int>{1, 2, 3})
                for (int salt = 1; salt <= (T ? 8 : 2); salt++) {
                    World& w = world(n);
                    Prog p0 = start(w, size, salt);
                    auto all = allLines(*w.env);
                    auto mp = params();
                    std::string suf = fmt("-%s-%d-%d", n.c_str(), size, salt);
                    auto run = [&](const std::string& op, std::set<Prog> ex,
                                   bool works,
                                   std::function<bool(P&, Mutator::RNG&)> f) {
                        if (!works)
                            ex = {p0};
                        std::string key = "program-" + op;
                        if (w.singleRegister && op == "alter")
                            key += "-single-register";
                        reach(op + suf, texts(ex), key, [&, works](Chooser& c) {
                            draws::Scope s(c);
                            P p(*w.env);
                            fill(p, p0);
                            P copy(p);
                            Mutator::RNG rng(1);
                            bool r = f(p, rng);
                            if (r != works)
                                vp::fail(key, "wrong verdict");
                            if (!(progOf(copy) == p0))
                                vp::fail(key, "a copy of the program changed");
                            p.identifyIntrons();
                            validProgram(p, key, wide(n) ? size + 1 : 4, nullptr,
                                         s.p.log);
                            return text(progOf(p));
                        });
                    };
                    run("delete", afterDelete(p0), size > 1,
                        [](P& p, Mutator::RNG& r) {
                            return Mutator::ProgramMutator::deleteRandomLine(p,
                                                                             r);
                        });
                    if (all.size() * (size + 1) <
                        (T || (wide(n) && salt == 1) ? 30000 : 2500))
                        run("insert", afterInsert(p0, all), true,
                            [](P& p, Mutator::RNG& r) {
                                Mutator::ProgramMutator::insertRandomLine(p, r);
                                return true;
                            });
                    run("swap", afterSwap(p0), size > 1,
                        [](P& p, Mutator::RNG& r) {
                            return Mutator::ProgramMutator::swapRandomLines(p,
                                                                            r);
                        });
                    run("alter", afterAlter(p0, *w.env), true,
                        [](P& p, Mutator::RNG& r) {
                            return Mutator::ProgramMutator::alterRandomLine(p,
                                                                            r);
                        });
                    if (w.env->getNbConstant())
                        run("constant", afterConstant(p0), true,
                            [&](P& p, Mutator::RNG& r) {
                                return Mutator::ProgramMutator::
                                    alterRandomConstant(p, mp, r);
                            });
                }
        // ---- mutateProgram: every combination of probabilities 0, 1 and
        // between
        for (auto& n : names) {
            World& w = world(n);
            vp::ExploreOptions o;
            o.splitDepth = 3;
            o.maxDev = wide(n)        ? (T ? 2 : 1)
                       : n == "typed" ? (T ? 3 : 2)
                                      : (T ? 4 : 3);
            const int M = wide(n) ? 13 : 3; // largest program
            vp::explore(
                "mutate-" + n,
                [&](Chooser& c) {
                    int size = wide(n) ? 5 + 4 * c.pick(3) : 1 + c.pick(3);
                    int salt = c.pick(2);
                    double pr[] = {0.0, 1.0, 0.5};
                    MutationParameters mp = params(M);
                    double* f[] = {&mp.prog.pDelete, &mp.prog.pAdd,
                                   &mp.prog.pMutate, &mp.prog.pSwap,
                                   &mp.prog.pConstantMutation};
                    bool hasC = w.env->getNbConstant() > 0;
                    std::string cfg = fmt("%s size %d ", n.c_str(), size);
                    for (int i = 0; i < (hasC ? 5 : 4); i++) {
                        *f[i] = pr[c.pick(3)];
                        cfg += fmt("%g ", *f[i]);
                    }
                    vp::describe(cfg);
                    Prog p0 = start(w, size, salt + 11);
                    P p(*w.env);
                    fill(p, p0);
                    draws::Scope s(c);
                    s.p.bounded = true;
                    Mutator::RNG rng(1);
                    bool r = Mutator::ProgramMutator::mutateProgram(p, mp, rng);
                    Prog p1 = progOf(p);
                    std::string ctx = cfg + s.p.log + " from " + text(p0) +
                                      " to " + text(p1);
                    vp::describe(s.p.log);
                    // constants of p0 are within the bounds
                    validProgram(p, "program-mutation", M, &mp, ctx);
                    bool dc = size > 1, change = *f[2] > 0;
                    int lo = size, hi = size;
                    if (dc) {
                        if (*f[0] == 1.0)
                            lo--, hi--;
                        else if (*f[0] > 0)
                            lo--;
                    }
                    if (lo < M && *f[1] > 0) {
                        bool sure = *f[1] == 1.0;
                        int l2 = lo, h2 = hi;
                        if (sure) {
                            l2 = std::min(M, lo + 1);
                            h2 = std::min(M, hi + 1);
                        }
                        else
                            h2 = std::min(M, hi + 1);
                        lo = l2;
                        hi = h2;
                    }
                    if ((int)p1.l.size() < lo || (int)p1.l.size() > hi)
                        vp::fail("program-mutation-size",
                                 fmt("%zu lines instead of %d to %d: ",
                                     p1.l.size(), lo, hi) +
                                     ctx);
                    if (!r && !(p1 == p0))
                        vp::fail("program-mutation-verdict",
                                 "changed without telling: " + ctx);
                    bool none = true, sureAny = false;
                    for (int i = 0; i < (hasC ? 5 : 4); i++) {
                        if (i == 0 && size == 1)
                            continue;
                        if (i == 1 && size == M && *f[0] == 0)
                            continue;
                        if (*f[i] > 0)
                            none = false;
                        if (*f[i] == 1.0 && i != 1)
                            sureAny = true;
                    }
                    if (none && r)
                        vp::fail("program-mutation-verdict",
                                 "a mutation of probability 0 is made: " + ctx);
                    if (sureAny && !r)
                        vp::fail("program-mutation-verdict",
                                 "a mutation of probability 1 is not made: " +
                                     ctx);
                    // what must not change
                    if (*f[4] == 0 && p1.c != p0.c)
                        vp::fail("program-mutation-constant",
                                 "constants change with probability 0: " + ctx);
                    auto count = [](const Prog& p) {
                        std::map<L, int> m;
                        for (auto& l : p.l)
                            m[l]++;
                        return m;
                    };
                    auto c0 = count(p0), c1 = count(p1);
                    int kept = 0;
                    for (auto& x : c1)
                        kept += std::min(x.second, c0.count(x.first)
                                                       ? c0[x.first]
                                                       : 0);
                    int least = size - (dc && *f[0] > 0 ? 1 : 0) -
                                (change ? 1 : 0);
                    if (kept < least)
                        vp::fail("program-mutation-lines",
                                 "more lines are lost than mutations made: " +
                                     ctx);
                    if (!change && *f[3] == 0 && *f[1] == 0 && *f[0] == 0 &&
                        p1.l != p0.l)
                        vp::fail("program-mutation-lines",
                                 "lines change with probability 0: " + ctx);
                    vp::count("transitions");
                    vp::distinct("mutations", vp::digest(ctx));
                },
                o);
        }
        // ---- behaviours forced to be new
        vp::ExploreOptions o;
        o.splitDepth = 3;
        o.maxDev = T ? 4 : 2;
        for (const char* n : {"one-type", "two-operands", "typed"}) {
            World& w = world(n);
            vp::explore(
                std::string("unique-") + n,
                [&](Chooser& c) {
                    MutationParameters mp = params(2);
                    mp.tpg.forceProgramBehaviorChangeOnMutation = c.pick(2);
                    mp.prog.pMutate = 0.5;
                    mp.prog.pSwap = 0.5;
                    int salt = c.pick(4), content = c.pick(4);
                    // recordings of two or 9 programs on one or two data
                    const bool many = std::string(n) != "typed" && c.pick(2);
                    const int nrec = many ? 9 : 2;
                    Archive ar(many ? 60 : 6, 1.0);
                    std::vector<std::unique_ptr<P>> rec;
                    for (int k = 0; k < nrec; k++) {
                        rec.emplace_back(new P(*w.env));
                        fill(*rec.back(), start(w, 1, salt + 5 * k));
                    }
                    auto run = [](P& p) {
                        Program::ProgramExecutionEngine e(p);
                        return e.executeProgram();
                    };
                    std::unique_ptr<Data::DataHandler> other;
                    if (content & 1) {
                        for (auto& r : rec)
                            ar.addRecording(r.get(), w.env->getDataSources(),
                                            run(*r), true);
                    }
                    if (content & 2) {
                        other.reset(w.data[0]->clone());
                        if (std::string(n) == "typed")
                            ((Data::PrimitiveTypeArray<int>*)other.get())
                                ->setDataAt(typeid(int), 0, 7);
                        else
                            ((Data::PrimitiveTypeArray<double>*)other.get())
                                ->setDataAt(typeid(double), 0, 7.0);
                        for (auto& r : rec) {
                            Program::ProgramExecutionEngine e(
                                *r, std::vector<std::reference_wrapper<
                                        const Data::DataHandler>>{*other});
                            ar.addRecording(r.get(), {*other},
                                            e.executeProgram(), true);
                        }
                    }
                    gg::GraphNames names;
                    std::string before = gg::archiveText(ar, names);
                    auto p = std::make_shared<P>(*w.env);
                    Prog p0 = start(w, 2, salt);
                    fill(*p, p0);
                    P old(*p);
                    draws::Scope s(c);
                    s.p.bounded = true;
                    s.p.salt = salt;
                    s.p.maxExplored = 40;
                    s.p.limit = 4000; // draws: the behaviours may be exhausted
                    Mutator::RNG rng(1);
                    P* raw = p.get();
                    Mutator::TPGMutator::mutateProgramBehaviorAgainstArchive(
                        p, mp, ar, rng);
                    std::string ctx = fmt("%s salt %d content %d force %d ", n,
                                          salt, content,
                                          (int)mp.tpg
                                              .forceProgramBehaviorChangeOnMutation) +
                                      text(p0) + " becomes " +
                                      text(progOf(*p));
                    vp::describe(ctx);
                    if (p.get() != raw)
                        vp::fail("forced-mutation", "another program");
                    validProgram(*p, "forced-mutation", 2, &mp, ctx);
                    if (gg::archiveText(ar, names) != before)
                        vp::fail("forced-mutation-archive",
                                 "the archive changes: " + ctx);
                    if (mp.tpg.forceProgramBehaviorChangeOnMutation) {
                        // same useful lines and constants: same behaviour
                        auto useful = [&](const P& q) {
                            Prog m = progOf(q);
                            auto in = introns(m, *w.env);
                            std::string t;
                            for (size_t i = 0; i < m.l.size(); i++)
                                if (!in[i]) {
                                    t += text(m.l[i]) + ";";
                                    auto& ins =
                                        w.env->getInstructionSet()
                                            .getInstruction(m.l[i].i);
                                    for (size_t k = 0;
                                         k < ins.getNbOperands(); k++)
                                        if (m.c.size() &&
                                            m.l[i].o[k].first == 1)
                                            t += fmt("c%d",
                                                     m.c[m.l[i].o[k].second %
                                                         m.c.size()]);
                                }
                            return t;
                        };
                        if (useful(*p) == useful(old))
                            vp::fail("forced-mutation-same",
                                     "the behaviour did not change: " + ctx);
                    }
                    // unique against the archive
                    for (auto& r : rec) {
                        bool same = false, differs = false;
                        for (size_t i = 0; i < ar.getNbRecordings(); i++) {
                            auto& x = ar.at(i);
                            if (x.prog != r.get())
                                continue;
                            Program::ProgramExecutionEngine e(
                                *p, ar.getDataHandlers().at(x.dataHash));
                            double v = e.executeProgram();
                            (std::abs(v - x.result) <= 1e-4 ? same : differs) =
                                true;
                        }
                        if (same && !differs)
                            vp::fail("forced-mutation-archive",
                                     "same results as an archived program: " +
                                         ctx);
                    }
                    vp::count("transitions");
                    vp::distinct("mutations", vp::digest(ctx));
                    vp::sample(ctx);
                },
                o);
        }
    }

    // ================================================================= C07
    struct Start
    {
        std::unique_ptr<TPG::TPGGraph> g;
        std::vector<const TPG::TPGVertex*> v;
        std::vector<std::shared_ptr<P>> p;
    };
    struct Shape
    {
        const char* name;
        std::vector<int> vs;                 // -1 team, else action id
        std::vector<std::array<int, 3>> es;  // source, destination, program
        int progs;
    };
    const Shape shapes[] = {
        {"initial", {0, -1, 1, -1}, {{1, 0, 0}, {1, 2, 1}, {3, 2, 2}, {3, 0, 3}}, 4},
        {"nested", {-1, -1, 0, 1}, {{0, 1, 0}, {0, 2, 1}, {1, 2, 0}, {1, 3, 2}}, 3},
        {"many-actions", {-1, 0, 1, 2}, {{0, 1, 0}, {0, 2, 1}, {0, 3, 2}}, 3},
        {"root-action", {0, -1, 1, 2}, {{1, 2, 0}, {1, 3, 1}}, 2},
        {"diamond", {-1, -1, -1, 0, 1},
         {{0, 1, 0}, {0, 2, 1}, {1, 3, 2}, {1, 4, 0}, {2, 4, 1}, {2, 3, 3}}, 4},
        {"parallel-edges", {-1, 0, 1}, {{0, 1, 0}, {0, 1, 1}, {0, 2, 2}}, 3},
        {"no-team", {0, 1}, {}, 0},
        {"empty", {}, {}, 0},
    };
    // Larger graphs: a chain of teams, the first of which has one edge to each
    // action, or teams of two levels sharing programs.
    const std::vector<Shape>& largeShapes()
    {
        static std::vector<Shape> r;
        if (!r.empty())
            return r;
        Shape a{"chain", {}, {}, 9};
        for (int i = 0; i < 8; i++)
            a.vs.push_back(-1);
        for (int i = 0; i < 7; i++)
            a.vs.push_back(i);
        int n = 0;
        for (int i = 0; i < 7; i++) {
            a.es.push_back({i, i + 1, n++ % 9});
            a.es.push_back({i, 8 + i, n++ % 9});
        }
        for (int k = 1; k < 7; k++)
            a.es.push_back({0, 8 + k, n++ % 9});
        a.es.push_back({7, 8, 0});
        a.es.push_back({7, 9, 4});
        r.push_back(a);
        Shape b{"levels", {}, {}, 12};
        for (int i = 0; i < 10; i++) // actions and teams in turn
            b.vs.push_back(i % 2 ? -1 : i / 2);
        for (int i = 0; i < 6; i++)
            b.vs.push_back(-1);
        n = 0;
        for (int i = 1; i < 10; i += 2)
            for (int k = 0; k < 2 + i / 5; k++)
                b.es.push_back({i, (i + 2 * k + 1) % 10 / 2 * 2, n++ % 12});
        for (int i = 10; i < 16; i++)
            for (int k = 0; k < 3; k++)
                b.es.push_back({i, (i + 3 * k) % 10, n++ % 12});
        r.push_back(b);
        return r;
    }
    void make(Start& s, const Shape& sh, World& w, bool inst)
    {
        if (inst)
            s.g.reset(new TPG::TPGGraph(
                *w.env, std::make_unique<TPG::TPGInstrumentedFactory>()));
        else
            s.g.reset(new TPG::TPGGraph(*w.env));
        for (int a : sh.vs)
            s.v.push_back(a < 0 ? (const TPG::TPGVertex*)&s.g->addNewTeam()
                                : &s.g->addNewAction(a));
        for (int i = 0; i < sh.progs; i++) {
            s.p.push_back(std::make_shared<P>(*w.env));
            fill(*s.p.back(), start(w, 1 + i % 2, i));
        }
        for (auto& e : sh.es)
            s.g->addNewEdge(*s.v[e[0]], *s.v[e[1]], s.p[e[2]]);
    }
    // Structure required of any graph
    void wellFormed(const TPG::TPGGraph& g, const std::string& ctx)
    {
        std::map<const TPG::TPGVertex*, int> col;
        for (auto v : g.getVertices())
            col[v] = 0;
        std::function<void(const TPG::TPGVertex*)> dfs =
            [&](const TPG::TPGVertex* v) {
                auto it = col.find(v);
                if (it == col.end())
                    vp::fail("mutation-structure",
                             "an edge leads to a vertex which is not in the "
                             "graph " + ctx);
                if (it->second == 2)
                    return;
                if (it->second == 1)
                    vp::fail("mutation-cycle", "the graph has a cycle " + ctx +
                                                   gg::graphText(g));
                it->second = 1;
                for (auto e : v->getOutgoingEdges())
                    dfs(e->getDestination());
                it->second = 2;
            };
        for (auto v : g.getVertices()) {
            dfs(v);
            if (dynamic_cast<const TPG::TPGTeam*>(v) &&
                v->getOutgoingEdges().size() < 2)
                vp::fail("mutation-structure",
                         "a team has less than two edges " + ctx +
                             gg::graphText(g));
        }
        size_t in = 0, out = 0;
        for (auto v : g.getVertices()) {
            in += v->getIncomingEdges().size();
            out += v->getOutgoingEdges().size();
            for (auto e : v->getOutgoingEdges())
                if (e->getSource() != v)
                    vp::fail("mutation-structure", "source of an edge " + ctx);
            for (auto e : v->getIncomingEdges())
                if (e->getDestination() != v)
                    vp::fail("mutation-structure",
                             "destination of an edge " + ctx);
        }
        if (in != g.getEdges().size() || out != in)
            vp::fail("mutation-structure", "edges and vertices disagree " + ctx);
        vp::count("graphs_checked");
    }

    void initialGraphs()
    {
        bool T = vp::opt.thorough();
        World& w = world("one-type");
        vp::bound("init", fmt("2-%d actions, every allowed maximum of edges, "
                              "all draws", T ? 4 : 3));
        std::vector<std::pair<int, int>> sizes;
        for (int na = 2; na <= (T ? 4 : 3); na++)
            for (int mo = 2; mo <= na; mo++)
                sizes.push_back({na, mo});
        sizes.insert(sizes.end(), {{9, 2}, {9, 9}, {12, 5}});
        vp::bound("init-large", "9 and 12 actions, at most 2, 9 and 5 edges, "
                                "one deviation from the default draws");
        for (auto [na_, mo_] : sizes) {
                const int na = na_, mo = mo_;
                vp::ExploreOptions o;
                o.splitDepth = 3;
                bool free = na < 4 || (mo < 4 && na < 5);
                o.maxDev = na < 5 ? 5 : T ? 2 : 1;
                vp::explore(
                    fmt("init-%d-%d", na, mo),
                    [&](Chooser& c) {
                        bool inst = c.pick(2), dirty = c.pick(2);
                        Start s;
                        make(s, shapes[dirty ? 1 : 7], w, inst);
                        MutationParameters mp = params(1);
                        mp.tpg.nbActions = na;
                        mp.tpg.maxInitOutgoingEdges = mo;
                        mp.tpg.maxOutgoingEdges = mo;
                        draws::Scope d(c);
                        d.p.programDraws = 0;
                        d.p.bounded = !free;
                        Mutator::RNG rng(1);
                        Mutator::TPGMutator::initRandomTPG(*s.g, mp, rng);
                        std::string ctx = fmt("(%d actions, %d edges, ", na, mo) +
                                          d.p.log + ") ";
                        wellFormed(*s.g, ctx);
                        auto bad = [&](const std::string& t) {
                            vp::fail("initial-graph",
                                     t + ctx + gg::graphText(*s.g));
                        };
                        std::map<uint64_t, int> acts;
                        int teams = 0;
                        for (auto v : s.g->getVertices()) {
                            if (auto a = dynamic_cast<const TPG::TPGAction*>(v)) {
                                acts[a->getActionID()]++;
                                if (v->getIncomingEdges().empty())
                                    bad("an action is not used ");
                                continue;
                            }
                            teams++;
                            if ((int)v->getOutgoingEdges().size() > mo)
                                bad("too many edges ");
                            if (!v->getIncomingEdges().empty())
                                bad("a team is not a root ");
                            std::set<const P*> ps;
                            std::set<const TPG::TPGVertex*> ds;
                            for (auto e : v->getOutgoingEdges()) {
                                ps.insert(&e->getProgram());
                                ds.insert(e->getDestination());
                                if (!dynamic_cast<const TPG::TPGAction*>(
                                        e->getDestination()))
                                    bad("an edge does not lead to an action ");
                                validProgram(e->getProgram(), "initial-graph",
                                             1, &mp, ctx);
                            }
                            if (ps.size() != v->getOutgoingEdges().size())
                                bad("a team uses a program twice ");
                            if (ds.size() < 2)
                                bad("a team leads to a single action ");
                            if (inst != (typeid(*v) ==
                                         typeid(TPG::TPGTeamInstrumented)))
                                bad("kind of vertex ");
                        }
                        if (teams != na || (int)acts.size() != na ||
                            (int)s.g->getNbVertices() != 2 * na ||
                            acts.rbegin()->first != (uint64_t)na - 1)
                            bad("teams or actions ");
                        vp::count("transitions");
                        vp::distinct("graphs", vp::digest(gg::graphText(*s.g)));
                    },
                    o);
            }
        // refused parameters
        vp::explore("init-refused", [&](Chooser& c) {
            Start s;
            make(s, shapes[7], w, false);
            MutationParameters mp = params(1);
            mp.tpg.nbActions = c.pick(4);
            mp.tpg.maxInitOutgoingEdges = 1 + c.pick(5);
            if (mp.tpg.maxInitOutgoingEdges == 1)
                c.prune(); // not meaningful: a team needs two edges
            draws::Scope d(c);
            d.p.programDraws = 0;
            d.p.bounded = true;
            Mutator::RNG rng(1);
            bool thrown = false;
            try {
                Mutator::TPGMutator::initRandomTPG(*s.g, mp, rng);
            }
            catch (std::runtime_error&) {
                thrown = true;
            }
            bool bad = mp.tpg.nbActions < 2 ||
                       mp.tpg.maxInitOutgoingEdges > mp.tpg.nbActions;
            if (bad != thrown)
                vp::fail("initial-graph-parameters",
                         fmt("%zu actions, %zu edges: %s", mp.tpg.nbActions,
                             mp.tpg.maxInitOutgoingEdges,
                             thrown ? "refused" : "accepted"));
            if (thrown && s.g->getNbVertices())
                vp::fail("initial-graph-parameters", "the graph changed");
        });
    }

    void populate(const Shape& sh, int extra, int maxDev, bool inst,
                  int maxDoubles = 14)
    {
        World& w = world("one-type");
        size_t nEdges = 0, nActs = 0, nTeams = 0, deg = 0;
        std::map<int, size_t> od;
        for (int v : sh.vs)
            (v < 0 ? nTeams : nActs)++;
        for (auto& e : sh.es) {
            nEdges++;
            deg = std::max(deg, ++od[e[0]]);
        }
        vp::ExploreOptions o;
        o.splitDepth = 5;
        o.maxDev = std::max(0, maxDev);
        o.maxViolations = 5;
        vp::explore(
            fmt("populate-%s+%d%s", sh.name, extra, inst ? "-instrumented" : ""),
            [&](Chooser& c) {
                MutationParameters mp = params(2);
                size_t maxE = std::max<size_t>(2, deg) + c.pick(2);
                mp.tpg.maxOutgoingEdges = maxE;
                double pr[] = {0.5, 0.0, 1.0};
                mp.tpg.pEdgeDeletion = mp.tpg.pEdgeAddition = pr[c.pick(2)];
                mp.tpg.pProgramMutation = pr[c.pick(2) * 2];
                mp.tpg.pEdgeDestinationChange = pr[c.pick(3)];
                mp.tpg.pEdgeDestinationIsAction = pr[c.pick(3)];
                mp.tpg.nbActions = 2;
                mp.tpg.maxInitOutgoingEdges = 2;
                Start s;
                make(s, sh, w, inst);
                size_t r0 = s.g->getNbRootVertices();
                mp.tpg.nbRoots = r0 + extra;
                std::string cfg =
                    fmt("%s +%d maxE %zu del %g add %g mut %g dest %g act %g",
                        sh.name, extra, maxE, mp.tpg.pEdgeDeletion,
                        mp.tpg.pEdgeAddition, mp.tpg.pProgramMutation,
                        mp.tpg.pEdgeDestinationChange,
                        mp.tpg.pEdgeDestinationIsAction);
                vp::describe(cfg);
                // what must not change
                std::vector<std::string> progs;
                for (auto& p : s.p)
                    progs.push_back(text(progOf(*p)));
                std::vector<const TPG::TPGEdge*> e0;
                for (auto& e : s.g->getEdges())
                    e0.push_back(e.get());
                Archive ar(10, 1.0);
                draws::Scope d(c);
                d.p.programDraws = 0;
                d.p.bounded = maxDev >= 0;
                d.p.maxDoubles = maxDoubles;
                Mutator::RNG rng(1);
                try {
                    Mutator::TPGMutator::populateTPG(*s.g, ar, mp, rng, 1);
                }
                catch (std::exception& ex) {
                    bool a = nActs > nTeams &&
                             mp.tpg.pEdgeDestinationIsAction > 0 &&
                             mp.tpg.pEdgeDestinationChange > 0;
                    vp::fail(a ? "mutation-throws-more-actions-than-teams"
                               : "mutation-throws",
                             std::string(ex.what()) + " " + cfg + " draws " +
                                 d.p.log);
                }
                std::string ctx = cfg + " draws " + d.p.log + " ";
                vp::describe(" draws " + d.p.log);
                wellFormed(*s.g, ctx);
                auto bad = [&](const std::string& key, const std::string& t) {
                    vp::fail(key, t + ctx + gg::graphText(*s.g));
                };
                auto vs = s.g->getVertices();
                bool reinit = nTeams == 0;
                if (reinit) {
                    if (s.g->getNbRootVertices() !=
                        std::max<size_t>(2, mp.tpg.nbRoots))
                        bad("mutation-roots", "wrong number of roots ");
                    vp::count("transitions");
                    return;
                }
                if (s.g->getNbRootVertices() != r0 + extra)
                    bad("mutation-roots",
                        fmt("%zu roots instead of %zu ",
                            (size_t)s.g->getNbRootVertices(), r0 + extra));
                // pre-existing elements
                if (vs.size() < s.v.size())
                    bad("mutation-preexisting", "a vertex disappeared ");
                std::set<const TPG::TPGVertex*> old(s.v.begin(), s.v.end()),
                    oldActs, oldTeams;
                for (size_t i = 0; i < s.v.size(); i++) {
                    if (!s.g->hasVertex(*s.v[i]))
                        bad("mutation-preexisting", "a vertex disappeared ");
                    (sh.vs[i] < 0 ? oldTeams : oldActs).insert(s.v[i]);
                    std::vector<std::pair<int, int>> now, was;
                    for (auto e : s.v[i]->getOutgoingEdges()) {
                        int dd = -1, pp = -1;
                        for (size_t k = 0; k < s.v.size(); k++)
                            if (s.v[k] == e->getDestination())
                                dd = (int)k;
                        for (size_t k = 0; k < s.p.size(); k++)
                            if (s.p[k].get() == &e->getProgram())
                                pp = (int)k;
                        now.push_back({dd, pp});
                    }
                    for (auto& e : sh.es)
                        if (e[0] == (int)i)
                            was.push_back({e[1], e[2]});
                    if (now != was)
                        bad("mutation-preexisting",
                            fmt("the edges of vertex %zu changed ", i));
                    if (sh.vs[i] >= 0 &&
                        ((const TPG::TPGAction*)s.v[i])->getActionID() !=
                            (uint64_t)sh.vs[i])
                        bad("mutation-preexisting", "an action changed ");
                }
                for (size_t i = 0; i < s.p.size(); i++)
                    if (text(progOf(*s.p[i])) != progs[i])
                        bad("mutation-preexisting",
                            fmt("program %zu changed ", i));
                // new teams
                std::set<const P*> fresh;
                std::map<const P*, const TPG::TPGVertex*> owner;
                int nNew = 0;
                for (auto v : vs) {
                    if (old.count(v))
                        continue;
                    nNew++;
                    if (!dynamic_cast<const TPG::TPGTeam*>(v))
                        bad("mutation-new-team", "a new vertex is not a team ");
                    if (inst !=
                        (typeid(*v) == typeid(TPG::TPGTeamInstrumented)))
                        bad("mutation-new-team", "kind of vertex ");
                    if (!v->getIncomingEdges().empty())
                        bad("mutation-new-team", "a new team is not a root ");
                    if (v->getOutgoingEdges().size() > maxE)
                        bad("mutation-new-team", "too many edges ");
                    int nFresh = 0;
                    for (auto e : v->getOutgoingEdges()) {
                        if (!old.count(e->getDestination()))
                            bad("mutation-new-team",
                                "an edge leads to a new vertex ");
                        const P* p = &e->getProgram();
                        bool shared = false;
                        for (auto& q : s.p)
                            shared |= q.get() == p;
                        bool sameEdge = false; // an existing (program,
                                               // destination) association
                        for (auto& x : sh.es)
                            sameEdge |= s.v[x[1]] == e->getDestination() &&
                                        s.p[x[2]].get() == p;
                        if (shared) {
                            if (!sameEdge)
                                bad("mutation-new-team",
                                    "an edge was rewired without a new "
                                    "program ");
                            if (mp.tpg.pProgramMutation == 1.0)
                                bad("mutation-new-team",
                                    "a program is not mutated with "
                                    "probability 1 ");
                            continue;
                        }
                        nFresh++;
                        if (!owner.emplace(p, v).second)
                            bad("mutation-new-team",
                                "a new program is used twice ");
                        validProgram(*p, "mutation-new-program", 2, &mp, ctx);
                        bool isAct = oldActs.count(e->getDestination());
                        if (mp.tpg.pEdgeDestinationChange == 1.0) {
                            if (mp.tpg.pEdgeDestinationIsAction == 1.0 &&
                                !isAct)
                                bad("mutation-destination-not-an-action",
                                    "rewired to a team instead of an action ");
                            if (mp.tpg.pEdgeDestinationIsAction == 0.0 && isAct)
                                bad("mutation-destination",
                                    "rewired to an action instead of a team ");
                        }
                        if (mp.tpg.pEdgeDestinationChange == 0.0) {
                            bool any = false;
                            for (auto& x : sh.es)
                                any |= s.v[x[1]] == e->getDestination();
                            if (!any)
                                bad("mutation-destination",
                                    "rewired with probability 0 ");
                        }
                    }
                    if (!nFresh)
                        bad("mutation-new-team", "no program was mutated ");
                    if (inst)
                        for (auto e : v->getOutgoingEdges())
                            if (!dynamic_cast<const TPG::TPGEdgeInstrumented*>(
                                    e))
                                bad("mutation-new-team", "kind of edge ");
                }
                if (nNew < extra)
                    bad("mutation-roots", "not enough new teams ");
                if (ar.getNbRecordings())
                    bad("mutation-archive", "recordings ");
                vp::count("transitions");
                vp::distinct("graphs", vp::digest(gg::graphText(*s.g)));
                vp::sample(ctx + gg::graphText(*s.g));
            },
            o);
    }

    // each pre-existing vertex can become the destination of a mutated edge;
    // each root can be cloned, each edge duplicated, each edge removed
    void choices()
    {
        World& w = world("one-type");
        std::vector<Shape> all(std::begin(shapes), std::end(shapes));
        all.insert(all.end(), largeShapes().begin(), largeShapes().end());
        for (auto& sh : all) {
            if (sh.es.empty())
                continue;
            Start s0;
            make(s0, sh, w, false);
            auto nameOf = [](const Start& s, const TPG::TPGVertex* v) {
                for (size_t k = 0; k < s.v.size(); k++)
                    if (s.v[k] == v)
                        return (int)k;
                return -1;
            };
            for (int act = 0; act < 2; act++) {
                std::set<std::string> ex;
                for (size_t k = 0; k < sh.vs.size(); k++)
                    if ((sh.vs[k] >= 0) == (act == 1))
                        ex.insert(fmt("%zu", k));
                std::string key = act ? "destination-not-an-action"
                                      : "destination-not-a-team";
                reach(fmt("destination-%s-%s", sh.name, act ? "action" : "team"),
                      ex, key, [&](Chooser& c) {
                          Start s;
                          make(s, sh, w, false);
                          MutationParameters mp = params(2);
                          mp.tpg.pEdgeDestinationIsAction = act;
                          std::vector<const TPG::TPGTeam*> ts;
                          std::vector<const TPG::TPGAction*> as;
                          for (auto v : s.g->getVertices())
                              if (auto a =
                                      dynamic_cast<const TPG::TPGAction*>(v))
                                  as.push_back(a);
                              else
                                  ts.push_back((const TPG::TPGTeam*)v);
                          auto& nt = (const TPG::TPGTeam&)s.g->cloneVertex(*ts[0]);
                          draws::Scope d(c);
                          Mutator::RNG rng(1);
                          auto* e = nt.getOutgoingEdges().front();
                          try {
                              Mutator::TPGMutator::mutateEdgeDestination(
                                  *s.g, e, ts, as, mp, rng);
                          }
                          catch (std::exception& x) {
                              vp::fail(key, std::string(x.what()) + " " +
                                                d.p.log);
                          }
                          return fmt("%d", nameOf(s, e->getDestination()));
                      });
            }
            // removal
            int team = 0;
            while (sh.vs[team] >= 0)
                team++;
            std::set<std::string> ex;
            int nOut = 0;
            for (auto& e : sh.es)
                nOut += e[0] == team;
            for (int k = 0; k < nOut; k++)
                ex.insert(fmt("%d", k));
            reach(fmt("removal-%s", sh.name), ex, "edge-removal",
                  [&](Chooser& c) {
                      Start s;
                      make(s, sh, w, false);
                      auto& t = *(const TPG::TPGTeam*)s.v[team];
                      std::vector<const TPG::TPGEdge*> before, after;
                      for (auto e : t.getOutgoingEdges())
                          before.push_back(e);
                      size_t n = s.g->getEdges().size();
                      draws::Scope d(c);
                      Mutator::RNG rng(1);
                      Mutator::TPGMutator::removeRandomEdge(*s.g, t, rng);
                      for (auto e : t.getOutgoingEdges())
                          after.push_back(e);
                      if (s.g->getEdges().size() != n - 1 ||
                          after.size() != before.size() - 1)
                          vp::fail("edge-removal", "not one edge is removed");
                      for (size_t k = 0; k < before.size(); k++) {
                          auto q = before;
                          q.erase(q.begin() + k);
                          if (q == after)
                              return fmt("%zu", k);
                      }
                      return std::string("other");
                  });
            // addition: any edge of another team not leading to the team
            ex.clear();
            int k = 0;
            for (auto& e : sh.es) {
                if (e[0] != team && e[1] != team)
                    ex.insert(fmt("%d>%d", e[1], e[2]));
                k++;
            }
            if (ex.empty())
                continue;
            reach(fmt("addition-%s", sh.name), ex, "edge-addition",
                  [&](Chooser& c) {
                      Start s;
                      make(s, sh, w, false);
                      auto& t = *(const TPG::TPGTeam*)s.v[team];
                      std::list<const TPG::TPGEdge*> pre;
                      for (auto& e : s.g->getEdges())
                          pre.push_back(e.get());
                      auto before = t.getOutgoingEdges();
                      draws::Scope d(c);
                      Mutator::RNG rng(1);
                      Mutator::TPGMutator::addRandomEdge(*s.g, t, pre, rng);
                      auto after = t.getOutgoingEdges();
                      if (after.size() != before.size() + 1 ||
                          s.g->getEdges().size() != pre.size() + 1)
                          vp::fail("edge-addition", "not one edge is added");
                      std::list<TPG::TPGEdge*> rest(after.begin(),
                                                    std::prev(after.end()));
                      if (rest != before)
                          vp::fail("edge-addition", "other edges changed");
                      auto* e = after.back();
                      int pp = -1;
                      for (size_t q = 0; q < s.p.size(); q++)
                          if (s.p[q].get() == &e->getProgram())
                              pp = (int)q;
                      return fmt("%d>%d", nameOf(s, e->getDestination()), pp);
                  });
        }
    }

    void graphs()
    {
        bool T = vp::opt.thorough();
        initialGraphs();
        choices();
        vp::bound("populate",
                  "one new root: every draw; two and three: draws within a "
                  "number of deviations from a default answer; at most 14 real "
                  "draws explored per mutation; graphs of 15 and 16 vertices "
                  "with 1 and 3 new roots, one deviation; contents of programs fixed");
        for (auto& sh : largeShapes()) {
            populate(sh, 1, 1, false, 40);
            populate(sh, T ? 12 : 3, 1, false, 60);
        }
        for (auto& sh : shapes) {
            bool small = sh.es.size() <= 4;
            (void)small;
            populate(sh, 0, 2, false);
            populate(sh, 1, T ? 5 : 3, false);
            populate(sh, 2, T ? 4 : 2, false);
            if (T)
                populate(sh, 3, 3, false);
            populate(sh, 1, 2, true);
        }
    }
} // namespace

void vp_main()
{
    if (vp::opt.prop == "C08")
        programs();
    else
        graphs();
}
