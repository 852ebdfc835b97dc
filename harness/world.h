// Environments with a reference semantics: every instruction and data source
// has a model, from which an interpreter computes what a program must return.
#ifndef WORLD_H
#define WORLD_H
#include "gg.h"
#include "vp.h"
#include <functional>
#include <set>

namespace wd {
    using P = Program::Program;
    using Args = std::vector<std::vector<double>>;
    struct Skip
    {
    }; // the model of an instruction which throws

    // type of an operand: element and dimensions (0: scalar)
    struct OpType
    {
        char elem; // d double, i int, f float, c constant, u unsigned char,
                   // l int64_t, s unsigned short
        size_t h, w; // h = 0: scalar or 1D; w = 0: scalar
    };
    struct MInstr
    {
        std::string name;
        std::vector<OpType> ops;
        std::function<double(const Args&)> f;
    };
    // a data source: element type, dimensions (h = 0: 1D) and content
    struct MSource
    {
        char elem;
        size_t h, w;
        std::vector<double> v;
        size_t size() const
        {
            return h ? h * w : w;
        }
        // number of addresses for an operand type (0: cannot be provided)
        size_t space(const OpType& t) const
        {
            if (t.elem != elem)
                return 0;
            if (!t.w)
                return size();
            if (!h)
                return t.h || t.w > w ? 0 : w - t.w + 1;
            size_t th = t.h ? t.h : 1;
            return th > h || t.w > w ? 0 : (h - th + 1) * (w - t.w + 1);
        }
        std::vector<size_t> addresses(const OpType& t, size_t a) const
        {
            std::vector<size_t> r;
            if (!t.w)
                r.push_back(a);
            else if (!h)
                for (size_t i = 0; i < t.w; i++)
                    r.push_back(a + i);
            else {
                size_t th = t.h ? t.h : 1, cols = w - t.w + 1;
                for (size_t y = 0; y < th; y++)
                    for (size_t x = 0; x < t.w; x++)
                        r.push_back((a / cols + y) * w + a % cols + x);
            }
            return r;
        }
    };

    struct L
    {
        uint64_t i, d;
        std::vector<std::pair<uint64_t, uint64_t>> o;
        bool operator==(const L& x) const
        {
            return i == x.i && d == x.d && o == x.o;
        }
        bool operator!=(const L& x) const
        {
            return !(*this == x);
        }
    };
    struct Prog
    {
        std::vector<L> l;
        std::vector<int> c;
    };
    inline std::string text(const L& l)
    {
        std::string s = vp::fmt("%d>%d", (int)l.i, (int)l.d);
        for (auto& p : l.o)
            s += vp::fmt(",%d@%d", (int)p.first, (int)p.second);
        return s;
    }
    inline std::string text(const Prog& p)
    {
        std::string s = "{";
        for (auto& l : p.l)
            s += text(l) + "; ";
        for (int c : p.c)
            s += vp::fmt("c%d ", c);
        return s + "}";
    }

    struct World
    {
        std::string name;
        gg::ISet iset;
        std::vector<MInstr> instr;
        size_t regs = 0, consts = 0;
        std::vector<std::unique_ptr<Data::DataHandler>> data;
        std::vector<std::function<void(size_t, double)>> write; // per source
        std::vector<MSource> src; // models of data (same order)
        std::vector<std::vector<std::vector<double>>> contents; // alternatives
        std::unique_ptr<Environment> env;
        std::vector<std::shared_ptr<void>> keep; // storage of the wrappers

        size_t nbOps = 0;
        std::vector<std::reference_wrapper<const Data::DataHandler>> refs()
            const
        {
            std::vector<std::reference_wrapper<const Data::DataHandler>> v;
            for (auto& d : data)
                v.push_back(*d);
            return v;
        }
        void finish(size_t r, size_t c)
        {
            regs = r;
            consts = c;
            env.reset(new Environment(iset.set, refs(), r, c));
            for (auto& i : instr)
                nbOps = std::max(nbOps, i.ops.size());
            if (env->getNbInstructions() != instr.size() ||
                env->getMaxNbOperands() != nbOps)
                abort();
        }
        size_t offset() const
        {
            return consts ? 2 : 1;
        }
        size_t nbSources() const
        {
            return data.size() + offset();
        }
        size_t largest() const
        {
            size_t r = std::max(regs, consts);
            for (auto& s : src)
                r = std::max(r, s.size());
            return r;
        }
        // model of source k of a program
        MSource source(size_t k) const
        {
            if (k == 0)
                return {'d', 0, regs, {}};
            if (consts && k == 1)
                return {'c', 0, consts, {}};
            return src[k - offset()];
        }
        void load(size_t alternative)
        {
            auto& c = contents[alternative];
            for (size_t s = 0; s < c.size(); s++) {
                src[s].v = c[s];
                for (size_t a = 0; a < c[s].size(); a++)
                    write[s](a, c[s][a]);
            }
        }
        // value of register 0 after the program; only: lines to execute.
        double run(const Prog& p, const std::vector<bool>* skip = nullptr) const
        {
            std::vector<double> r(regs, 0.0);
            for (size_t j = 0; j < p.l.size(); j++) {
                if (skip && (*skip)[j])
                    continue;
                auto& l = p.l[j];
                auto& ins = instr[l.i];
                Args args;
                for (size_t k = 0; k < ins.ops.size(); k++) {
                    MSource s = source(l.o[k].first);
                    size_t n = s.space(ins.ops[k]);
                    std::vector<double> a;
                    for (size_t x :
                         s.addresses(ins.ops[k], l.o[k].second % n))
                        a.push_back(l.o[k].first == 0 ? r[x]
                                    : consts && l.o[k].first == 1
                                        ? (double)p.c[x]
                                        : s.v[x]);
                    args.push_back(a);
                }
                try {
                    r[l.d] = ins.f(args);
                }
                catch (Skip&) {
                }
            }
            return r[0];
        }
        bool throws(const Prog& p) const
        {
            for (auto& l : p.l)
                if (instr[l.i].name == "throw")
                    return true;
            return false;
        }
        bool valid(const L& l) const
        {
            auto& ins = instr[l.i];
            for (size_t k = 0; k < ins.ops.size(); k++)
                if (!source(l.o[k].first).space(ins.ops[k]))
                    return false;
            return true;
        }
        // lines with every raw location (raw) or one raw location for each
        // address; operands beyond those of the instruction: 0@0
        std::vector<L> lines(bool raw, bool onlyRegs = false) const
        {
            std::vector<L> r;
            for (uint64_t i = 0; i < instr.size(); i++)
                for (uint64_t d = 0; d < regs; d++) {
                    std::vector<L> c{{i, d, {}}};
                    for (size_t k = 0; k < nbOps; k++) {
                        std::vector<L> n;
                        for (auto& l : c) {
                            if (k >= instr[i].ops.size()) {
                                L q = l;
                                q.o.push_back({0, 0});
                                n.push_back(q);
                                continue;
                            }
                            for (uint64_t s = 0; s < nbSources(); s++) {
                                if (onlyRegs && s > 0 && source(0).space(instr[i].ops[k]))
                                    continue;
                                size_t sp = source(s).space(instr[i].ops[k]);
                                size_t hi = sp ? (raw ? largest() : sp) : 0;
                                if (onlyRegs && s > 0)
                                    hi = std::min(hi, (size_t)1);
                                for (uint64_t a = 0; a < hi; a++) {
                                    L q = l;
                                    q.o.push_back({s, a});
                                    n.push_back(q);
                                }
                            }
                        }
                        c = n;
                    }
                    r.insert(r.end(), c.begin(), c.end());
                }
            return r;
        }
        std::vector<bool> introns(const Prog& p) const
        {
            std::vector<bool> r(p.l.size());
            std::set<uint64_t> live{0};
            for (size_t j = p.l.size(); j-- > 0;) {
                auto& l = p.l[j];
                r[j] = !live.count(l.d);
                if (r[j])
                    continue;
                live.erase(l.d);
                auto& ins = instr[l.i];
                for (size_t k = 0; k < ins.ops.size(); k++)
                    if (l.o[k].first == 0) {
                        MSource s = source(0);
                        size_t n = s.space(ins.ops[k]);
                        for (size_t x :
                             s.addresses(ins.ops[k], l.o[k].second % n))
                            live.insert(x);
                    }
            }
            return r;
        }
    };
    inline void setLine(Program::Line& x, const L& l)
    {
        x.setInstructionIndex(l.i);
        x.setDestinationIndex(l.d);
        for (size_t k = 0; k < l.o.size(); k++)
            x.setOperand(k, l.o[k].first, l.o[k].second);
    }
    inline void fill(P& p, const Prog& m, bool identify = true)
    {
        for (auto& l : m.l)
            setLine(p.addNewLine(), l);
        for (size_t i = 0; i < m.c.size(); i++)
            p.getConstantHandler().setDataAt(typeid(Data::Constant), i,
                                             Data::Constant{m.c[i]});
        if (identify)
            p.identifyIntrons();
    }

    // ------------------------------------------------------------ building
    template <class T> void addArray(World& w, char e, size_t n)
    {
        auto* a = new Data::PrimitiveTypeArray<T>(n);
        w.data.emplace_back(a);
        w.src.push_back({e, 0, n, std::vector<double>(n)});
        w.write.push_back([a](size_t i, double v) {
            a->setDataAt(typeid(T), i, (T)v);
        });
    }
    template <class T> void addArray2D(World& w, char e, size_t W, size_t H)
    {
        auto* a = new Data::PrimitiveTypeArray2D<T>(W, H);
        w.data.emplace_back(a);
        w.src.push_back({e, H, W, std::vector<double>(W * H)});
        w.write.push_back([a](size_t i, double v) {
            a->setDataAt(typeid(T), i, (T)v);
        });
    }
    template <class T> void addArrayWrapper(World& w, char e, size_t n)
    {
        auto v = std::make_shared<std::vector<T>>(n);
        auto* a = new Data::ArrayWrapper<T>(n, v.get());
        w.keep.push_back(v);
        w.data.emplace_back(a);
        w.src.push_back({e, 0, n, std::vector<double>(n)});
        w.write.push_back([a, v](size_t i, double x) {
            v->at(i) = (T)x;
            a->invalidateCachedHash();
        });
    }
    template <class T> void addArray2DWrapper(World& w, char e, size_t W, size_t H)
    {
        auto v = std::make_shared<std::vector<T>>(W * H);
        auto* a = new Data::Array2DWrapper<T>(W, H, v.get());
        w.keep.push_back(v);
        w.data.emplace_back(a);
        w.src.push_back({e, H, W, std::vector<double>(W * H)});
        w.write.push_back([a, v](size_t i, double x) {
            v->at(i) = (T)x;
            a->invalidateCachedHash();
        });
    }
    template <class T> void addPointer(World& w, char e)
    {
        auto v = std::make_shared<T>();
        auto* a = new Data::PointerWrapper<T>(v.get());
        w.keep.push_back(v);
        w.data.emplace_back(a);
        w.src.push_back({e, 0, 1, std::vector<double>(1)});
        w.write.push_back([v](size_t, double x) { *v = (T)x; });
    }
    using Instructions::AddPrimitiveType;
    using Instructions::LambdaInstruction;
    using Instructions::MultByConstant;
    inline void iAdd(World& w)
    {
        w.iset.add<AddPrimitiveType<double>>("$0 = $1 + $2;");
        w.instr.push_back({"add", {{'d', 0, 0}, {'d', 0, 0}}, [](const Args& a) {
                               return a[0][0] + a[1][0];
                           }});
    }
    inline void iSub2(World& w)
    {
        w.iset.add<LambdaInstruction<double, double>>(
            [](double a, double b) { return a - 2.0 * b; }, "$0 = $1 - 2.0 * $2;");
        w.instr.push_back({"sub2", {{'d', 0, 0}, {'d', 0, 0}}, [](const Args& a) {
                               return a[0][0] - 2.0 * a[1][0];
                           }});
    }
    inline void iHalf(World& w)
    {
        w.iset.add<LambdaInstruction<double>>(
            [](double a) { return a / 2 + 1; }, "$0 = $1 / 2 + 1;");
        w.instr.push_back({"half", {{'d', 0, 0}}, [](const Args& a) {
                               return a[0][0] / 2 + 1;
                           }});
    }
    inline void iInt(World& w)
    {
        w.iset.add<LambdaInstruction<int>>([](int a) { return a * 3.0; }, "$0 = $1 * 3.0;");
        w.instr.push_back({"int", {{'i', 0, 0}}, [](const Args& a) {
                               return a[0][0] * 3.0;
                           }});
    }
    inline void iMult(World& w)
    {
        w.iset.add<MultByConstant<double>>();
        w.instr.push_back({"mult", {{'d', 0, 0}, {'c', 0, 0}}, [](const Args& a) {
                               return a[0][0] * a[1][0];
                           }});
    }
    inline void iConst2(World& w)
    {
        w.iset.add<LambdaInstruction<const Data::Constant[2]>>(
            [](const Data::Constant a[2]) {
                return (double)a[0] * 2 - (double)a[1];
            },
            "$0 = $1[0] * 2.0 - $1[1];");
        w.instr.push_back({"const2", {{'c', 0, 2}}, [](const Args& a) {
                               return a[0][0] * 2 - a[0][1];
                           }});
    }
    inline void iConstD(World& w)
    {
        w.iset.add<LambdaInstruction<Data::Constant, double>>(
            [](Data::Constant a, double b) { return (double)a + b; },
            "$0 = $1 + $2;");
        w.instr.push_back({"constd", {{'c', 0, 0}, {'d', 0, 0}},
                           [](const Args& a) { return a[0][0] + a[1][0]; }});
    }
    inline void iArr2(World& w)
    {
        w.iset.add<LambdaInstruction<const double[2]>>(
            [](const double a[2]) { return a[0] * 2 - a[1]; },
            "$0 = $1[0] * 2 - $1[1];");
        w.instr.push_back({"arr2", {{'d', 0, 2}}, [](const Args& a) {
                               return a[0][0] * 2 - a[0][1];
                           }});
    }
    inline void iArr2D(World& w)
    {
        w.iset.add<LambdaInstruction<const double[2], double>>(
            [](const double a[2], double b) { return a[0] * 2 - a[1] + b; },
            "$0 = $1[0] * 2 - $1[1] + $2;");
        w.instr.push_back({"arr2d", {{'d', 0, 2}, {'d', 0, 0}}, [](const Args& a) {
                               return a[0][0] * 2 - a[0][1] + a[1][0];
                           }});
    }
    inline void iMat(World& w)
    {
        w.iset.add<LambdaInstruction<const double[2][2]>>(
            [](const double a[2][2]) {
                return a[0][0] + 10 * a[0][1] + 100 * a[1][0] + 1000 * a[1][1];
            },
            "$0 = $1[0][0] + 10 * $1[0][1] + 100 * $1[1][0] + 1000 * $1[1][1];");
        w.instr.push_back({"mat", {{'d', 2, 2}}, [](const Args& a) {
                               return a[0][0] + 10 * a[0][1] + 100 * a[0][2] +
                                      1000 * a[0][3];
                           }});
    }
    inline void iInt3(World& w)
    {
        w.iset.add<LambdaInstruction<const int[3]>>(
            [](const int a[3]) { return a[0] * 4.0 + a[1] * 2.0 + a[2]; },
            "$0 = $1[0] * 4.0 + $1[1] * 2.0 + $1[2];");
        w.instr.push_back({"int3", {{'i', 0, 3}}, [](const Args& a) {
                               return a[0][0] * 4.0 + a[0][1] * 2.0 + a[0][2];
                           }});
    }
    inline void iMix(World& w)
    {
        w.iset.add<LambdaInstruction<int, double, const float[2]>>(
            [](int a, double b, const float c[2]) {
                return a - 2.0 * b + 5.0 * c[0] - 3.0 * c[1];
            },
            "$0 = $1 - 2.0 * $2 + 5.0 * $3[0] - 3.0 * $3[1];");
        w.instr.push_back({"mix", {{'i', 0, 0}, {'d', 0, 0}, {'f', 0, 2}},
                           [](const Args& a) {
                               return a[0][0] - 2.0 * a[1][0] + 5.0 * a[2][0] -
                                      3.0 * a[2][1];
                           }});
    }
    inline void iWords(World& w)
    {
        w.iset.add<LambdaInstruction<unsigned char, int64_t>>(
            [](unsigned char a, int64_t b) { return a * 2.0 - (double)b; },
            "$0 = $1 * 2.0 - $2;");
        w.instr.push_back({"words", {{'u', 0, 0}, {'l', 0, 0}},
                           [](const Args& a) { return a[0][0] * 2.0 - a[1][0]; }});
        w.iset.add<LambdaInstruction<const unsigned char[2], const int64_t[2][1]>>(
            [](const unsigned char a[2], const int64_t b[2][1]) {
                return a[0] + 10.0 * a[1] + 7.0 * (double)b[0][0] -
                       5.0 * (double)b[1][0];
            },
            "$0 = $1[0] + 10.0 * $1[1] + 7.0 * $2[0][0] - 5.0 * $2[1][0];");
        w.instr.push_back({"words2", {{'u', 0, 2}, {'l', 2, 1}},
                           [](const Args& a) {
                               return a[0][0] + 10.0 * a[0][1] +
                                      7.0 * a[1][0] - 5.0 * a[1][1];
                           }});
        w.iset.add<AddPrimitiveType<unsigned short>>("$0 = $1 + $2;");
        w.instr.push_back({"shorts", {{'s', 0, 0}, {'s', 0, 0}},
                           [](const Args& a) { return a[0][0] + a[1][0]; }});
    }
    inline void iThrow(World& w)
    {
        w.iset.add<LambdaInstruction<double>>([](double a) -> double {
            throw std::out_of_range("instruction");
        });
        w.instr.push_back({"throw", {{'d', 0, 0}}, [](const Args&) -> double {
                               throw Skip();
                           }});
    }
    inline void iFive(World& w)
    {
        w.iset.add<LambdaInstruction<double, double, double, double, double>>(
            [](double a, double b, double c, double d, double e) {
                return a / 4 - b / 2 + c / 8 - 3 * d + e;
            },
            "$0 = $1 / 4 - $2 / 2 + $3 / 8 - 3 * $4 + $5;");
        MInstr i{"five", {}, [](const Args& a) {
                     return a[0][0] / 4 - a[1][0] / 2 + a[2][0] / 8 -
                            3 * a[3][0] + a[4][0];
                 }};
        i.ops.assign(5, {'d', 0, 0});
        w.instr.push_back(i);
    }
    inline void iFold(World& w)
    {
        w.iset.add<LambdaInstruction<double>>(
            [](double a) { return a - 64.0 * (double)(int64_t)(a / 64.0) + 0.25; },
            "$0 = $1 - 64.0 * (double)(int64_t)($1 / 64.0) + 0.25;");
        w.instr.push_back({"fold", {{'d', 0, 0}}, [](const Args& a) {
                               return a[0][0] - 64.0 * (double)(int64_t)(a[0][0] / 64.0) + 0.25;
                           }});
    }
    inline void iArr12(World& w)
    {
        w.iset.add<LambdaInstruction<const double[12], double>>(
            [](const double a[12], double b) {
                double r = b;
                for (int i = 0; i < 12; i++)
                    r += a[i] * (i - 5) / 8;
                return r;
            },
            "$0 = $2; for (int i = 0; i < 12; i++) $0 += $1[i] * (i - 5) / 8;");
        w.instr.push_back({"arr12", {{'d', 0, 12}, {'d', 0, 0}},
                           [](const Args& a) {
                               double r = a[1][0];
                               for (int i = 0; i < 12; i++)
                                   r += a[0][i] * (i - 5) / 8;
                               return r;
                           }});
    }
    inline World* makeWorld(const std::string& n)
    {
        World* w = new World;
        w->name = n;
        const double nan = NAN, inf = INFINITY;
        if (n == "double") {
            iAdd(*w), iSub2(*w), iHalf(*w);
            addArray<double>(*w, 'd', 3);
            w->contents = {{{1.25, -7, 31}}, {{-0.0, 1e300, nan}}, {{inf, -3, 0.1}}};
            w->finish(2, 0);
        }
        else if (n == "small") {
            iSub2(*w), iHalf(*w);
            addArray<double>(*w, 'd', 1);
            w->contents = {{{1.25}}, {{-7.0}}};
            w->finish(3, 0);
        }
        else if (n == "typed") {
            iInt(*w), iMult(*w), iConst2(*w), iConstD(*w);
            addArray<int>(*w, 'i', 2);
            addArray<double>(*w, 'd', 1);
            w->contents = {{{17, -3}, {0.5}}, {{0, 40}, {-3}}};
            w->finish(2, 3);
        }
        else if (n == "arrays") {
            iArr2D(*w), iMat(*w), iInt3(*w), iArr2(*w);
            addArray2D<double>(*w, 'd', 3, 2);
            addArray<int>(*w, 'i', 4);
            w->contents = {{{1, 3, 7, 19, 41, 97}, {2, 5, 13, 29}},
                           {{-5, 0.5, 3, 2, 77, 8}, {-1, 9, 30, 4}}};
            w->finish(3, 0);
        }
        else if (n == "wrappers") {
            iMix(*w), iArr2(*w);
            addPointer<int>(*w, 'i');
            addArrayWrapper<double>(*w, 'd', 3);
            addArray2DWrapper<float>(*w, 'f', 3, 3);
            w->contents = {{{11}, {1.5, 2.25, 0.125}, {1, 2, 4, 8, 16, 32, 64, 128, 256}},
                           {{-2}, {3, 7, -1}, {9, 5, 3, 1, 0, -1, -7, 2, 6}}};
            w->finish(2, 0);
        }
        else if (n == "constants") {
            iMult(*w), iConst2(*w);
            addArray<double>(*w, 'd', 1);
            w->contents = {{{1.5}}, {{-3}}};
            w->finish(2, 3);
        }
        else if (n == "words") {
            iWords(*w), iSub2(*w);
            addArray<unsigned char>(*w, 'u', 3);
            addArray2D<int64_t>(*w, 'l', 2, 2);
            addArrayWrapper<unsigned short>(*w, 's', 2);
            w->contents = {{{200, 3, 71}, {5, -9, 1000003, 40}, {65000, 7}},
                           {{0, 255, 1}, {-1, 0, 70000000000.0, 2}, {1, 40000}}};
            w->finish(2, 0);
        }
        else if (n == "large") {
            iAdd(*w), iFold(*w), iSub2(*w), iInt(*w), iArr12(*w), iFold(*w),
                iConstD(*w), iFive(*w), iFold(*w), iInt3(*w), iConst2(*w),
                iMult(*w), iArr2(*w);
            addArray<double>(*w, 'd', 25);
            addArray<int>(*w, 'i', 13);
            addArrayWrapper<double>(*w, 'd', 130);
            addArray<double>(*w, 'd', 2);
            for (int k = 0; k < 2; k++) {
                std::vector<std::vector<double>> c;
                for (auto& x : w->src) {
                    c.emplace_back();
                    for (size_t i = 0; i < x.size(); i++)
                        c.back().push_back((double)((i * 29 + 7 * c.size() + 13 * k) % 53) - 20);
                }
                w->contents.push_back(c);
            }
            w->finish(70, 12);
        }
        else if (n == "throwing") {
            iSub2(*w), iThrow(*w), iHalf(*w);
            addArray<double>(*w, 'd', 2);
            w->contents = {{{1.5, -3}}};
            w->finish(2, 0);
        }
        else
            abort();
        w->load(0);
        return w;
    }
    // Long programs of a world which follow a pattern: each line reads the
    // register written by the last line which read a register, then the one
    // written by the last line which did not, then others; some operands read
    // the other sources in turn.
    // kind 0: registers in a scattered order; 1: one line in four is lost;
    // 2: few registers; 3: all registers, from the last one.
    inline bool patternOperands(const World& w, L& l, int i, uint64_t acc, uint64_t side)
    {
        auto& ins = w.instr[l.i];
        l.o.assign(w.nbOps, {0, 0});
        int scalars = 0;
        bool reads = false;
        for (size_t j = 0; j < ins.ops.size(); j++) {
            auto& t = ins.ops[j];
            std::vector<uint64_t> from;
            for (uint64_t s = 1; s < w.nbSources(); s++)
                if (w.source(s).space(t))
                    from.push_back(s);
            size_t n = w.source(0).space(t);
            if (n && t.w) {
                l.o[j] = {0, acc % n};
                reads = true;
            }
            else if (n && (scalars < 2 || from.empty() || (i + j) % 2)) {
                l.o[j] = {0, scalars == 0 ? acc : scalars == 1 ? side : (acc + 11 * j) % w.regs};
                scalars++;
                reads = true;
            }
            else {
                uint64_t s = from[(i * 5 + j) % from.size()];
                l.o[j] = {s, (i * 7 + j * 11) % w.source(s).space(t)};
            }
        }
        return reads;
    }
    inline Prog pattern(const World& w, int kind, int n)
    {
        Prog p;
        uint64_t acc = 0, side = 1 % w.regs;
        for (int i = 0; i < n; i++) {
            L l;
            l.i = (i * 3 + kind) % w.instr.size();
            // the last line reads registers
            while (i == n - 1 && !patternOperands(w, l, i, acc, side))
                l.i = (l.i + 1) % w.instr.size();
            bool reads = patternOperands(w, l, i, acc, side);
            l.d = kind == 2 ? i % 3 : kind == 3 ? w.regs - 1 - i % w.regs
                                            : (i * 37 + 1) % w.regs;
            if (i == n - 1)
                l.d = 0;
            p.l.push_back(l);
            if (kind == 1 && i % 4 == 1)
                continue;
            (reads ? acc : side) = l.d;
        }
        for (size_t i = 0; i < w.consts; i++)
            p.c.push_back((int)(i * 5) % 17 - 6 ? (int)(i * 5) % 17 - 6 : 3);
        return p;
    }
    const int NALTER = 8;
    // one change of line i; returns false when there is no such change
    inline bool alter(const World& w, Prog& p, size_t i, int what)
    {
        L& l = p.l[i];
        size_t no = w.instr[l.i].ops.size();
        uint64_t prev = i ? p.l[i - 1].d : 0;
        switch (what) {
        case 1:
            l.d = (l.d + 1) % w.regs;
            return true;
        case 2:
            if (l.d == 0)
                return false;
            l.d = 0;
            return true;
        case 3: // another source for the first operand
        case 4: // another address for the last one
            if (what == 4) {
                auto& o = l.o[no - 1];
                size_t n = w.source(o.first).space(w.instr[l.i].ops[no - 1]);
                if (n < 2)
                    return false;
                o.second = (o.second % n + 1) % n;
                return true;
            }
            for (uint64_t k = 1; k < w.nbSources(); k++) {
                uint64_t s = (l.o[0].first + k) % w.nbSources();
                if (size_t n = w.source(s).space(w.instr[l.i].ops[0])) {
                    l.o[0] = {s, (i + 1) % n};
                    return true;
                }
            }
            return false;
        case 5: // another instruction
            l.i = (l.i + 1) % w.instr.size();
            patternOperands(w, l, (int)i, prev, i > 1 ? p.l[i - 2].d : 0);
            return true;
        case 6:
            p.l.erase(p.l.begin() + i);
            return true;
        case 7:
            p.l.insert(p.l.begin() + i, l);
            return true;
        case 8: // another address for the first operand
            {
                auto& o = l.o[0];
                size_t n = w.source(o.first).space(w.instr[l.i].ops[0]);
                if (n < 2)
                    return false;
                o.second = (o.second % n + n - 1) % n;
                return true;
            }
        }
        return false;
    }
    // the pattern with up to the allowed number of changes
    inline Prog pickLong(vp::Chooser& c, const World& w, int n)
    {
        int kind = c.pick(4);
        Prog p = pattern(w, kind, n);
        for (size_t i = 0; i < p.l.size(); i++) {
            int what = c.pickDev(NALTER + 1, 0);
            if (what) {
                if (!alter(w, p, i, what))
                    c.prune();
                vp::describe(vp::fmt("pattern %d of %d lines, change %d of line %zu; ",
                                     kind, n, what, i));
                if (what == 7)
                    i++;
            }
        }
        return p;
    }
    inline World& world(const std::string& n)
    {
        static std::map<std::string, std::unique_ptr<World>> m;
        auto& p = m[n];
        if (!p)
            p.reset(makeWorld(n));
        return *p;
    }
} // namespace wd
#endif
