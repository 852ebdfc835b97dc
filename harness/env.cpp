// C27 what an environment offers to programs
#include "learn.h"
#include "world.h"
using namespace ln;
using vp::Chooser;
using vp::fmt;
using wd::World;

namespace {
    void iFloat(World& w)
    {
        w.iset.add<Instructions::LambdaInstruction<float, double>>(
            [](float a, double b) { return a + b; });
        w.instr.push_back({"float", {{'f', 0, 0}, {'d', 0, 0}},
                           [](const wd::Args& a) { return a[0][0] + a[1][0]; }});
    }
    void iArr4(World& w)
    {
        w.iset.add<Instructions::LambdaInstruction<const double[4]>>(
            [](const double a[4]) { return a[0] - a[3]; });
        w.instr.push_back({"arr4", {{'d', 0, 4}},
                           [](const wd::Args& a) { return a[0][0] - a[0][3]; }});
    }
    const std::vector<std::pair<const char*, void (*)(World&)>>& instructions()
    {
        static const std::vector<std::pair<const char*, void (*)(World&)>> v{
            {"add", wd::iAdd},     {"int", wd::iInt},   {"float", iFloat},
            {"arr2", wd::iArr2},   {"arr4", iArr4},     {"mat", wd::iMat},
            {"mult", wd::iMult},   {"const2", wd::iConst2},
            {"int3", wd::iInt3},   {"mix", wd::iMix},   {"half", wd::iHalf}};
        return v;
    }
    const std::vector<std::pair<const char*, void (*)(World&)>>& sources()
    {
        static const std::vector<std::pair<const char*, void (*)(World&)>> v{
            {"d1", [](World& w) { wd::addArray<double>(w, 'd', 1); }},
            {"d5", [](World& w) { wd::addArray<double>(w, 'd', 5); }},
            {"i2", [](World& w) { wd::addArray<int>(w, 'i', 2); }},
            {"d3x2", [](World& w) { wd::addArray2D<double>(w, 'd', 3, 2); }},
            {"f2x1", [](World& w) { wd::addArray2D<float>(w, 'f', 2, 1); }},
            {"*i", [](World& w) { wd::addPointer<int>(w, 'i'); }},
            {"wi3", [](World& w) { wd::addArrayWrapper<int>(w, 'i', 3); }}};
        return v;
    }
    size_t bitsFor(size_t n)
    {
        size_t b = 0;
        while (((size_t)1 << b) < n)
            b++;
        return b;
    }
    struct Quiet
    {
        std::streambuf* old;
        std::ostringstream sink;
        Quiet() : old(std::cout.rdbuf(sink.rdbuf()))
        {
        }
        ~Quiet()
        {
            std::cout.rdbuf(old);
        }
    };
    // the instructions of w which can be used with its sources
    std::vector<size_t> usable(const World& w)
    {
        std::vector<size_t> r;
        for (size_t i = 0; i < w.instr.size(); i++) {
            bool all = true;
            for (auto& t : w.instr[i].ops) {
                bool some = false;
                for (size_t s = 0; s < w.nbSources(); s++)
                    some |= w.source(s).space(t) > 0;
                all &= some;
            }
            if (all)
                r.push_back(i);
        }
        return r;
    }
    size_t maxOps(const World& w, const std::vector<size_t>& in)
    {
        size_t m = 0;
        for (auto i : in)
            m = std::max(m, w.instr[i].ops.size());
        return m;
    }
    void compare(const World& w, const Environment& e, const char* what)
    {
        auto in = usable(w);
        VP_CHECK(e.getNbInstructions() == in.size() &&
                     e.getInstructionSet().getNbInstructions() == in.size(),
                 "instructions", "%s: %zu instructions instead of %zu", what,
                 e.getNbInstructions(), in.size());
        for (size_t i = 0; i < in.size(); i++)
            VP_CHECK(&e.getInstructionSet().getInstruction(i) ==
                         &w.iset.set.getInstruction(in[i]),
                     "instructions", "%s: instruction %zu is not %s", what, i,
                     w.instr[in[i]].name.c_str());
        size_t m = maxOps(w, in);
        VP_CHECK(e.getMaxNbOperands() == m &&
                     e.getInstructionSet().getMaxNbOperands() == m,
                 "dimensions", "%s: %zu operands at most instead of %zu", what,
                 e.getMaxNbOperands(), m);
        VP_CHECK(e.getNbRegisters() == w.regs && e.getNbConstant() == w.consts,
                 "dimensions", "%s: %zu registers and %zu constants", what,
                 e.getNbRegisters(), e.getNbConstant());
        VP_CHECK(e.getNbDataSources() == w.nbSources(), "dimensions",
                 "%s: %zu data sources instead of %zu", what,
                 e.getNbDataSources(), w.nbSources());
        VP_CHECK(e.getLargestAddressSpace() == w.largest(), "dimensions",
                 "%s: largest address space %zu instead of %zu", what,
                 e.getLargestAddressSpace(), w.largest());
        size_t bits = bitsFor(in.size()) + bitsFor(w.regs) +
                      m * (bitsFor(w.nbSources()) + bitsFor(w.largest()));
        VP_CHECK((size_t)e.getLineSize() == bits, "dimensions",
                 "%s: a line takes %zu bits instead of %zu", what,
                 (size_t)e.getLineSize(), bits);
        auto& d = e.getDataSources();
        VP_CHECK(d.size() == w.data.size(), "sources", "%s: %zu data", what,
                 d.size());
        for (size_t i = 0; i < d.size(); i++)
            VP_CHECK(&d[i].get() == w.data[i].get(), "sources",
                     "%s: data source %zu is another one", what, i);
        auto& f = e.getFakeDataSources();
        VP_CHECK(f.size() == w.nbSources(), "sources",
                 "%s: %zu sources with registers", what, f.size());
        for (size_t s = 0; s < f.size(); s++) {
            auto model = w.source(s);
            for (auto i : in)
                for (size_t k = 0; k < w.instr[i].ops.size(); k++) {
                    size_t want = model.space(w.instr[i].ops[k]);
                    size_t got = f[s].get().getAddressSpace(
                        w.iset.set.getInstruction(i).getOperandTypes()[k].get());
                    VP_CHECK(got == want, "sources",
                             "%s: source %zu offers %zu addresses instead of "
                             "%zu for operand %zu of %s",
                             what, s, got, want, k, w.instr[i].name.c_str());
                }
        }
    }
    // programs of the environment
    void use(const World& w, const Environment& e, const char* what)
    {
        auto in = usable(w);
        Mutator::RNG rng(7);
        Program::Program p(e);
        for (int i = 0; i < 3; i++)
            Mutator::LineMutator::initRandomCorrectLine(p.addNewLine(), rng);
        p.identifyIntrons();
        for (size_t i = 0; i < p.getNbLines(); i++) {
            auto& l = p.getLine(i);
            VP_CHECK(l.getInstructionIndex() < in.size() &&
                         l.getDestinationIndex() < w.regs,
                     "programs", "%s: an invalid line", what);
            auto& mi = w.instr[in[l.getInstructionIndex()]];
            for (size_t k = 0; k < mi.ops.size(); k++)
                VP_CHECK(l.getOperand(k).first < w.nbSources() &&
                             w.source(l.getOperand(k).first).space(mi.ops[k]),
                         "programs", "%s: an operand without data", what);
        }
        Program::ProgramExecutionEngine pee(p);
        pee.executeProgram();
        TPG::PolicyStats ps;
        ps.setEnvironment(e);
        ps.analyzeProgram(&p);
        vp::count("operations");
    }
    void configurations(const std::string& name, int nInstr, int nData,
                        std::vector<size_t> regs, std::vector<size_t> consts,
                        bool programs)
    {
        vp::bound(name,
                  fmt("every list of 1 to %d instructions among %zu, 0 to %d "
                      "data sources among %zu, %zu numbers of registers and "
                      "%zu of constants%s",
                      nInstr, instructions().size(), nData, sources().size(),
                      regs.size(), consts.size(),
                      programs ? "; copies of the environment used after the "
                                 "end of the original"
                               : ""));
        vp::explore(name, [=](Chooser& c) {
            World w;
            std::string t;
            int n = 1 + c.pick(nInstr);
            for (int i = 0; i < n; i++) {
                auto& x = instructions()[c.pick((int)instructions().size())];
                x.second(w);
                t += x.first + std::string(" ");
            }
            n = c.pick(nData + 1);
            for (int i = 0; i < n; i++) {
                auto& x = sources()[c.pick((int)sources().size())];
                x.second(w);
                t += x.first + std::string(" ");
            }
            w.regs = regs[c.pick((int)regs.size())];
            w.consts = consts[c.pick((int)consts.size())];
            t += fmt("regs %zu consts %zu", w.regs, w.consts);
            vp::describe(t);
            vp::count("operations");
            Quiet q;
            auto in = usable(w);
            bool valid = in.size() > 1 && w.nbSources() > 1 &&
                         maxOps(w, in) > 0 && w.regs > 0;
            std::unique_ptr<Environment> e;
            bool thrown = false;
            try {
                e.reset(new Environment(w.iset.set, w.refs(), w.regs, w.consts));
            }
            catch (std::domain_error&) {
                thrown = true;
            }
            VP_CHECK(thrown == !valid, "verdict",
                     "a %s environment is %s", valid ? "valid" : "invalid",
                     thrown ? "refused" : "accepted");
            vp::distinct("states", vp::digest(t));
            if (!valid)
                return;
            compare(w, *e, "environment");
            if (!programs)
                return;
            std::unique_ptr<Environment> a(new Environment(*e)),
                b(new Environment(*a));
            compare(w, *a, "copy");
            e.reset();
            compare(w, *a, "copy after the end of the original");
            use(w, *a, "copy after the end of the original");
            a.reset();
            compare(w, *b, "copy of a copy");
            use(w, *b, "copy of a copy");
            // a copy outlives a set
            vp::sample(t);
        });
    }
    // many instructions, sources, registers and constants: a list with few
    // changes
    void large(int dev)
    {
        vp::bound("large", fmt("3 environments of 9 to 15 instructions and 4 to 6 "
                               "data sources of up to 130 elements, with at "
                               "most %d of them changed, 5 numbers of registers "
                               "and 4 of constants up to 300, copies used "
                               "after the end of the original", dev));
        vp::ExploreOptions o;
        o.maxDev = dev;
        vp::explore("large", [=](Chooser& c) {
            World w;
            std::string t;
            int pat = c.pick(3);
            auto& all = instructions();
            auto five = [](World& x) { wd::iFive(x); };
            int n = 9 + 3 * pat;
            for (int i = 0; i < n; i++) {
                int d = (i * (pat + 3) + pat) % (int)all.size();
                int k = i % 4 == 0 || vp::opt.thorough()
                            ? c.pickDev((int)all.size() + 1, d)
                            : d;
                if (k == (int)all.size())
                    five(w);
                else
                    all[k].second(w);
                t += k == (int)all.size() ? "five " : all[k].first + std::string(" ");
            }
            if (pat)
                five(w);
            auto& so = sources();
            int m = 4 + pat;
            for (int i = 0; i < m; i++) {
                int d = (i * 3 + pat) % (int)so.size();
                int k = c.pickDev((int)so.size() + 3, i == 2 ? (int)so.size() + pat : d);
                if (k < (int)so.size())
                    so[k].second(w);
                else if (k == (int)so.size())
                    wd::addArray<double>(w, 'd', 130);
                else if (k == (int)so.size() + 1)
                    wd::addArray2D<double>(w, 'd', 9, 14);
                else
                    wd::addArrayWrapper<int>(w, 'i', 65);
                t += fmt("s%d ", k);
            }
            const size_t R[] = {8, 70, 64, 255, 2}, C[] = {0, 12, 33, 300};
            w.regs = R[c.pickDev(5, pat)];
            w.consts = C[c.pickDev(4, 3 - pat)];
            t += fmt("regs %zu consts %zu", w.regs, w.consts);
            vp::describe(t);
            vp::count("operations");
            Quiet q;
            std::unique_ptr<Environment> e(
                new Environment(w.iset.set, w.refs(), w.regs, w.consts));
            std::unique_ptr<Environment> a(new Environment(*e));
            e.reset();
            compare(w, *a, "copy after the end of the original");
            use(w, *a, "copy after the end of the original");
            vp::distinct("states", vp::digest(t));
            vp::sample(t);
        }, o);
    }
    // environments of the agents
    void agents()
    {
        vp::bound("agents", "the environment of an agent for 5 numbers of "
                            "registers and 3 of constants, two learning "
                            "environments, instructions with constants");
        vp::explore("agents", [](Chooser& c) {
            Quiet q;
            auto p = params(2, 0.5);
            p.nbRegisters = 1 + c.pick(5);
            p.nbProgramConstant = c.pick(3);
            gg::ISet is;
            is.add<Instructions::AddPrimitiveType<double>>();
            is.add<Instructions::MultByConstant<double>>();
            is.add<Instructions::LambdaInstruction<double>>(
                [](double a) { return -a; });
            gg::Game g(2, c.pick(2));
            Learn::LearningAgent la(g, is.set, p);
            auto& e = la.getEnvironment();
            vp::count("operations");
            VP_CHECK(&la.getTPGGraph()->getEnvironment() == &e, "agent",
                     "the graph uses another environment");
            VP_CHECK(e.getNbRegisters() == p.nbRegisters &&
                         e.getNbConstant() == p.nbProgramConstant,
                     "agent", "wrong numbers of registers or constants");
            VP_CHECK(e.getNbInstructions() == (p.nbProgramConstant ? 3 : 2),
                     "agent", "wrong instructions");
            auto want = g.getDataSources();
            auto& d = e.getDataSources();
            VP_CHECK(want.size() == d.size(), "agent", "wrong data sources");
            for (size_t i = 0; i < d.size(); i++)
                VP_CHECK(&want[i].get() == &d[i].get(), "agent",
                         "wrong data sources");
            vp::distinct("states", vp::mix(p.nbRegisters * 8 + d.size(),
                                           p.nbProgramConstant));
        });
    }
} // namespace

void vp_main()
{
    bool T = vp::opt.thorough();
    if (T) {
        configurations("configurations", 3, 1, {0, 1, 2, 3, 5}, {0, 1, 2}, false);
        configurations("sources", 2, 3, {1, 4}, {0, 3}, false);
        configurations("copies", 2, 2, {1, 4}, {0, 2}, true);
    }
    else {
        configurations("configurations", 2, 1, {0, 1, 2, 5}, {0, 1, 2}, false);
        configurations("sources", 2, 2, {2}, {0, 3}, false);
        configurations("copies", 2, 1, {1, 4}, {0, 2}, true);
    }
    large(T ? 2 : 1);
    agents();
}
