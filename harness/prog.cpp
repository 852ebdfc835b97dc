// C09: introns; C10: execution of programs; C11: identical behaviour.
#include "world.h"
using namespace wd;
using vp::Chooser;
using vp::fmt;

namespace {
    const char* WORLDS[] = {"double", "small", "typed", "arrays", "wrappers", "words",
                            "constants"};
    std::vector<std::vector<int>> constantVectors(size_t n)
    {
        if (!n)
            return {{}};
        if (n == 2)
            return {{3, -2}, {0, 5}};
        return {{3, -2, 7}, {0, 5, -1}};
    }
    struct Cached
    {
        std::vector<L> raw, plain, regs;
    };
    const Cached& linesOf(World& w)
    {
        static std::map<World*, Cached> m;
        auto& c = m[&w];
        if (c.raw.empty())
            c = {w.lines(true), w.lines(false), w.lines(false, true)};
        return c;
    }
    std::string at(World& w, const Prog& p, size_t content)
    {
        return text(p) + fmt(" in world %s with data %zu", w.name.c_str(),
                             content);
    }
    void outcome(World& w, double r)
    {
        vp::distinct("outcomes",
                     vp::mix(vp::digest(gg::bits(r)), vp::digest(w.name)));
    }
    double execute(const P& p)
    {
        Program::ProgramExecutionEngine e(p);
        return e.executeProgram();
    }
    void expect(double got, double want, const char* key,
                const std::string& ctx)
    {
        vp::count("lines_run");
        if (gg::bits(got) != gg::bits(want))
            vp::fail(key, fmt("%s instead of %s for ", gg::num(got).c_str(),
                              gg::num(want).c_str()) +
                              ctx);
    }

    // the programs of n lines explored in a world
    Prog pickProgram(Chooser& c, World& w, int n, bool raw, bool lean)
    {
        auto& l = linesOf(w);
        Prog p;
        for (int i = 0; i < n; i++) {
            auto& from = i + 1 < n && lean ? l.regs
                         : raw && i + 1 == n ? l.raw
                                           : l.plain;
            p.l.push_back(from[c.pick((int)from.size())]);
        }
        return p;
    }
    struct Space
    {
        std::string world;
        int n;
        bool raw, lean;
        const char* text;
    };
    std::vector<Space> spaces()
    {
        bool T = vp::opt.thorough();
        std::vector<Space> r;
        for (auto w : WORLDS)
            r.push_back({w, 1, true, false, "every raw location"});
        // earlier lines read registers, the last one has every raw location
        for (auto w : WORLDS)
            r.push_back({w, 2, true, true, ""});
        r.push_back({"double", 2, false, false, ""});
        r.push_back({"small", 2, false, false, ""});
        r.push_back({"typed", 2, false, false, ""});
        r.push_back({"constants", 2, false, false, ""});
        r.push_back({"wrappers", 2, false, !T, ""});
        r.push_back({"arrays", 2, false, false, ""});
        r.push_back({"small", 3, false, false, ""});
        r.push_back({"constants", 3, false, false, ""});
        r.push_back({"double", 3, false, true, ""});
        r.push_back({"typed", 3, false, true, ""});
        if (T) {
            r.push_back({"double", 3, false, false, ""});
            r.push_back({"typed", 3, false, false, ""});
            r.push_back({"arrays", 3, false, true, ""});
            r.push_back({"small", 4, false, false, ""});
            r.push_back({"constants", 4, false, false, ""});
        }
        return r;
    }

    // ================================================================ C10
    void programs10()
    {
        for (auto& s : spaces()) {
            World& w = world(s.world);
            auto cv = constantVectors(w.consts);
            linesOf(w);
            vp::explore(
                fmt("execution-%s-%d%s", s.world.c_str(), s.n,
                    s.raw ? "-raw" : ""),
                [&](Chooser& c) {
                    Prog p = pickProgram(c, w, s.n, s.raw, s.lean);
                    // the engine is used for all constants and data in turn
                    p.c = cv[0];
                    P prog(*w.env);
                    fill(prog, p);
                    Program::ProgramExecutionEngine e(prog);
                    for (auto& k : cv) {
                        p.c = k;
                        for (size_t i = 0; i < k.size(); i++)
                            prog.getConstantHandler().setDataAt(
                                typeid(Data::Constant), i,
                                Data::Constant{k[i]});
                        for (size_t d = 0; d < w.contents.size(); d++) {
                            w.load(d);
                            double want = w.run(p);
                            double got = e.executeProgram();
                            expect(got, want, "execution", at(w, p, d));
                            vp::count("executions");
                            outcome(w, got);
                        }
                    }
                },
                {.splitDepth = 1});
            vp::bound(fmt("programs of %d line(s), %s", s.n, s.world.c_str()),
                      fmt("%s; %s", s.lean ? "all last lines; earlier lines reading registers (other "
                                             "sources at their first address)"
                                           : "all lines",
                          s.raw ? "all raw locations in the last line" : "one raw location per address"));
        }
    }
    // long programs in a large environment
    void long10()
    {
        World& w = world("large");
        for (int n : {12, 67, 140}) {
            vp::explore(
                fmt("long-%d", n),
                [&](Chooser& c) {
                    Prog p = pickLong(c, w, n);
                    P prog(*w.env);
                    fill(prog, p, false);
                    Program::ProgramExecutionEngine e(prog);
                    for (size_t d = 0; d < w.contents.size(); d++) {
                        w.load(d);
                        double want = w.run(p);
                        double got = e.executeProgram();
                        expect(got, want, "execution", "the long program");
                        vp::count("executions");
                        outcome(w, got);
                        // a copy of the program, with another engine
                        P copy(prog);
                        expect(execute(copy), want, "execution", "a copy of the long program");
                        vp::count("executions");
                    }
                },
                {.maxDev = vp::opt.thorough() && n < 20 ? 2 : 1, .splitDepth = 2});
        }
        vp::bound("long programs", "4 patterns of 12, 67 and 140 lines with 70 registers, 12 constants and 13 instructions of 1-5 operands; one of 8 changes of one line (thorough, 12 lines: two)");
    }
    // exceptions raised by instructions
    void throwing10()
    {
        World& w = world("throwing");
        int n = vp::opt.thorough() ? 4 : 3;
        vp::explore(
            "exceptions",
            [&](Chooser& c) {
                Prog p;
                auto& l = linesOf(w);
                int len = 1 + c.pick(n);
                for (int i = 0; i < len; i++) {
                    auto& from = len >= 3 ? l.regs : l.plain;
                    p.l.push_back(from[c.pick((int)from.size())]);
                }
                P prog(*w.env);
                fill(prog, p);
                auto in = w.introns(p);
                bool throws = false;
                for (size_t i = 0; i < p.l.size(); i++)
                    throws = throws ||
                             (!in[i] && w.instr[p.l[i].i].name == "throw");
                Program::ProgramExecutionEngine e(prog);
                double want = w.run(p, &in);
                expect(e.executeProgram(true), want, "exception-ignored",
                       at(w, p, 0));
                bool thrown = false;
                double r = 0;
                try {
                    r = e.executeProgram(false);
                }
                catch (std::out_of_range&) {
                    thrown = true;
                }
                if (thrown != throws)
                    vp::fail("exception",
                             fmt("%s for ", thrown ? "unexpected exception"
                                                   : "exception lost") +
                                 at(w, p, 0));
                if (!thrown)
                    expect(r, want, "execution", at(w, p, 0));
                // the engine is still usable
                expect(e.executeProgram(true), want,
                       "execution-after-exception", at(w, p, 0));
                outcome(w, want);
                vp::count("executions", 3);
            },
            {.splitDepth = 2});
        vp::bound("exceptions", fmt("programs of up to %d lines with an instruction "
                                    "which throws std::out_of_range", n));
    }
    // histories of one engine
    void histories10(const char* name)
    {
        World& w = world(name);
        auto& l = linesOf(w);
        auto cv = constantVectors(w.consts);
        int depth = vp::opt.thorough() ? 6 : 5;
        std::vector<Prog> ps;
        for (int k = 0; k < 3; k++) {
            Prog p;
            for (int i = 0; i <= k; i++)
                p.l.push_back(
                    l.plain[vp::mix(17 + k, i * 3 + 1) % l.plain.size()]);
            // something which reads the first data source
            for (size_t q = 0; q < l.plain.size(); q++) {
                auto& x = l.plain[(q * 7 + k) % l.plain.size()];
                if (x.d == 0 && x.o[0].first >= w.offset() &&
                    x.o[0].second == (uint64_t)k % w.source(x.o[0].first)
                                                       .size()) {
                    p.l.push_back(x);
                    break;
                }
            }
            p.c = cv[k % cv.size()];
            ps.push_back(p);
        }
        vp::explore(
            fmt("engine-histories-%s", name),
            [&](Chooser& c) {
                w.load(0);
                std::vector<std::unique_ptr<P>> prog;
                std::vector<Prog> m = ps;
                for (auto& p : m) {
                    prog.emplace_back(new P(*w.env));
                    fill(*prog.back(), p);
                }
                // copies of the data, with their own content
                std::vector<std::unique_ptr<Data::DataHandler>> copy;
                std::vector<MSource> copySrc;
                w.load(1);
                for (auto& d : w.data)
                    copy.emplace_back(d->clone());
                copySrc = w.src;
                w.load(0);
                std::vector<std::reference_wrapper<const Data::DataHandler>>
                    cref;
                for (auto& d : copy)
                    cref.push_back(*d);
                size_t cur = 0;
                bool onCopy = false;
                auto e = std::make_unique<Program::ProgramExecutionEngine>(
                    *prog[0]);
                int kind = c.pick(3);
                if (kind == 1) {
                    e.reset(new Program::ProgramExecutionEngine(*w.env));
                    e->setProgram(*prog[0]);
                }
                else if (kind == 2) {
                    e.reset(new Program::ProgramExecutionEngine(*prog[0], cref));
                    onCopy = true;
                }
                vp::describe(fmt("engine built %s; ", kind == 0 ? "with program 0" : kind == 1 ? "with the environment" : "with program 0 on copied data"));
                for (int s = 0; s < depth; s++) {
                    int op = c.pick(7);
                    if (op < 3) {
                        vp::describe(fmt("setProgram %d; ", op));
                        e->setProgram(*prog[op]);
                        cur = op;
                    }
                    else if (op == 3) {
                        vp::describe("setDataSources copy; ");
                        e->setDataSources(cref);
                        onCopy = true;
                    }
                    else if (op == 4) {
                        vp::describe("setDataSources original; ");
                        e->setDataSources(w.refs());
                        onCopy = false;
                    }
                    else if (op == 5) {
                        vp::describe("change the data; ");
                        w.load(1);
                    }
                    else if (op == 6) {
                        vp::describe("change the constants, add a line; ");
                        for (size_t i = 0; i < m[cur].c.size(); i++) {
                            m[cur].c[i] += 2;
                            prog[cur]->getConstantHandler().setDataAt(
                                typeid(Data::Constant), i,
                                Data::Constant{m[cur].c[i]});
                        }
                        m[cur].l.push_back(m[cur].l[0]);
                        setLine(prog[cur]->addNewLine(), m[cur].l[0]);
                        prog[cur]->identifyIntrons();
                    }
                    auto saved = w.src;
                    if (onCopy)
                        w.src = copySrc;
                    double want = w.run(m[cur]);
                    w.src = saved;
                    double got = e->executeProgram();
                    expect(got, want, "engine-history",
                           text(m[cur]) + " after: see history");
                    vp::count("executions");
                    outcome(w, got);
                }
            },
            {.splitDepth = 3});
        vp::bound(fmt("histories of an engine (%s)", name),
                  fmt("%d steps of 7 operations, 3 ways to build it", depth));
        // foreign data sources are refused
        vp::explore(fmt("foreign-sources-%s", name), [&](Chooser& c) {
            P prog(*w.env);
            fill(prog, ps[c.pick(3)]);
            size_t k = c.pick((int)w.data.size());
            int how = c.pick(3);
            std::vector<std::unique_ptr<Data::DataHandler>> own;
            auto refs = w.refs();
            own.emplace_back(new Data::PrimitiveTypeArray<double>(w.src[k].size()));
            if (how == 2)
                refs.pop_back();
            else
                refs[k] = *own[0];
            bool thrown = false;
            try {
                if (how == 0) {
                    Program::ProgramExecutionEngine e(prog);
                    e.setDataSources(refs);
                }
                else
                    Program::ProgramExecutionEngine e(prog, refs);
            }
            catch (std::runtime_error&) {
                thrown = true;
            }
            VP_CHECK(thrown, "foreign-sources",
                     "an engine accepts data sources which are not those of "
                     "the environment (source %zu)",
                     k);
        });
    }

    // an engine is not changed by programs and data sources which it refuses
    void refusals10(const char* name)
    {
        World& w = world(name);
        auto& l = linesOf(w);
        auto cv = constantVectors(w.consts);
        int depth = vp::opt.thorough() ? 5 : 4;
        // programs reading everything
        std::vector<Prog> ps(2);
        for (int k = 0; k < 2; k++) {
            for (size_t q = 0, n = 0; q < l.plain.size() && n < 6; q++) {
                auto& x = l.plain[(q * 7 + k * 3) % l.plain.size()];
                if (x.o[0].first >= 1 + n % (w.nbSources() - 1)) {
                    ps[k].l.push_back(x);
                    ps[k].l.back().d = n % w.regs;
                    n++;
                }
            }
            for (auto& x : l.plain)
                if (x.d == 0 && x.o[0].first >= w.offset() && x.o[0].second == (uint64_t)k % w.source(x.o[0].first).size()) {
                    ps[k].l.push_back(x);
                    break;
                }
            ps[k].c = cv[k % cv.size()];
        }
        // other environments
        std::vector<std::unique_ptr<Data::DataHandler>> fresh;
        std::vector<std::shared_ptr<void>> keep;
        for (auto& d : w.data) {
            // same type and content, another identity
            Data::DataHandler* h = nullptr;
            if (dynamic_cast<Data::PrimitiveTypeArray<double>*>(d.get()))
                h = new Data::PrimitiveTypeArray<double>(d->getAddressSpace(typeid(double)));
            else if (dynamic_cast<Data::PrimitiveTypeArray<int>*>(d.get()))
                h = new Data::PrimitiveTypeArray<int>(d->getAddressSpace(typeid(int)));
            else {
                h = new Data::PrimitiveTypeArray<double>(2);
            }
            fresh.emplace_back(h);
        }
        auto all = w.refs();
        std::vector<std::reference_wrapper<const Data::DataHandler>> other, fewer(all.begin() + 1, all.end()), last = all, more = all;
        for (auto& d : fresh)
            other.push_back(*d);
        last.back() = other.back();
        auto firstOnly = all;
        firstOnly.pop_back();
        more.push_back(*fresh[0]);
        struct F
        {
            const char* what;
            std::unique_ptr<Environment> env;
            std::unique_ptr<P> prog;
            bool accepted;
        };
        std::vector<F> fs;
        gg::ISet& is = w.iset;
        // an instruction which any environment can provide
        static gg::ISet any;
        if (any.owned.empty()) {
            any.add<Instructions::LambdaInstruction<double>>([](double a) { return a + 41; });
            any.add<Instructions::LambdaInstruction<double>>([](double a) { return a + 43; });
        }
        auto env = [&](const char* what, Instructions::Set& set, const std::vector<std::reference_wrapper<const Data::DataHandler>>& src, size_t regs, size_t consts, bool ok = false) {
            std::ostringstream sink;
            auto old = std::cout.rdbuf(sink.rdbuf());
            std::unique_ptr<Environment> e;
            try {
                e = std::make_unique<Environment>(set, src, regs, consts);
            }
            catch (std::domain_error&) {
                std::cout.rdbuf(old); // nothing to execute with these
                return;
            }
            std::cout.rdbuf(old);
            fs.push_back({what, std::move(e), nullptr, ok});
            auto& f = fs.back();
            f.prog = std::make_unique<P>(*f.env);
            auto& line = f.prog->addNewLine();
            line.setInstructionIndex(0);
            for (size_t i = 0; i < consts; i++)
                f.prog->getConstantHandler().setDataAt(typeid(Data::Constant), i, Data::Constant{(int32_t)(50 + 9 * i)});
        };
        env("other sources", any.set, other, w.regs, w.consts);
        env(w.consts ? "no constants" : "constants", any.set, all, w.regs, w.consts ? 0 : 2);
        env(w.consts ? "no constants, one more source" : "constants, one source less", any.set, w.consts ? more : fewer.empty() ? all : fewer, w.regs, w.consts ? 0 : 2);
        env("more registers", is.set, all, w.regs + 1, w.consts);
        if (w.regs > 1)
            env("fewer registers", is.set, all, w.regs - 1, w.consts);
        if (!firstOnly.empty())
            env("fewer sources", any.set, firstOnly, w.regs, w.consts);
        env("another last source", any.set, last, w.regs, w.consts);
        int nF = (int)fs.size();
        Environment same(*w.env);
        vp::explore(
            fmt("refusals-%s", name),
            [&](Chooser& c) {
                w.load(0);
                std::vector<std::unique_ptr<P>> prog;
                for (size_t i = 0; i < ps.size(); i++) {
                    // the second one belongs to a copy of the environment
                    prog.emplace_back(new P(i == 1 ? same : *w.env));
                    fill(*prog.back(), ps[i]);
                }
                std::vector<std::unique_ptr<Data::DataHandler>> copy;
                std::vector<MSource> copySrc;
                w.load(1);
                for (auto& d : w.data)
                    copy.emplace_back(d->clone());
                copySrc = w.src;
                w.load(0);
                std::vector<std::reference_wrapper<const Data::DataHandler>> cref;
                for (auto& d : copy)
                    cref.push_back(*d);
                int cur = 0;
                bool onCopy = false;
                auto e = std::make_unique<Program::ProgramExecutionEngine>(*prog[0]);
                if (c.pick(2)) {
                    e.reset(new Program::ProgramExecutionEngine(*w.env));
                    e->setProgram(*prog[0]);
                }
                auto refused = [&](const std::string& what, auto f) {
                    vp::describe(what + "; ");
                    bool thrown = false;
                    try {
                        f();
                    }
                    catch (std::exception&) {
                        thrown = true;
                    }
                    vp::count("refusals");
                    VP_CHECK(thrown, "foreign-sources", "an engine accepts %s", what.c_str());
                };
                for (int s = 0; s < depth; s++) {
                    int op = c.pick(4 + nF + 3);
                    if (op < 2) {
                        vp::describe(fmt("setProgram %d; ", op));
                        e->setProgram(*prog[op]);
                        cur = op;
                    }
                    else if (op < 4) {
                        onCopy = op == 2;
                        vp::describe(onCopy ? "setDataSources copy; " : "setDataSources original; ");
                        onCopy ? e->setDataSources(cref) : e->setDataSources(w.refs());
                    }
                    else if (op < 4 + nF)
                        refused(fmt("a program of an environment with %s", fs[op - 4].what), [&] { e->setProgram(*fs[op - 4].prog); });
                    else {
                        int k = op - 4 - nF;
                        auto base = onCopy ? w.refs() : cref;
                        if (k == 0)
                            base.push_back(*fresh[0]);
                        else if (k == 1)
                            base.back() = *fresh.back();
                        else
                            base = other;
                        refused(k == 0 ? "data sources with one more" : k == 1 ? "data sources with a foreign last one" : "foreign data sources",
                                [&] { e->setDataSources(base); });
                    }
                    auto saved = w.src;
                    if (onCopy)
                        w.src = copySrc;
                    double want = w.run(ps[cur]);
                    w.src = saved;
                    double got = e->executeProgram();
                    expect(got, want, "engine-after-refusal", text(ps[cur]) + " after: see history");
                    VP_CHECK(e->getDataSources().size() == w.data.size() && &e->getDataSources()[0].get() == (onCopy ? copy[0].get() : w.data[0].get()), "sources-after-refusal", "the data sources of the engine are not those accepted last");
                    vp::count("executions");
                    outcome(w, got);
                }
            },
            {.splitDepth = 3});
        vp::bound(fmt("refused programs and data (%s)", name), fmt("%d steps of 2 programs, 2 data sources, %d programs of other environments and 3 foreign lists of sources", depth, nF));
    }

    // ================================================================ C09
    void checkIntrons(World& w, P& prog, const Prog& p, const std::string& ctx)
    {
        auto in = w.introns(p);
        size_t n = 0;
        for (bool b : in)
            n += b;
        uint64_t got = prog.identifyIntrons();
        VP_CHECK(got == n, "intron-count", "%d introns counted instead of %zu in %s",
                 (int)got, n, (text(p) + ctx).c_str());
        for (size_t i = 0; i < p.l.size(); i++)
            VP_CHECK(prog.isIntron(i) == in[i], "intron-marking",
                     "line %zu is %s in %s", i,
                     in[i] ? "not marked" : "marked", (text(p) + ctx).c_str());
    }
    void checkProgram9(World& w, const Prog& p)
    {
        P all(*w.env), marked(*w.env);
        fill(all, p, false);
        fill(marked, p, false);
        checkIntrons(w, marked, p, "");
        P cleared(marked);
        cleared.clearIntrons();
        size_t k = 0;
        for (size_t i = 0; i < p.l.size(); i++)
            if (!marked.isIntron(i)) {
                VP_CHECK(k < cleared.getNbLines() &&
                             cleared.getLine(k) == marked.getLine(i) &&
                             !cleared.isIntron(k),
                         "clear-introns",
                         "line %zu is lost or moved by clearIntrons of %s",
                         i, text(p).c_str());
                k++;
            }
        VP_CHECK(k == cleared.getNbLines(), "clear-introns",
                 "clearIntrons leaves %d lines instead of %zu in %s",
                 (int)cleared.getNbLines(), k, text(p).c_str());
        for (size_t d = 0; d < w.contents.size(); d++) {
            w.load(d);
            double r = execute(all);
            expect(execute(marked), r, "intron-changes-result",
                   at(w, p, d));
            expect(execute(cleared), r, "clear-changes-result",
                   at(w, p, d));
            outcome(w, r);
            vp::count("executions", 3);
        }
    }
    void introns9()
    {
        for (auto& s : spaces()) {
            World& w = world(s.world);
            linesOf(w);
            auto cv = constantVectors(w.consts);
            vp::explore(
                fmt("introns-%s-%d%s", s.world.c_str(), s.n,
                    s.raw ? "-raw" : ""),
                [&](Chooser& c) {
                    Prog p = pickProgram(c, w, s.n, s.raw, s.lean);
                    p.c = cv[0];
                    checkProgram9(w, p);
                    vp::distinct("programs",
                                 vp::mix(vp::digest(text(p)), vp::digest(w.name)));
                },
                {.splitDepth = 1});
            vp::bound(fmt("programs of %d line(s), %s", s.n, s.world.c_str()),
                      fmt("%s; %s", s.lean ? "all last lines; earlier lines reading registers" : "all lines",
                          s.raw ? "all raw locations in the last line" : "one raw location per address"));
        }
    }
    // long programs in a large environment
    void long9()
    {
        World& w = world("large");
        for (int n : {12, 67, 140})
            vp::explore(
                fmt("long-%d", n),
                [&](Chooser& c) {
                    Prog p = pickLong(c, w, n);
                    checkProgram9(w, p);
                    vp::distinct("programs", vp::digest(text(p)));
                },
                {.maxDev = vp::opt.thorough() && n < 20 ? 2 : 1, .splitDepth = 2});
        vp::bound("long programs", "4 patterns of 12, 67 and 140 lines with 70 registers, 12 constants and 13 instructions of 1-5 operands; one of 8 changes of one line (thorough, 12 lines: two)");
    }
    // histories of edits of a program, compared with a list
    void edits9()
    {
        World& w = world("typed");
        auto& l = linesOf(w);
        std::vector<L> alphabet;
        for (size_t k = 0; k < 4; k++)
            for (size_t q = 0; q < l.regs.size(); q++) {
                auto& x = l.regs[(q + k * 5) % l.regs.size()];
                if (x.i == k && x.d == k % 2) {
                    alphabet.push_back(x);
                    break;
                }
            }
        int depth = vp::opt.thorough() ? 7 : 5;
        vp::explore(
            "edits",
            [&](Chooser& c) {
                P p(*w.env);
                std::unique_ptr<P> copy;
                Prog m, mcopy;
                std::vector<bool> mark, markCopy;
                m.c = {0, 0, 0};
                auto same = [&](const P& a, const Prog& b,
                                const std::vector<bool>& in, const char* what) {
                    VP_CHECK(a.getNbLines() == b.l.size(), "edit",
                             "%s: %d lines instead of %zu", what,
                             (int)a.getNbLines(), b.l.size());
                    for (size_t i = 0; i < b.l.size(); i++) {
                        L x{a.getLine(i).getInstructionIndex(),
                            a.getLine(i).getDestinationIndex(),
                            {}};
                        for (size_t k = 0; k < w.nbOps; k++)
                            x.o.push_back(a.getLine(i).getOperand(k));
                        VP_CHECK(x == b.l[i], "edit", "%s: line %zu is %s instead of %s",
                                 what, i, text(x).c_str(), text(b.l[i]).c_str());
                        VP_CHECK(a.isIntron(i) == in[i], "edit-marks",
                                 "%s: line %zu %s", what, i,
                                 in[i] ? "lost its mark" : "is marked");
                    }
                    for (size_t i = 0; i < b.c.size(); i++)
                        VP_CHECK((int)(int32_t)a.getConstantAt(i) == b.c[i], "edit",
                                 "%s: constant %zu", what, i);
                };
                auto outOfRange = [&](const char* what, std::function<void()> f) {
                    bool t = false;
                    try {
                        f();
                    }
                    catch (std::out_of_range&) {
                        t = true;
                    }
                    VP_CHECK(t, "edit-range", "%s out of range is accepted", what);
                };
                for (int s = 0; s < depth; s++) {
                    size_t n = m.l.size();
                    int op = c.pick(9);
                    if (op < 3) {
                        size_t at = op == 0 ? n : op == 1 ? 0 : n / 2;
                        auto& x = alphabet[c.pick((int)alphabet.size())];
                        vp::describe(fmt("insert %s at %zu; ", text(x).c_str(), at));
                        setLine(op == 0 ? p.addNewLine() : p.addNewLine(at), x);
                        m.l.insert(m.l.begin() + at, x);
                        mark.insert(mark.begin() + at, false);
                    }
                    else if (op == 3) {
                        if (!n) {
                            outOfRange("removeLine", [&] { p.removeLine(0); });
                            c.prune();
                        }
                        size_t i = c.pick((int)n);
                        vp::describe(fmt("remove %zu; ", i));
                        p.removeLine(i);
                        m.l.erase(m.l.begin() + i);
                        mark.erase(mark.begin() + i);
                    }
                    else if (op == 4) {
                        outOfRange("swapLines", [&] { p.swapLines(0, n); });
                        if (n < 2)
                            c.prune();
                        size_t i = c.pick((int)n), j = c.pick((int)n);
                        vp::describe(fmt("swap %zu %zu; ", i, j));
                        p.swapLines(i, j);
                        std::swap(m.l[i], m.l[j]);
                        bool b = mark[i];
                        mark[i] = mark[j];
                        mark[j] = b;
                    }
                    else if (op == 5) {
                        vp::describe("identify; ");
                        checkIntrons(w, p, m, "");
                        mark = w.introns(m);
                    }
                    else if (op == 6) {
                        vp::describe("clear; ");
                        p.clearIntrons();
                        for (size_t i = m.l.size(); i-- > 0;)
                            if (mark[i]) {
                                m.l.erase(m.l.begin() + i);
                                mark.erase(mark.begin() + i);
                            }
                    }
                    else if (op == 7) {
                        vp::describe("copy; ");
                        copy.reset(new P(p));
                        mcopy = m;
                        markCopy = mark;
                    }
                    else {
                        vp::describe("constants and last line; ");
                        for (int i = 0; i < 3; i++) {
                            m.c[i] += i + 1;
                            p.getConstantHandler().setDataAt(
                                typeid(Data::Constant), i, Data::Constant{m.c[i]});
                        }
                        if (n) {
                            m.l[n - 1] = alphabet[(s + 1) % alphabet.size()];
                            setLine(p.getLine(n - 1), m.l[n - 1]);
                        }
                    }
                    outOfRange("getLine", [&] { p.getLine(m.l.size()); });
                    outOfRange("isIntron", [&] { p.isIntron(m.l.size()); });
                    outOfRange("addNewLine", [&] { p.addNewLine(m.l.size() + 1); });
                    same(p, m, mark, "program");
                    if (copy)
                        same(*copy, mcopy, markCopy, "copy");
                    vp::count("executions");
                    uint64_t h = vp::digest(text(m) + (copy ? text(mcopy) : ""));
                    for (bool b : mark)
                        h = vp::mix(h, b);
                    vp::distinct("programs", h);
                    c.visit("edit-states", vp::mix(h, m.c[0] * 100 + mcopy.c.size() * 10 + (mcopy.c.size() ? mcopy.c[0] : 0)),
                            depth - 1 - s, depth);
                }
                checkIntrons(w, p, m, " after edits");
                expect(execute(p), w.run(m), "execution", text(m));
            },
            {.splitDepth = 3});
        vp::bound("edits", fmt("%d operations of 9 kinds on a program, with copies", depth));
    }

    // ================================================================ C11
    struct Item
    {
        Prog m;
        std::unique_ptr<P> p;
        std::vector<double> result; // over all data
        std::vector<L> useful;
    };
    Item makeItem(World& w, const Prog& m)
    {
        Item i;
        i.m = m;
        i.p.reset(new P(*w.env));
        fill(*i.p, m);
        for (size_t d = 0; d < w.contents.size(); d++) {
            w.load(d);
            i.result.push_back(execute(*i.p));
        }
        auto in = w.introns(m);
        for (size_t k = 0; k < m.l.size(); k++)
            if (!in[k])
                i.useful.push_back(m.l[k]);
        return i;
    }
    bool sameResults(const Item& a, const Item& b)
    {
        for (size_t k = 0; k < a.result.size(); k++)
            if (gg::bits(a.result[k]) != gg::bits(b.result[k]))
                return false;
        return true;
    }
    void pairs11(const char* name, int maxLines, bool raw, bool lean,
                 int nbConsts)
    {
        World& w = world(name);
        linesOf(w);
        std::vector<Item> items;
        std::vector<Prog> ms;
        auto& l = linesOf(w);
        ms.push_back({});
        auto& base = raw ? l.raw : l.plain;
        for (auto& x : base)
            ms.push_back({{x}, {}});
        if (maxLines > 1)
            for (auto& x : lean ? l.regs : base)
                for (auto& y : lean ? l.regs : base)
                    ms.push_back({{x, y}, {}});
        for (auto& m : ms) {
            if (!w.consts) {
                items.push_back(makeItem(w, m));
                continue;
            }
            for (int k = 0; k < nbConsts; k++) {
                Prog q = m;
                for (size_t i = 0; i < w.consts; i++)
                    q.c.push_back((k >> i) & 1 ? 5 + (int)i : 2);
                items.push_back(makeItem(w, q));
            }
        }
        vp::maximum("programs_compared", items.size());
        vp::explore(
            fmt("pairs-%s-%d", name, maxLines),
            [&](Chooser& c) {
                auto& a = items[c.pick((int)items.size())];
                size_t nb = 0, same = 0;
                for (auto& b : items) {
                    bool v = a.p->hasIdenticalBehavior(*b.p);
                    nb++;
                    if (v) {
                        same++;
                        if (!sameResults(a, b)) {
                            size_t k = 0;
                            while (gg::bits(a.result[k]) ==
                                   gg::bits(b.result[k]))
                                k++;
                            vp::fail("identical-but-different",
                                     fmt("identical, but they return %s and %s "
                                         "on data %zu: ",
                                         gg::num(a.result[k]).c_str(),
                                         gg::num(b.result[k]).c_str(), k) +
                                         text(a.m) + " and " + text(b.m));
                        }
                        if (!b.p->hasIdenticalBehavior(*a.p))
                            vp::fail("asymmetric", text(a.m) + " and " + text(b.m));
                    }
                    else if (a.useful == b.useful && a.m.c == b.m.c)
                        vp::fail("introns-matter",
                                 "programs which only differ by introns are "
                                 "declared different: " +
                                     text(a.m) + " and " + text(b.m));
                }
                VP_CHECK(same > 0, "not-reflexive",
                         "a program differs from itself: %s", text(a.m).c_str());
                vp::count("comparisons", nb);
                vp::count("declared_identical", same);
                vp::distinct("verdicts", vp::mix(vp::digest(text(a.m)), same));
            },
            {.splitDepth = 1});
        vp::bound(fmt("pairs (%s)", name),
                  fmt("all pairs of %zu programs of up to %d lines and constant vectors",
                      items.size(), maxLines));
    }
    // a long program and the same with one change
    void long11()
    {
        World& w = world("large");
        for (int n : {12, 67, 140})
            for (int kind = 0; kind < 4; kind++) {
                Prog base = pattern(w, kind, n);
                Item a = makeItem(w, base);
                vp::explore(
                    fmt("long-%d-pattern%d", n, kind),
                    [&](Chooser& c) {
                        Prog q = base;
                        int i = c.pick(n + (int)w.consts);
                        if (i >= n)
                            q.c[i - n] += c.pick(2) ? 1 : 1 << 20;
                        else if (!alter(w, q, i, 1 + c.pick(NALTER)))
                            c.prune();
                        Item b = makeItem(w, q);
                        bool v = a.p->hasIdenticalBehavior(*b.p);
                        vp::count("comparisons");
                        vp::count("declared_identical", v);
                        vp::count("long_with_other_result", !sameResults(a, b));
                        vp::count("long_lines", a.m.l.size());
                        vp::count("long_useful_lines", a.useful.size());
                        if (v && !sameResults(a, b))
                            vp::fail("identical-but-different", text(a.m) + " and " + text(b.m));
                        if (!v && a.useful == b.useful && a.m.c == b.m.c)
                            vp::fail("introns-matter", text(a.m) + " and " + text(b.m));
                        VP_CHECK(v == b.p->hasIdenticalBehavior(*a.p), "asymmetric",
                                 "the verdict depends on the order");
                        Item same = makeItem(w, q);
                        VP_CHECK(b.p->hasIdenticalBehavior(*same.p), "not-reflexive",
                                 "a program differs from itself: %s", text(q).c_str());
                        vp::distinct("verdicts", vp::mix(vp::digest(text(q)), v));
                    },
                    {.splitDepth = 1});
            }
        vp::bound("long programs", "4 patterns of 12, 67 and 140 lines with 70 registers and 12 constants against every change of one line or constant");
    }
    // introns inserted anywhere keep the verdict
    void insert11(const char* name)
    {
        World& w = world(name);
        auto& l = linesOf(w);
        auto cv = constantVectors(w.consts);
        vp::explore(
            fmt("insertion-%s", name),
            [&](Chooser& c) {
                Prog m;
                m.c = cv[0];
                int n = 1 + c.pick(2);
                for (int i = 0; i < n; i++)
                    m.l.push_back(l.regs[c.pick((int)l.regs.size())]);
                Item a = makeItem(w, m);
                Prog q = m;
                size_t at = c.pick(n + 1);
                q.l.insert(q.l.begin() + at, l.regs[c.pick((int)l.regs.size())]);
                Item b = makeItem(w, q);
                bool v = a.p->hasIdenticalBehavior(*b.p);
                vp::count("comparisons");
                if (v && !sameResults(a, b))
                    vp::fail("identical-but-different",
                             text(a.m) + " and " + text(b.m));
                if (!v && a.useful == b.useful)
                    vp::fail("introns-matter", text(a.m) + " and " + text(b.m));
                vp::distinct("verdicts", vp::mix(vp::digest(text(q)), v));
            },
            {.splitDepth = 2});
        vp::bound(fmt("insertion (%s)", name), "programs of 1-2 lines and the same with one more line anywhere");
    }
} // namespace

void vp_main()
{
    bool T = vp::opt.thorough();
    if (vp::opt.prop == "C10") {
        programs10();
        long10();
        throwing10();
        histories10("typed");
        histories10("wrappers");
        refusals10("typed");
        refusals10("wrappers");
        refusals10("double");
    }
    else if (vp::opt.prop == "C09") {
        introns9();
        long9();
        edits9();
    }
    else {
        pairs11("constants", 1, true, false, 8);
        pairs11("constants", 2, false, !T, T ? 4 : 4);
        pairs11("typed", 1, true, false, 8);
        pairs11("small", 2, false, !T, 0);
        pairs11("double", 2, false, true, 0);
        pairs11("arrays", 1, true, false, 0);
        long11();
        insert11("typed");
        insert11("arrays");
        insert11("small");
    }
}
