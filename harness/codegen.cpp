// C18: the generated C code decides like the engine.
#include "world.h"
#include <codeGen/tpgGenerationEngineFactory.h>
#include <codeGen/tpgStackGenerationEngine.h>
#include <codeGen/tpgSwitchGenerationEngine.h>
#include <dlfcn.h>
#include <fstream>
#include <program/programExecutionEngine.h>
#include <sys/stat.h>
#include <unistd.h>
using vp::fmt;

namespace {
    std::string dir;
    struct Lib
    {
        void* h = nullptr;
        std::string where;
        ~Lib()
        {
            if (h)
                dlclose(h);
            if (!where.empty() && system(("rm -rf " + where).c_str())) {
            }
        }
        template <class F> F* sym(const std::string& n)
        {
            void* p = dlsym(h, n.c_str());
            if (!p)
                vp::fail("codegen-symbol", "the generated code does not define " + n);
            return (F*)p;
        }
    };
    int batchNumber = 0;
    std::string newDir()
    {
        std::string d = dir + fmt("/%d-%d", (int)getpid(), batchNumber++);
        mkdir(d.c_str(), 0700);
        std::ofstream(d + "/externHeader.h") << "#include <stdint.h>\n#include <math.h>\n";
        return d;
    }
    void compile(Lib& l, const std::string& d, const std::string& main,
                 const std::string& what)
    {
        std::ofstream(d + "/all.c") << main;
        std::string cmd = "cd " + d + " && gcc -O0 -w -shared -fPIC -o all.so all.c 2>err.txt";
        if (system(cmd.c_str())) {
            std::ifstream e(d + "/err.txt");
            std::string s((std::istreambuf_iterator<char>(e)), {});
            l.where = d;
            vp::fail("codegen-compile", "the code generated for " + what + " does not compile: " + s.substr(0, 600));
        }
        l.where = d;
        l.h = dlopen((d + "/all.so").c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!l.h)
            vp::fail("codegen-compile", std::string("the generated code cannot be loaded: ") + dlerror());
    }
    // renames what a generated graph defines, to put many in one file
    std::string included(const std::string& name, int k, int teams,
                         const std::vector<uint64_t>& actions, int vertices,
                         int programs)
    {
        std::vector<std::string> n{"inferenceTPG", "executeFromVertex", "executeTeam", "execute", "Edge", "Vertex", "root", "bestProgram", "vertices"};
        for (int i = 0; i < std::max(teams, vertices); i++) {
            n.push_back(fmt("T%d", i)), n.push_back(fmt("T%dVert", i));
            n.push_back(fmt("A%d", i)), n.push_back(fmt("A%dVert", i));
        }
        for (auto a : actions)
            if ((int)a >= std::max(teams, vertices))
                n.push_back(fmt("A%d", (int)a)), n.push_back(fmt("A%dVert", (int)a));
        for (int i = 0; i < programs; i++)
            n.push_back(fmt("P%d", i));
        std::string s;
        for (auto& x : n)
            s += fmt("#define %s g%d_%s\n", x.c_str(), k, x.c_str());
        s += "#include \"" + name + "_program.c\"\n#include \"" + name + ".c\"\n";
        for (auto& x : n)
            s += "#undef " + x + "\n";
        return s;
    }
    std::unique_ptr<CodeGen::TPGGenerationEngine> engine(
        int mode, const std::string& name, const TPG::TPGGraph& g,
        const std::string& d)
    {
        using Fac = CodeGen::TPGGenerationEngineFactory;
        return Fac(mode == 0 ? Fac::stackMode : Fac::switchMode).create(name, g, d + "/");
    }

    // ---------------------------------------------------------- programs
    std::string cType(char e)
    {
        return e == 'd'   ? "double"
               : e == 'i' ? "int"
               : e == 'u' ? "unsigned char"
               : e == 's' ? "unsigned short"
               : e == 'l' ? "long"
                          : "float";
    }
    template <class T>
    void* guarded(std::vector<std::vector<char>>& keep, const std::vector<double>& v)
    {
        std::vector<T> t(v.size() + 8, (T)119);
        for (size_t i = 0; i < v.size(); i++)
            t[i + 4] = (T)v[i];
        keep.emplace_back((char*)t.data(), (char*)(t.data() + t.size()));
        return keep.back().data() + 4 * sizeof(T);
    }
    void programs(const std::string& wn, std::vector<wd::Prog> all)
    {
        const size_t per = 250;
        wd::World& w = wd::world(wn);
        int n = (int)((all.size() + per - 1) / per);
        vp::forEach("programs-" + wn + fmt("-%zu", all.empty() ? 0 : all[0].l.size()), n * 2, [&](int k) {
            int mode = k % 2, b = k / 2;
            TPG::TPGGraph g(*w.env);
            auto& team = g.addNewTeam();
            std::vector<const TPG::TPGVertex*> acts;
            for (int i = 0; i < 3; i++)
                acts.push_back(&g.addNewAction(i * 5));
            std::vector<std::shared_ptr<wd::P>> ps;
            std::vector<wd::Prog> ms(all.begin() + b * per, all.begin() + std::min(all.size(), (b + 1) * per));
            for (auto& m : ms) {
                auto p = std::make_shared<wd::P>(*w.env);
                wd::fill(*p, m);
                g.addNewEdge(team, *acts[ps.size() % 3], p);
                ps.push_back(p);
            }
            std::string d = newDir();
            {
                auto e = engine(mode, "tpg", g, d);
                e->generateTPGGraph();
            }
            std::string src;
            for (size_t s = 0; s < w.src.size(); s++)
                src += fmt("%s* in%zu;\n", cType(w.src[s].elem).c_str(), s + 1);
            src += "#include \"tpg_program.c\"\n#include \"tpg.c\"\n";
            Lib l;
            compile(l, d, src, fmt("programs %d of %s", b, wn.c_str()));
            for (size_t alt = 0; alt < w.contents.size(); alt++) {
                w.load(alt);
                // the data, between guards
                std::vector<std::vector<double>> bd;
                std::vector<std::vector<int>> bi;
                std::vector<std::vector<float>> bf;
                bd.reserve(9), bi.reserve(9), bf.reserve(9);
                std::vector<std::vector<char>> other;
                other.reserve(9);
                for (size_t s = 0; s < w.src.size(); s++) {
                    auto& v = w.contents[alt][s];
                    void** in = l.sym<void*>(fmt("in%zu", s + 1));
                    if (w.src[s].elem == 'd') {
                        bd.emplace_back(v.size() + 8, 3.21e77);
                        std::copy(v.begin(), v.end(), bd.back().begin() + 4);
                        *in = bd.back().data() + 4;
                    }
                    else if (w.src[s].elem == 'i') {
                        bi.emplace_back(v.size() + 8, 77777777);
                        std::copy(v.begin(), v.end(), bi.back().begin() + 4);
                        *in = bi.back().data() + 4;
                    }
                    else if (w.src[s].elem == 'u')
                        *in = guarded<unsigned char>(other, v);
                    else if (w.src[s].elem == 's')
                        *in = guarded<unsigned short>(other, v);
                    else if (w.src[s].elem == 'l')
                        *in = guarded<long>(other, v);
                    else {
                        bf.emplace_back(v.size() + 8, 3.21e37f);
                        std::copy(v.begin(), v.end(), bf.back().begin() + 4);
                        *in = bf.back().data() + 4;
                    }
                }
                double best = 0;
                size_t bestAt = 0;
                for (size_t k = 0; k < ps.size(); k++) {
                    Program::ProgramExecutionEngine ex(*ps[k]);
                    double e = ex.executeProgram();
                    double r = l.sym<double()>(fmt("P%zu", k))();
                    vp::count("results");
                    if (gg::bits(e) != gg::bits(r))
                        vp::fail("codegen-program", fmt("%s: program %s returns %.17g with the engine and %.17g with the generated code (mode %d, data %zu)", wn.c_str(), wd::text(ms[k]).c_str(), e, r, mode, alt));
                    double bid = std::isnan(e) ? -INFINITY : e;
                    if (k == 0 || bid >= best) {
                        best = bid;
                        bestAt = k;
                    }
                }
                int a = l.sym<int()>("inferenceTPG")();
                VP_CHECK(a == (int)(bestAt % 3) * 5, "codegen-inference", "%s: a team of %zu edges takes action %d instead of %d (mode %d)", wn.c_str(), ps.size(), a, (int)(bestAt % 3) * 5, mode);
            }
            for (auto& m : ms)
                vp::distinct("generated", vp::digest(wn + wd::text(m)));
        });
    }
    void allPrograms()
    {
        bool th = vp::opt.thorough();
        for (const char* wn : {"double", "small", "typed", "arrays", "wrappers", "constants", "words"}) {
            wd::World& w = wd::world(wn);
            auto one = w.lines(true), regs = w.lines(false, true), addr = w.lines(false);
            auto consts = [&](wd::Prog& p, size_t k) {
                const int cs[] = {3, -7, 1000001, 0, INT32_MIN + 1};
                for (size_t i = 0; i < w.consts; i++)
                    p.c.push_back(cs[(i + k) % 5]);
            };
            std::vector<wd::Prog> ps(1);
            consts(ps[0], 0);
            programs(wn, ps); // the empty program
            ps.clear();
            for (auto& l : one) {
                ps.push_back({{l}, {}});
                consts(ps.back(), ps.size());
            }
            programs(wn, ps);
            ps.clear();
            // two lines: the second reads registers
            size_t limit = th ? 400000 : 12000;
            auto& first = addr.size() * addr.size() <= limit ? addr : regs;
            for (auto& a : addr)
                for (auto& b : first) {
                    ps.push_back({{a, b}, {}});
                    consts(ps.back(), ps.size());
                    if (ps.size() >= limit * 2)
                        break;
                }
            if (ps.size() > limit) {
                // evenly spaced subset
                std::vector<wd::Prog> q;
                for (size_t i = 0; i < limit; i++)
                    q.push_back(ps[i * ps.size() / limit]);
                ps = q;
                vp::bound(std::string("two lines, ") + wn, fmt("%zu programs (a subset)", ps.size()));
            }
            else
                vp::bound(std::string("two lines, ") + wn, fmt("all %zu programs", ps.size()));
            programs(wn, ps);
        }
        // long programs, with at most one change
        wd::World& w = wd::world("large");
        for (int n : {12, th ? 67 : 40}) {
            std::vector<wd::Prog> ps;
            for (int kind = 0; kind < 4; kind++) {
                auto p = wd::pattern(w, kind, n);
                ps.push_back(p);
                for (int i = 0; i < n; i++)
                    for (int what = 1; what <= wd::NALTER; what++) {
                        auto q = p;
                        if (wd::alter(w, q, i, what))
                            ps.push_back(q);
                    }
            }
            vp::bound(fmt("large, %d lines", n), fmt("all %zu programs which differ from 4 patterns by at most one change of one line", ps.size()));
            programs("large", ps);
        }
        vp::bound("programs", "every line of six environments with every raw address; data of two or three contents");
    }

    // ------------------------------------------------------------ graphs
    struct GEnv
    {
        gg::ISet is;
        Data::PrimitiveTypeArray<double> data{4};
        std::unique_ptr<Environment> env;
        std::vector<std::shared_ptr<wd::P>> progs;
        GEnv()
        {
            is.add<Instructions::LambdaInstruction<double>>([](double a) { return a; }, "$0 = $1;");
            is.add<Instructions::LambdaInstruction<double>>([](double a) { return -a; }, "$0 = -$1;");
            env.reset(new Environment(is.set, {data}, 1, 0));
            for (int i = 0; i < 6; i++) {
                progs.push_back(std::make_shared<wd::P>(*env));
                wd::fill(*progs.back(), {{{(uint64_t)i / 3, 0, {{1, (uint64_t)i % 3}}}}, {}});
            }
            // without any line
            progs.push_back(std::make_shared<wd::P>(*env));
            progs.back()->identifyIntrons();
        }
    };
    GEnv& genv()
    {
        static GEnv e;
        return e;
    }
    struct GE
    {
        int src, dst, prog;
    }; // dst: team if < nbTeams, else action
    struct G
    {
        int teams, order; // order of creation of the vertices
        std::vector<uint64_t> actions;
        std::vector<GE> edges;
    };
    std::string text(const G& g)
    {
        std::string s = fmt("%d teams (order %d), actions", g.teams, g.order);
        for (auto a : g.actions)
            s += fmt(" %d", (int)a);
        s += ":";
        for (auto& e : g.edges)
            s += e.dst < g.teams ? fmt(" T%d>p%d>T%d", e.src, e.prog, e.dst)
                                 : fmt(" T%d>p%d>A%d", e.src, e.prog, (int)g.actions[e.dst - g.teams]);
        return s;
    }
    void edgesOf(int team, const G& base, int maxPerTeam, int nbProgs,
                 std::vector<G>& out)
    {
        if (team == base.teams) {
            out.push_back(base);
            return;
        }
        int dests = base.teams - team - 1 + (int)base.actions.size();
        int options = dests * nbProgs;
        for (int n = 1; n <= maxPerTeam; n++) {
            int total = 1;
            for (int i = 0; i < n; i++)
                total *= options;
            for (int k = 0; k < total; k++) {
                G g = base;
                int x = k;
                for (int i = 0; i < n; i++, x /= options)
                    g.edges.push_back({team, team + 1 + (x % options) % dests, (x % options) / dests});
                edgesOf(team + 1, g, maxPerTeam, nbProgs, out);
            }
        }
    }
    void graphs()
    {
        bool th = vp::opt.thorough();
        std::vector<G> all;
        for (int order = 0; order < 3; order++) {
            edgesOf(0, {1, order, {0, 7}, {}}, 3, 3, all);
            edgesOf(0, {2, order, {4, 1}, {}}, 2, order == 0 || th ? 3 : 2, all);
            if (th)
                edgesOf(0, {3, order, {2, 9}, {}}, 2, 2, all);
        }
        if (!th) {
            // three teams: the edges of a team have distinct programs
            std::vector<G> q;
            edgesOf(0, {3, 0, {2, 9}, {}}, 2, 1, q);
            for (auto& g : q)
                for (int k = 0; k < 8; k++) {
                    all.push_back(g);
                    auto& e = all.back().edges;
                    for (size_t i = 0; i < e.size(); i++)
                        e[i].prog = (k >> e[i].src & 1) ^ (i && e[i - 1].src == e[i].src);
                }
        }
        { // the same with an empty program
            std::vector<G> q;
            edgesOf(0, {1, 0, {0, 7}, {}}, 3, 2, q);
            edgesOf(0, {2, 1, {4, 1}, {}}, 2, 2, q);
            for (auto& g : q) {
                bool used = false;
                for (auto& e : g.edges)
                    if (e.prog == 1) {
                        e.prog = 6;
                        used = true;
                    }
                if (used)
                    all.push_back(g);
            }
        }
        // large ones, with at most one change
        for (int pat = 0; pat < 4; pat++)
            for (auto dim : {std::pair<int, int>{9, 4}, {2, 40}}) {
                G g{dim.first, pat % 3, {0, 12, 3, 255, 7, 1, 30, 8, 9, 10, 11, 100}, {}};
                int V = g.teams + (int)g.actions.size();
                for (int t = 0; t < g.teams; t++)
                    for (int k = 0; k < dim.second; k++) {
                        int rel = (k + pat) % dim.second;
                        int d = rel == 0 ? t + 1 : t + 1 + (rel * 5 + t) % (V - t - 1);
                        g.edges.push_back({t, d, pat % 2 ? 1 : (t + k) % 6});
                    }
                all.push_back(g);
                for (size_t i = 0; i < g.edges.size() && (th || i < 40); i++) {
                    for (int d = g.edges[i].src + 1; d < V; d++)
                        if (d != g.edges[i].dst && (d <= g.teams || (d + i) % 4 == 0 || th)) {
                            all.push_back(g);
                            all.back().edges[i].dst = d;
                        }
                    for (int p = 0; p < 6; p++)
                        if (p != g.edges[i].prog && (p < 3 || th)) {
                            all.push_back(g);
                            all.back().edges[i].prog = p;
                        }
                }
            }
        // without teams, and with two actions of the same identifier
        for (int order = 0; order < 3; order++) {
            all.push_back({0, order, {6}, {}});
            all.push_back({1, order, {3, 3}, {{0, 1, 0}, {0, 2, 1}}});
            all.push_back({1, order, {3, 3, 8}, {{0, 1, 0}, {0, 3, 2}, {0, 2, 1}}});
        }
        const size_t per = 100;
        int n = (int)((all.size() + per - 1) / per);
        vp::forEach("graphs", n * 2, [&](int b) {
            auto& ge = genv();
            int mode = b % 2;
            std::string d = newDir();
            std::string src = "double* in1;\n";
            std::vector<std::unique_ptr<TPG::TPGGraph>> gs;
            size_t from = (size_t)(b / 2) * per, to = std::min(all.size(), from + per);
            std::vector<const TPG::TPGVertex*> roots;
            for (size_t k = from; k < to; k++) {
                auto& m = all[k];
                gs.emplace_back(new TPG::TPGGraph(*ge.env));
                auto& g = *gs.back();
                std::vector<const TPG::TPGVertex*> t(m.teams), a;
                auto teams = [&] {
                    for (int i = 0; i < m.teams; i++)
                        t[m.order == 2 ? m.teams - 1 - i : i] = &g.addNewTeam();
                };
                auto acts = [&] {
                    for (auto x : m.actions)
                        a.push_back(&g.addNewAction(x));
                };
                if (m.order == 1)
                    acts(), teams();
                else
                    teams(), acts();
                for (auto& e : m.edges)
                    g.addNewEdge(*t[e.src], e.dst < m.teams ? *t[e.dst] : *a[e.dst - m.teams], ge.progs[e.prog]);
                if (g.getRootVertices().empty())
                    abort();
                roots.push_back(g.getRootVertices().at(0));
                std::string name = fmt("g%zu", k);
                {
                    auto e = engine(mode, name, g, d);
                    e->generateTPGGraph();
                }
                src += included(name, (int)k, m.teams, m.actions, m.teams + (int)m.actions.size(), 7);
            }
            Lib l;
            try {
                compile(l, d, src, fmt("graphs %zu-%zu", from, to));
            }
            catch (vp::Violation&) {
                // which one?
                for (size_t k = from; k < to; k++) {
                    Lib l1;
                    auto& m = all[k];
                    std::string d1 = newDir();
                    std::string name = fmt("g%zu", k);
                    {
                        auto e = engine(mode, name, *gs[k - from], d1);
                        e->generateTPGGraph();
                    }
                    compile(l1, d1, "double* in1;\n" + included(name, (int)k, m.teams, m.actions, m.teams + (int)m.actions.size(), 7),
                            fmt("graph %s in mode %s", text(m).c_str(), mode ? "switch" : "stack"));
                }
                throw;
            }
            const double vals[] = {NAN, 0, 1, -INFINITY, INFINITY};
            double buf[4] = {0, 0, 0, 0};
            *l.sym<double*>("in1") = buf;
            for (size_t k = from; k < to; k++) {
                auto f = l.sym<int()>(fmt("g%d_inferenceTPG", (int)k));
                TPG::TPGExecutionEngine ee(*ge.env, nullptr);
                for (int v = 0; v < 125; v++) {
                    for (int i = 0, x = v; i < 3; i++, x /= 5) {
                        buf[i] = vals[x % 5];
                        ge.data.setDataAt(typeid(double), i, buf[i]);
                    }
                    auto path = ee.executeFromRoot(*roots[k - from]);
                    auto a = dynamic_cast<const TPG::TPGAction*>(path.back());
                    int got = f();
                    vp::count("results");
                    if (!a || got != (int)a->getActionID())
                        vp::fail("codegen-graph", fmt("%s, bids %g %g %g: the generated code (%s) takes action %d instead of %d", text(all[k]).c_str(), buf[0], buf[1], buf[2], mode ? "switch" : "stack", got, a ? (int)a->getActionID() : -1));
                }
                vp::distinct("generated", vp::digest(text(all[k]) + (mode ? "w" : "t")));
            }
        });
        vp::bound("graphs", fmt("%zu acyclic graphs of up to 3 teams with up to 2 edges (1 team: 3 edges), shared programs and 3 creation orders, of chains of 9 teams of 4 edges and of 2 teams of 40 edges with at most one change, in both modes, with programs without lines, with the 125 vectors of bids over {NaN, -infinity, 0, 1, infinity}", all.size()));
    }
} // namespace
void vp_main()
{
    char t[] = "/tmp/vp-codegen-XXXXXX";
    dir = mkdtemp(t);
    graphs();
    allPrograms();
    if (system(("rm -rf " + dir).c_str())) {
    }
}
