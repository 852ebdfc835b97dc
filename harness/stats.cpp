// C23 statistics of policies and of executions
// C24 counters and pruning of instrumented graphs
// C25 what the loggers write
#include "learn.h"
#include "world.h"
#include <dirent.h>
#include <fstream>
#include <json.h>
#include <unistd.h>
using namespace ln;
using vp::Chooser;
using vp::fmt;
using wd::L;
using wd::Prog;
using wd::World;

namespace {
    std::string scratch;
    template <class K, class V> std::string mapText(const std::map<K, V>& m)
    {
        std::ostringstream o;
        for (auto& p : m)
            o << p.first << ":" << p.second << " ";
        return o.str();
    }
    std::string mapText(const std::map<std::pair<size_t, size_t>, size_t>& m)
    {
        std::ostringstream o;
        for (auto& p : m)
            o << p.first.first << "@" << p.first.second << ":" << p.second
              << " ";
        return o.str();
    }
    std::string sorted(std::vector<size_t> v)
    {
        std::sort(v.begin(), v.end());
        std::string s;
        for (auto x : v)
            s += fmt("%zu ", x);
        return s;
    }
    void same(const std::string& got, const std::string& want, const char* key,
              const std::string& what)
    {
        if (got != want)
            vp::fail(key, what + ": " + got + " instead of " + want);
    }

    // --------------------------------------------- graphs over a catalogue
    World& cat()
    {
        static World* w = nullptr;
        if (!w) {
            w = new World;
            w->name = "catalogue";
            wd::iAdd(*w), wd::iHalf(*w), wd::iArr2(*w), wd::iMult(*w);
            wd::addArray<double>(*w, 'd', 3);
            w->contents = {{{0, 0, 0}},  {{1, 0, 2}},   {{0, 1, -2}},
                           {{-1, 0, 1}}, {{-1, -2, 0}}, {{NAN, -1, 0}}};
            w->finish(4, 2);
        }
        return *w;
    }
    std::vector<Prog> catalogue()
    {
        return {
            // data 1, after an intron
            {{{1, 1, {{2, 1}, {0, 0}}}, {0, 0, {{2, 1}, {0, 0}}}}, {2, -1}},
            // data 0
            {{{0, 0, {{2, 3}, {0, 0}}}}, {2, -1}},
            // arrays, constants and registers
            {{{2, 1, {{2, 1}, {0, 0}}},
              {3, 1, {{0, 1}, {1, 1}}},
              {0, 0, {{0, 1}, {0, 0}}}},
             {2, -1}},
            // no line at all
            {{}, {2, -1}},
            // registers only
            {{{0, 0, {{0, 0}, {0, 1}}}}, {2, -1}},
            // only introns
            {{{1, 1, {{2, 0}, {0, 0}}}}, {2, -1}},
        };
    }
    struct GEdge
    {
        int src, dst, prog;
        const TPG::TPGEdge* real;
    };
    struct Small
    {
        World& w;
        std::vector<Prog> models = catalogue();
        std::vector<std::shared_ptr<Program::Program>> progs;
        std::unique_ptr<TPG::TPGGraph> g;
        std::vector<Vertex> vert;
        std::vector<int64_t> action; // -1: team
        std::vector<GEdge> edges;
        std::string shape;
        Small(World& wo, bool instrumented) : w(wo)
        {
            for (auto& m : models) {
                auto p = std::make_shared<Program::Program>(*w.env);
                wd::fill(*p, m);
                progs.push_back(p);
            }
            std::unique_ptr<TPG::TPGFactory> f;
            if (instrumented)
                f.reset(new TPG::TPGInstrumentedFactory());
            else
                f.reset(new TPG::TPGFactory());
            g.reset(new TPG::TPGGraph(*w.env, std::move(f)));
        }
        // teams first, then actions
        void build(Chooser& c, int teams, int minE, int maxE,
                   std::vector<int64_t> ids, std::vector<int> allowed,
                   bool cyclic = false)
        {
            for (int i = 0; i < teams; i++) {
                vert.push_back(&g->addNewTeam());
                action.push_back(-1);
            }
            for (auto a : ids) {
                vert.push_back(&g->addNewAction(a));
                action.push_back(a);
                shape += fmt("A%d=%d ", (int)vert.size() - 1, (int)a);
            }
            for (int i = 0; i < teams; i++) {
                int n = minE + c.pick(maxE - minE + 1);
                shape += fmt("T%d:", i);
                for (int k = 0; k < n; k++) {
                    int d = cyclic ? c.pick((int)vert.size())
                                   : i + 1 + c.pick((int)vert.size() - i - 1);
                    int p = allowed[c.pick((int)allowed.size())];
                    edges.push_back({i, d, p,
                                     &g->addNewEdge(*vert[i], *vert[d],
                                                    progs[p])});
                    shape += fmt("p%d>%d ", p, d);
                }
            }
        }
        // large graphs: a chain of teams of several edges, with few changes
        void pump(Chooser& c, int teams, int width, std::vector<int64_t> ids)
        {
            for (int i = 0; i < teams; i++) {
                vert.push_back(&g->addNewTeam());
                action.push_back(-1);
            }
            for (auto a : ids) {
                vert.push_back(&g->addNewAction(a));
                action.push_back(a);
            }
            int A = (int)ids.size(), V = teams + A;
            int pat = c.pick(4);
            shape += fmt("chain of %d teams of %d edges, %d actions, "
                         "pattern %d ",
                         teams, width, A, pat);
            for (int i = 0; i < teams; i++)
                for (int k = 0; k < width; k++) {
                    int rel = (k + pat) % width;
                    int d = rel == 0   ? i + 1
                            : rel == 1 ? teams + (i + k) % A
                                       : i + rel;
                    if (d >= V)
                        d = teams;
                    // the same bid everywhere (the last edge wins), or not
                    int p = pat % 2 ? 1 : (i * width + k) % (int)progs.size();
                    int later = V - i - 1;
                    int x = c.pickDev(1 + later + (int)progs.size(), 0);
                    if (x > later)
                        p = x - later - 1;
                    else if (x)
                        d = i + x;
                    if (x)
                        shape += fmt("T%d[%d]=p%d>%d ", i, k, p, d);
                    edges.push_back(
                        {i, d, p, &g->addNewEdge(*vert[i], *vert[d], progs[p])});
                }
        }
        std::vector<int> out(int v) const
        {
            std::vector<int> r;
            for (size_t e = 0; e < edges.size(); e++)
                if (edges[e].src == v)
                    r.push_back((int)e);
            return r;
        }
        std::vector<int> roots() const
        {
            std::vector<int> r;
            for (size_t v = 0; v < vert.size(); v++)
                if (vert[v] &&
                    std::none_of(edges.begin(), edges.end(),
                                 [&](const GEdge& e) { return e.dst == (int)v; }))
                    r.push_back((int)v);
            return r;
        }
        // edges followed from a root on the current data; ends at an action,
        // or without edge when the walk would never end
        std::vector<int> path(int root) const
        {
            std::vector<int> r;
            int v = root;
            while (action[v] < 0) {
                if (r.size() > vert.size())
                    return {};
                int best = -1;
                double bb = 0;
                for (int e : out(v)) {
                    double b = w.run(models[edges[e].prog]);
                    if (std::isnan(b))
                        b = -INFINITY;
                    if (best < 0 || b >= bb)
                        best = e, bb = b;
                }
                r.push_back(best);
                v = edges[best].dst;
            }
            return r;
        }
    };

    // ================================================================= C23
    struct Ref
    {
        std::map<int, size_t> prog, team, act;
        std::map<size_t, size_t> level, ids, instr;
        std::map<std::pair<size_t, size_t>, size_t> loc;
        std::vector<size_t> lines, introns, outs;
        size_t depth = 0;
    };
    // uses of instructions and locations by the useful lines of a program
    void lineUses(const World& w, const Prog& p, Ref& r)
    {
        auto in = w.introns(p);
        r.lines.push_back(p.l.size());
        r.introns.push_back(std::count(in.begin(), in.end(), true));
        for (size_t j = 0; j < p.l.size(); j++) {
            if (in[j])
                continue;
            auto& l = p.l[j];
            r.instr[l.i]++;
            auto& ops = w.instr[l.i].ops;
            for (size_t k = 0; k < ops.size(); k++) {
                auto s = w.source(l.o[k].first);
                for (size_t a :
                     s.addresses(ops[k], l.o[k].second % s.space(ops[k])))
                    r.loc[{l.o[k].first, a}]++;
            }
        }
    }
    Ref reference(const Small& s, int root)
    {
        // distance of each reachable vertex
        std::map<int, size_t> dist{{root, 0}};
        std::vector<int> todo{root};
        for (size_t i = 0; i < todo.size(); i++)
            for (int e : s.out(todo[i]))
                if (!dist.count(s.edges[e].dst)) {
                    dist[s.edges[e].dst] = dist[todo[i]] + 1;
                    todo.push_back(s.edges[e].dst);
                }
        Ref r;
        r.level[0] = 1;
        auto use = [&](int v) {
            if (s.action[v] < 0)
                r.team[v]++;
            else {
                r.act[v]++;
                r.ids[s.action[v]]++;
            }
        };
        use(root);
        for (auto& d : dist)
            if (s.action[d.first] < 0)
                r.outs.push_back(s.out(d.first).size());
        for (auto& e : s.edges)
            if (dist.count(e.src)) {
                r.prog[e.prog]++;
                use(e.dst);
                r.level[dist[e.src] + 1]++;
            }
        for (auto& l : r.level)
            r.depth = std::max(r.depth, l.first);
        for (auto& p : r.prog)
            lineUses(s.w, s.models[p.first], r);
        return r;
    }
    std::string mean(size_t sum, size_t n)
    {
        std::ostringstream o;
        o << (double)sum / (double)n;
        return n ? o.str() : "nan";
    }
    size_t sum(const std::vector<size_t>& v)
    {
        size_t r = 0;
        for (auto x : v)
            r += x;
        return r;
    }
    template <class K> size_t sum(const std::map<K, size_t>& v)
    {
        size_t r = 0;
        for (auto& x : v)
            r += x.second;
        return r;
    }
    std::string statsText(const Ref& r)
    {
        std::ostringstream o;
        o << "# PolicyStats\n## Topology info\nTeams:\t\t" << r.outs.size()
          << "\nEdges:\t\t" << sum(r.outs) << "\nActions:\t" << r.ids.size()
          << "\nStages\t\t" << r.depth << "\nVertex/stage:\t";
        for (auto& l : r.level)
            o << "{" << l.first << "," << l.second << "} ";
        o << "\nUse/action:\t" << mean(sum(r.ids), r.ids.size()) << ": ";
        for (auto& l : r.ids)
            o << "{" << l.first << "," << l.second << "} ";
        o << "\n\n## Program info\nPrograms:\t" << r.prog.size()
          << "\nLine/prog:\t" << mean(sum(r.lines), r.lines.size())
          << "\nIntr/prog:\t" << mean(sum(r.introns), r.introns.size())
          << "\nUse/prog:\t" << mean(sum(r.prog), r.prog.size())
          << "\nUse/instr:\t" << mean(sum(r.instr), r.instr.size()) << ": ";
        for (auto& l : r.instr)
            o << "{" << l.first << "," << l.second << "}";
        o << "\n\n## Data info";
        size_t last = (size_t)-1;
        for (auto& l : r.loc) {
            if (l.first.first != last) {
                last = l.first.first;
                size_t n = 0, a = 0;
                for (auto& k : r.loc)
                    if (k.first.first == last)
                        n++, a += k.second;
                o << "\n\n### DataHandler " << last << "\nAccesses:\t" << a
                  << "\nLocations:\t" << n << "\n";
            }
            o << "{" << l.first.second << "," << l.second << "} ";
        }
        return o.str();
    }
    std::string plainNan(std::string s)
    {
        size_t p;
        while ((p = s.find("-nan")) != std::string::npos)
            s.erase(p, 1);
        return s;
    }
    void compare(const Small& s, const TPG::PolicyStats& ps, const Ref& r)
    {
        std::map<int, size_t> prog, team, act;
        for (auto& p : ps.nbUsePerProgram)
            for (size_t i = 0; i < s.progs.size(); i++)
                if (s.progs[i].get() == p.first)
                    prog[(int)i] = p.second;
        for (auto& p : ps.nbUsePerTPGTeam)
            for (size_t i = 0; i < s.vert.size(); i++)
                if (s.vert[i] == (Vertex)p.first)
                    team[(int)i] = p.second;
        for (auto& p : ps.nbUsePerTPGAction)
            for (size_t i = 0; i < s.vert.size(); i++)
                if (s.vert[i] == (Vertex)p.first)
                    act[(int)i] = p.second;
        VP_CHECK(prog.size() == ps.nbUsePerProgram.size() &&
                     team.size() == ps.nbUsePerTPGTeam.size() &&
                     act.size() == ps.nbUsePerTPGAction.size(),
                 "policy-uses", "statistics about something outside the graph");
        same(mapText(prog), mapText(r.prog), "policy-uses", "uses of programs");
        same(mapText(team), mapText(r.team), "policy-uses", "uses of teams");
        same(mapText(act), mapText(r.act), "policy-uses", "uses of actions");
        same(mapText(ps.nbUsagePerActionID), mapText(r.ids), "policy-uses",
             "uses of action identifiers");
        same(sorted(ps.nbLinesPerProgram), sorted(r.lines), "policy-lines",
             "lines of programs");
        same(sorted(ps.nbIntronPerProgram), sorted(r.introns), "policy-lines",
             "introns of programs");
        same(sorted(ps.nbOutgoingEdgesPerTeam), sorted(r.outs),
             "policy-topology", "outgoing edges");
        same(mapText(ps.nbUsagePerInstruction), mapText(r.instr),
             "policy-lines", "uses of instructions");
        same(mapText(ps.nbUsagePerDataLocation), mapText(r.loc),
             "policy-locations", "uses of data");
        same(fmt("%zu", ps.maxPolicyDepth), fmt("%zu", r.depth),
             "policy-topology", "depth");
        same(fmt("%zu", ps.nbDistinctTeams), fmt("%zu", r.outs.size()),
             "policy-topology", "number of teams");
        same(mapText(ps.nbTPGVertexPerDepthLevel), mapText(r.level),
             "policy-topology", "vertices per level");
        std::ostringstream o;
        o << ps;
        same(plainNan(o.str()), statsText(r), "policy-text", "printed text");
        vp::count("operations");
    }
    void policies(const std::string& name, int teams, int minE, int maxE,
                  std::vector<int> allowed, bool two, bool cyclic = false)
    {
        vp::bound(name, fmt("all %s graphs of %d teams with %d to %d edges "
                            "to teams or 2 actions (same or distinct "
                            "identifiers), %zu programs; %s",
                            cyclic ? "(cyclic or not)" : "acyclic", teams, minE, maxE, allowed.size(),
                            two ? "every pair of successive analyses with one "
                                  "object"
                                : "every vertex analysed"));
        vp::explore(name, [=](Chooser& c) {
            Small s(cat(), false);
            bool sameId = c.pick(2);
            s.build(c, teams, minE, maxE, {3, sameId ? 3 : 1}, allowed, cyclic);
            vp::describe(s.shape);
            if (!two) {
                for (size_t v = 0; v < s.vert.size(); v++) {
                    TPG::PolicyStats ps;
                    ps.setEnvironment(*s.w.env);
                    ps.analyzePolicy(s.vert[v]);
                    compare(s, ps, reference(s, (int)v));
                }
            }
            else {
                // another environment was used before, or the same
                int v0 = c.pick((int)s.vert.size()),
                    v1 = c.pick((int)s.vert.size());
                TPG::PolicyStats ps;
                bool other = c.pick(2);
                if (other) {
                    World& o = wd::world("arrays");
                    auto p = std::make_shared<Program::Program>(*o.env);
                    auto all = o.lines(false);
                    wd::fill(*p, {{all[all.size() / 2]}, {}});
                    TPG::TPGGraph g(*o.env);
                    auto& t = g.addNewTeam();
                    g.addNewEdge(t, g.addNewAction(8), p);
                    ps.setEnvironment(*o.env);
                    ps.analyzePolicy(&t);
                    ps.clear();
                }
                ps.setEnvironment(*s.w.env);
                ps.analyzePolicy(s.vert[v0]);
                if (c.pick(2)) {
                    ps.clear();
                    ps.analyzePolicy(s.vert[v1]);
                    compare(s, ps, reference(s, v1));
                }
                else {
                    ps.clear();
                    TPG::PolicyStats cp(ps);
                    cp.analyzePolicy(s.vert[v1]);
                    compare(s, cp, reference(s, v1));
                }
            }
            vp::distinct("states", vp::digest(s.shape));
            vp::sample(s.shape);
        });
    }
    void largePolicies(const std::string& name, int teams, int width,
                       std::vector<int64_t> ids, int devs)
    {
        vp::bound(name, fmt("chains of %d teams of %d edges and %zu actions, 4 "
                            "patterns with at most %d destinations or "
                            "programs changed, every vertex analysed",
                            teams, width, ids.size(), devs));
        vp::ExploreOptions o;
        o.maxDev = devs;
        vp::explore(
            name,
            [=](Chooser& c) {
                Small s(cat(), false);
                s.pump(c, teams, width, ids);
                vp::describe(s.shape);
                for (size_t v = 0; v < s.vert.size(); v++) {
                    TPG::PolicyStats ps;
                    ps.setEnvironment(*s.w.env);
                    ps.analyzePolicy(s.vert[v]);
                    compare(s, ps, reference(s, (int)v));
                }
                vp::distinct("states", vp::digest(s.shape));
                vp::sample(s.shape);
            },
            o);
    }
    void checkProgram(World& w, const Prog& m, const std::string& wn)
    {
        auto p = std::make_shared<Program::Program>(*w.env);
        wd::fill(*p, m);
        TPG::PolicyStats ps;
        ps.setEnvironment(*w.env);
        ps.analyzeProgram(p.get());
        ps.analyzeProgram(p.get());
        Ref r;
        lineUses(w, m, r);
        same(mapText(ps.nbUsagePerInstruction), mapText(r.instr),
             "policy-lines", "uses of instructions by " + wd::text(m));
        same(mapText(ps.nbUsagePerDataLocation), mapText(r.loc),
             "policy-locations", "uses of data by " + wd::text(m));
        same(sorted(ps.nbLinesPerProgram), sorted(r.lines), "policy-lines",
             "lines of " + wd::text(m));
        same(sorted(ps.nbIntronPerProgram), sorted(r.introns),
             "policy-lines", "introns of " + wd::text(m));
        VP_CHECK(ps.nbUsePerProgram.size() == 1 &&
                     ps.nbUsePerProgram.begin()->second == 2,
                 "policy-uses", "a program analysed twice counts %zu",
                 ps.nbUsePerProgram.begin()->second);
        vp::count("operations");
        vp::distinct("states", vp::digest(wn + wd::text(m)));
    }
    void longPrograms(int n)
    {
        World& w = wd::world("large");
        std::string name = fmt("programs-long-%d", n);
        vp::bound(name, fmt("4 patterns of programs of %d lines over 70 "
                            "registers and 13 instructions of up to 5 "
                            "operands, with at most one change of any line",
                            n));
        vp::ExploreOptions o;
        o.maxDev = 1;
        vp::explore(
            name,
            [&, n](Chooser& c) {
                checkProgram(w, wd::pickLong(c, w, n), "long");
            },
            o);
    }
    void programs(const std::string& wn, size_t nbLines, bool raw)
    {
        World& w = wd::world(wn);
        auto all = w.lines(raw);
        std::vector<L> lines;
        for (auto& l : all)
            if (w.valid(l))
                lines.push_back(l);
        std::string name = fmt("programs-%s-%zu", wn.c_str(), nbLines);
        vp::bound(name, fmt("every program of %zu lines over %zu lines of "
                            "the world %s",
                            nbLines, lines.size(), wn.c_str()));
        vp::explore(name, [&, nbLines](Chooser& c) {
            Prog m;
            for (size_t i = 0; i < nbLines; i++)
                m.l.push_back(lines[c.pick((int)lines.size())]);
            for (size_t i = 0; i < w.consts; i++)
                m.c.push_back((int)i + 1);
            vp::describe(wd::text(m));
            checkProgram(w, m, wn);
        });
    }

    // ------------------------------------------------ statistics of runs
    struct Inference
    {
        int root;
        std::vector<int> edges; // followed
    };
    struct Counts
    {
        uint64_t teams = 0, progs = 0, lines = 0;
        std::map<uint64_t, uint64_t> instr;
    };
    Counts countsOf(const Small& s, const Inference& i)
    {
        Counts k;
        for (int e : i.edges) {
            k.teams++;
            for (int f : s.out(s.edges[e].src)) {
                k.progs++;
                auto& p = s.models[s.edges[f].prog];
                k.lines += p.l.size(); // introns are counted as well
                for (auto& l : p.l)
                    k.instr[l.i]++;
            }
        }
        return k;
    }
    std::vector<Vertex> vertices(const Small& s, const Inference& i)
    {
        std::vector<Vertex> r{s.vert[i.root]};
        for (int e : i.edges)
            r.push_back(s.vert[s.edges[e].dst]);
        return r;
    }
    Inference execute(Chooser& c, Small& s, TPG::TPGExecutionEngine& tee,
                      const std::vector<int>& roots, int nbData)
    {
        int r = roots[c.pick((int)roots.size())];
        int d = c.pick(nbData);
        s.w.load(d);
        Inference i{r, s.path(r)};
        if (s.action[r] < 0 && i.edges.empty())
            c.prune();
        vp::describe(fmt("execute(%d, data %d)", r, d));
        auto got = tee.executeFromRoot(*s.vert[r]);
        vp::count("operations");
        VP_CHECK(got == vertices(s, i), "inference",
                 "the path of an execution is wrong");
        return i;
    }
    bool close(double a, double b, double eps = 1e-12)
    {
        if (std::isnan(a) || std::isnan(b))
            return std::isnan(a) && std::isnan(b);
        return std::fabs(a - b) <= eps * std::max(1.0, std::fabs(b));
    }
    void compareRuns(const Small& s, const TPG::ExecutionStats& st,
                     const std::vector<Inference>& runs)
    {
        vp::count("operations");
        Counts total;
        std::map<size_t, size_t> dt, dp, dl;
        std::map<size_t, std::map<size_t, size_t>> di;
        std::map<Vertex, size_t> dv;
        auto& traces = st.getInferenceTracesStats();
        VP_CHECK(traces.size() == runs.size(), "run-traces",
                 "%zu traces instead of %zu", traces.size(), runs.size());
        for (size_t i = 0; i < runs.size(); i++) {
            Counts k = countsOf(s, runs[i]);
            auto& t = traces[i];
            VP_CHECK(t.trace == vertices(s, runs[i]), "run-traces",
                     "trace %zu has other vertices", i);
            VP_CHECK(t.nbEvaluatedTeams == k.teams &&
                         t.nbEvaluatedPrograms == k.progs &&
                         t.nbExecutedLines == k.lines,
                     "run-traces",
                     "trace %zu: %zu teams %zu programs %zu lines instead of "
                     "%zu %zu %zu",
                     i, (size_t)t.nbEvaluatedTeams,
                     (size_t)t.nbEvaluatedPrograms, (size_t)t.nbExecutedLines,
                     (size_t)k.teams, (size_t)k.progs, (size_t)k.lines);
            same(mapText(t.nbExecutionPerInstruction), mapText(k.instr),
                 "run-traces", fmt("instructions of trace %zu", i));
            dt[k.teams]++, dp[k.progs]++, dl[k.lines]++;
            for (auto& p : k.instr) {
                di[p.first][p.second]++;
                total.instr[p.first] += p.second;
            }
            for (auto v : vertices(s, runs[i]))
                dv[v]++;
            total.teams += k.teams;
            total.progs += k.progs;
            total.lines += k.lines;
        }
        same(mapText(st.getDistribEvaluatedTeams()), mapText(dt),
             "run-distributions", "teams per inference");
        same(mapText(st.getDistribEvaluatedPrograms()), mapText(dp),
             "run-distributions", "programs per inference");
        same(mapText(st.getDistribExecutedLines()), mapText(dl),
             "run-distributions", "lines per inference");
        VP_CHECK(st.getDistribNbExecutionPerInstruction() == di,
                 "run-distributions", "instructions per inference");
        VP_CHECK(st.getDistribUsedVertices() == dv, "run-distributions",
                 "uses of vertices");
        double n = (double)runs.size();
        auto avg = [&](double got, uint64_t want, const char* what) {
            VP_CHECK(close(got, (double)want / n), "run-averages",
                     "mean number of %s: %g instead of %g", what, got,
                     (double)want / n);
        };
        avg(st.getAvgEvaluatedTeams(), total.teams, "teams");
        avg(st.getAvgEvaluatedPrograms(), total.progs, "programs");
        avg(st.getAvgExecutedLines(), total.lines, "lines");
        auto ai = st.getAvgNbExecutionPerInstruction();
        VP_CHECK(ai.size() == total.instr.size(), "run-averages",
                 "%zu instructions instead of %zu", ai.size(),
                 total.instr.size());
        for (auto& p : total.instr) {
            VP_CHECK(ai.count(p.first), "run-averages",
                     "no mean for instruction %zu", (size_t)p.first);
            avg(ai[p.first], p.second, "an instruction");
        }
    }
    void compareJson(const Small& s, const TPG::ExecutionStats& st,
                     const std::vector<Inference>& runs, bool noIndent)
    {
        std::string f = scratch + fmt("/stats-%d.json", (int)getpid());
        st.writeStatsToJson(f.c_str(), noIndent);
        std::ifstream in(f);
        Json::Value j;
        Json::CharReaderBuilder b;
        std::string err;
        VP_CHECK(Json::parseFromStream(b, in, &j, &err), "json",
                 "the file cannot be read: %s", err.c_str());
        vp::count("operations");
        auto& e = j["ExecutionStats"];
        auto avg = [&](const Json::Value& v, double want) {
            VP_CHECK(runs.empty() ? !v.isNumeric() || std::isnan(v.asDouble())
                                  : v.isNumeric() && close(v.asDouble(), want,
                                                           1e-4),
                     "json", "a mean is written as %s instead of %g",
                     v.toStyledString().c_str(), want);
        };
        avg(e["avgEvaluatedTeams"], st.getAvgEvaluatedTeams());
        avg(e["avgEvaluatedPrograms"], st.getAvgEvaluatedPrograms());
        avg(e["avgExecutedLines"], st.getAvgExecutedLines());
        for (auto& p : st.getAvgNbExecutionPerInstruction())
            avg(e["avgNbExecutionPerInstruction"][std::to_string(p.first)],
                p.second);
        auto table = [&](const Json::Value& v,
                         const std::map<size_t, size_t>& want) {
            VP_CHECK(v.size() == want.size(), "json",
                     "a distribution has %zu entries instead of %zu",
                     (size_t)v.size(), want.size());
            for (auto& p : want)
                VP_CHECK(v[std::to_string(p.first)].asUInt64() == p.second,
                         "json", "a distribution has a wrong entry");
        };
        table(e["distributionEvaluatedTeams"], st.getDistribEvaluatedTeams());
        table(e["distributionEvaluatedPrograms"],
              st.getDistribEvaluatedPrograms());
        table(e["distributionExecutedLines"], st.getDistribExecutedLines());
        auto& di = st.getDistribNbExecutionPerInstruction();
        VP_CHECK(e["distributionNbExecutionPerInstruction"].size() == di.size(),
                 "json", "wrong number of instructions");
        for (auto& p : di)
            table(e["distributionNbExecutionPerInstruction"]
                   [std::to_string(p.first)],
                  p.second);
        std::map<size_t, size_t> used;
        auto all = s.g->getVertices();
        auto index = [&](Vertex v) {
            return (size_t)(std::find(all.begin(), all.end(), v) - all.begin());
        };
        for (auto& p : st.getDistribUsedVertices())
            used[index(p.first)] = p.second;
        table(e["distributionUsedVertices"], used);
        auto& t = j["TracesStats"];
        VP_CHECK(t.size() == runs.size(), "json", "%zu traces instead of %zu",
                 (size_t)t.size(), runs.size());
        for (size_t i = 0; i < runs.size(); i++) {
            auto& x = t[std::to_string(i)];
            Counts k = countsOf(s, runs[i]);
            VP_CHECK(x["nbEvaluatedTeams"].asUInt64() == k.teams &&
                         x["nbEvaluatedPrograms"].asUInt64() == k.progs &&
                         x["nbExecutedLines"].asUInt64() == k.lines,
                     "json", "trace %zu has other numbers", i);
            std::map<size_t, size_t> ki(k.instr.begin(), k.instr.end());
            table(x["nbExecutionPerInstruction"], ki);
            auto v = vertices(s, runs[i]);
            VP_CHECK(x["trace"].size() == v.size(), "json",
                     "trace %zu has another length", i);
            for (size_t q = 0; q < v.size(); q++)
                VP_CHECK(x["trace"][(Json::ArrayIndex)q].asUInt64() ==
                             index(v[q]),
                         "json", "trace %zu has other vertices", i);
        }
        unlink(f.c_str());
    }
    void runs(const std::string& name, int teams, int maxE, int nbProgs,
              int first, int second, int nbData, bool cyclic = false, int pump = 0)
    {
        vp::bound(name,
                  fmt("%s of %d teams with %s%d "
                      "edges, 3 actions, %d programs; every sequence of up to %d "
                      "executions from any root (actions included) on %d data, "
                      "analysis, up to %d more executions with or without "
                      "reset, second analysis",
                      pump     ? "chains (4 patterns with at most one change)"
                      : cyclic ? "all instrumented graphs (cyclic or not, for "
                                 "the walks which end)"
                               : "all instrumented acyclic graphs",
                      teams, pump ? "" : "1 to ", maxE, nbProgs, first, nbData,
                      second));
        vp::ExploreOptions o;
        o.maxDev = pump;
        vp::explore(name, [=](Chooser& c) {
            Small s(cat(), true);
            std::vector<int> al;
            for (int i = 0; i < nbProgs; i++)
                al.push_back(i);
            if (pump)
                s.pump(c, teams, maxE, {3, 1, 1});
            else
                s.build(c, teams, 1, maxE,
                    cyclic ? std::vector<int64_t>{3, 1}
                           : std::vector<int64_t>{3, 1, 1},
                    al, cyclic);
            vp::describe(s.shape);
            TPG::TPGInstrumentedFactory f;
            auto tee = f.createTPGExecutionEngine(*s.w.env);
            auto& ti =
                dynamic_cast<TPG::TPGExecutionEngineInstrumented&>(*tee);
            auto roots = s.roots();
            if (roots.empty())
                c.prune();
            std::vector<Inference> done;
            TPG::ExecutionStats st;
            int n = c.pick(first + 1);
            for (int i = 0; i < n; i++)
                done.push_back(execute(c, s, *tee, roots, nbData));
            st.analyzeExecution(ti, s.g.get());
            compareRuns(s, st, done);
            if (c.pick(2)) {
                vp::describe("reset");
                f.resetTPGGraphCounters(*s.g);
                ti.clearTraceHistory();
                done.clear();
            }
            int m = c.pick(second + 1);
            for (int i = 0; i < m; i++)
                done.push_back(execute(c, s, *tee, roots, nbData));
            st.analyzeExecution(ti, s.g.get());
            compareRuns(s, st, done);
            // once for every graph and first sequence of executions
            if (vp::opt.thorough() || m == 0)
                compareJson(s, st, done, n % 2);
            vp::distinct("states", vp::digest(s.shape));
            vp::sample(s.shape + fmt("%zu inferences", done.size()));
        }, o);
    }
    void statistics()
    {
        bool T = vp::opt.thorough();
        policies("policies-1", 1, 0, 3, {0, 1, 2, 3, 4, 5}, false);
        policies("policies-2", 2, 0, 2, {0, 2, 3, 4}, false);
        policies("policies-3", 3, 1, 2, T ? std::vector<int>{0, 2, 4}
                                          : std::vector<int>{0, 2},
                 false);
        policies("successive", 2, 0, T ? 2 : 1, {0, 2, 3}, true);
        for (auto wn : {"double", "typed", "arrays", "wrappers", "constants"}) {
            programs(wn, 1, true);
            programs(wn, 2, false);
        }
        if (T)
            programs("small", 3, false);
        runs("runs-1", 1, T ? 3 : 2, 3, 2, 1, T ? 5 : 4);
        runs("runs-2", 2, 2, 2, T ? 2 : 1, 1, T ? 3 : 2);
        runs("runs-cyclic", 2, 2, 2, 1, T ? 1 : 0, T ? 4 : 3, true);
        if (T)
            runs("runs-cyclic-3", 3, 2, 2, 1, 0, 2, true);
        largePolicies("policies-large", 8, 3, {3, 1, 3, 12}, 1);
        largePolicies("policies-wide", 2, 12, {0, 1, 2, 3, 4, 5, 6, 0},
                      T ? 2 : 1);
        for (int n : {12, 67})
            longPrograms(n);
        runs("runs-large", 7, 3, 6, 2, 1, 2, false, 1);
        policies("policies-cyclic", 2, 0, T ? 3 : 2, {0, 2}, false, true);
    }

    // ================================================================= C24
    void pruning(const std::string& name, int teams, int maxE, int nbProgs,
                 int first, int second, int nbData, bool instrumented,
                 bool cyclic = false, int pump = 0)
    {
        vp::bound(name,
                  fmt("%s %s graphs of %d teams with %s%d edges, 2 "
                      "actions, %d programs; every sequence of up to %d "
                      "executions from any vertex on %d data, removal of unused "
                      "elements, the same executions again, up to %d others "
                      "with or without reset, second removal",
                      pump     ? "(chains, 4 patterns with at most one change)"
                      : cyclic ? "all (cyclic or not)"
                               : "all acyclic",
                      instrumented ? "instrumented" : "plain", teams,
                      pump ? "" : "1 to ", maxE, nbProgs, first, nbData,
                      second));
        vp::ExploreOptions o;
        o.maxDev = pump;
        vp::explore(name, [=](Chooser& c) {
            Small s(cat(), instrumented);
            std::vector<int> al;
            for (int i = 0; i < nbProgs; i++)
                al.push_back(i);
            if (pump)
                s.pump(c, teams, maxE, {3, 1});
            else
                s.build(c, teams, 1, maxE, {3, 1}, al, cyclic);
            vp::describe(s.shape);
            TPG::TPGInstrumentedFactory f;
            if (!instrumented) {
                TPG::TPGFactory pf;
                auto tee = pf.createTPGExecutionEngine(*s.w.env);
                std::vector<int> any;
                for (size_t v = 0; v < s.vert.size(); v++)
                    any.push_back((int)v);
                for (int i = c.pick(first + 1); i > 0; i--)
                    execute(c, s, *tee, any, nbData);
                std::string before = gg::graphText(*s.g);
                f.clearUnusedTPGGraphElements(*s.g);
                f.resetTPGGraphCounters(*s.g);
                VP_CHECK(gg::graphText(*s.g) == before, "plain-graph",
                         "elements of a graph without counters are removed");
                vp::count("operations");
                vp::distinct("states", vp::digest(s.shape));
                return;
            }
            auto tee = f.createTPGExecutionEngine(*s.w.env);
            std::vector<uint64_t> visits(s.vert.size()), eval(s.edges.size()),
                trav(s.edges.size());
            auto counters = [&](const char* when) {
                for (size_t v = 0; v < s.vert.size(); v++)
                    if (s.vert[v]) {
                        auto* x =
                            dynamic_cast<const TPG::TPGVertexInstrumentation*>(
                                s.vert[v]);
                        VP_CHECK(x && x->getNbVisits() == visits[v], "counters",
                                 "%s: vertex %zu visited %zu times counts %zu",
                                 when, v, (size_t)visits[v],
                                 (size_t)(x ? x->getNbVisits() : 0));
                    }
                for (size_t e = 0; e < s.edges.size(); e++)
                    if (s.edges[e].real) {
                        auto* x = dynamic_cast<const TPG::TPGEdgeInstrumented*>(
                            s.edges[e].real);
                        VP_CHECK(x && x->getNbVisits() == eval[e] &&
                                     x->getNbTraversal() == trav[e],
                                 "counters",
                                 "%s: edge %zu evaluated %zu times and chosen "
                                 "%zu times counts %zu and %zu",
                                 when, e, (size_t)eval[e], (size_t)trav[e],
                                 (size_t)(x ? x->getNbVisits() : 0),
                                 (size_t)(x ? x->getNbTraversal() : 0));
                    }
            };
            // executions: root, data
            std::vector<std::pair<int, int>> asked;
            std::vector<std::vector<Vertex>> answers;
            auto run = [&](int r, int d) {
                s.w.load(d);
                Inference i{r, s.path(r)};
                if (s.action[r] < 0 && i.edges.empty())
                    c.prune();
                auto got = tee->executeFromRoot(*s.vert[r]);
                vp::count("operations");
                VP_CHECK(got == vertices(s, i), "inference",
                         "the path of an execution is wrong");
                visits[r]++;
                for (int e : i.edges) {
                    for (int q : s.out(s.edges[e].src))
                        eval[q]++;
                    trav[e]++;
                    visits[s.edges[e].dst]++;
                }
                return got;
            };
            auto some = [&](int n) {
                for (; n > 0; n--) {
                    std::vector<int> any;
                    for (size_t v = 0; v < s.vert.size(); v++)
                        if (s.vert[v])
                            any.push_back((int)v);
                    if (any.empty())
                        return;
                    int r = any[c.pick((int)any.size())], d = c.pick(nbData);
                    vp::describe(fmt("execute(%d, data %d)", r, d));
                    asked.push_back({r, d});
                    answers.push_back(run(r, d));
                }
            };
            auto prune = [&] {
                // references are taken in the order of the graph
                auto vs = s.g->getVertices();
                std::vector<Vertex> wantV;
                for (auto v : vs) {
                    size_t k = std::find(s.vert.begin(), s.vert.end(), v) -
                               s.vert.begin();
                    if (visits[k])
                        wantV.push_back(v);
                }
                std::vector<const TPG::TPGEdge*> wantE;
                for (auto& e : s.g->getEdges())
                    for (size_t k = 0; k < s.edges.size(); k++)
                        if (s.edges[k].real == e.get() && trav[k])
                            wantE.push_back(e.get());
                f.clearUnusedTPGGraphElements(*s.g);
                vp::count("operations");
                vp::describe("clearUnused");
                auto gv = s.g->getVertices();
                VP_CHECK(gv == wantV, "pruned-vertices",
                         "%zu vertices are left instead of %zu, or others",
                         gv.size(), wantV.size());
                std::vector<const TPG::TPGEdge*> ge;
                for (auto& e : s.g->getEdges())
                    ge.push_back(e.get());
                VP_CHECK(ge == wantE, "pruned-edges",
                         "%zu edges are left instead of %zu, or others",
                         ge.size(), wantE.size());
                for (size_t v = 0; v < s.vert.size(); v++)
                    if (!visits[v])
                        s.vert[v] = nullptr;
                std::vector<GEdge> left;
                std::vector<uint64_t> le, lt;
                for (size_t e = 0; e < s.edges.size(); e++)
                    if (trav[e]) {
                        left.push_back(s.edges[e]);
                        le.push_back(eval[e]);
                        lt.push_back(trav[e]);
                    }
                s.edges = left;
                eval = le;
                trav = lt;
                // structure
                for (size_t v = 0; v < s.vert.size(); v++)
                    if (s.vert[v]) {
                        std::vector<const TPG::TPGEdge*> o, i, wo;
                        for (auto e : s.vert[v]->getOutgoingEdges())
                            o.push_back(e);
                        for (int e : s.out((int)v))
                            wo.push_back(s.edges[e].real);
                        VP_CHECK(o == wo, "pruned-edges",
                                 "a vertex has other outgoing edges");
                        size_t in = 0;
                        for (auto& e : s.edges)
                            in += e.dst == (int)v;
                        VP_CHECK(s.vert[v]->getIncomingEdges().size() == in,
                                 "pruned-edges",
                                 "a vertex has other incoming edges");
                    }
                counters("after the removal");
            };
            auto again = [&] {
                auto q = asked;
                for (size_t i = 0; i < q.size(); i++) {
                    auto got = run(q[i].first, q[i].second);
                    VP_CHECK(got == answers[i], "pruned-answer",
                             "an execution done before the removal gives "
                             "another path after it");
                }
                counters("after more executions");
            };
            some(c.pick(first + 1));
            counters("after executions");
            prune();
            again();
            if (c.pick(2)) {
                vp::describe("reset");
                f.resetTPGGraphCounters(*s.g);
                std::fill(visits.begin(), visits.end(), 0);
                std::fill(eval.begin(), eval.end(), 0);
                std::fill(trav.begin(), trav.end(), 0);
                counters("after a reset");
                asked.clear();
                answers.clear();
            }
            some(c.pick(second + 1));
            prune();
            again();
            vp::distinct("states", vp::digest(s.shape));
            vp::sample(s.shape + fmt("%zu edges left", s.edges.size()));
        }, o);
    }
    void unused()
    {
        bool T = vp::opt.thorough();
        pruning("plain", 2, 2, 2, 1, 0, 2, false);
        pruning("one-team", 1, 3, T ? 3 : 2, 2, 1, T ? 5 : 4, true);
        pruning("two-teams", 2, 2, 2, 2, T ? 1 : 0, T ? 4 : 3, true);
        pruning("three-teams", 3, T ? 2 : 1, T ? 1 : 2, 1, 1, T ? 2 : 3, true);
        pruning("large", 8, 3, 6, 1, T ? 1 : 0, 2, true, false, 1);
        pruning("cyclic", 2, 2, 2, 1, T ? 1 : 0, T ? 4 : 3, true, true);
    }

    // ================================================================= C25
    struct Setup
    {
        std::unique_ptr<gg::ISet> iset = gg::basicSet();
        Script script;
        Env le;
        Learn::LearningParameters p;
        Learn::LearningAgent la;
        Setup(const Learn::LearningParameters& pa,
              const TPG::TPGFactory& f = TPG::TPGFactory())
            : le(2, script), p(pa), la(le, iset->set, p, f)
        {
        }
    };
    size_t occurrences(const std::string& s, const std::string& t)
    {
        size_t n = 0, p = 0;
        while ((p = s.find(t, p)) != std::string::npos)
            n++, p += t.size();
        return n;
    }
    bool hasCycle(const std::vector<std::vector<int>>& adj)
    {
        // remove vertices without successor repeatedly
        std::vector<bool> gone(adj.size());
        bool more = true;
        while (more) {
            more = false;
            for (size_t i = 0; i < adj.size(); i++)
                if (!gone[i] && std::all_of(adj[i].begin(), adj[i].end(),
                                            [&](int j) { return gone[j]; }))
                    gone[i] = more = true;
        }
        return std::count(gone.begin(), gone.end(), false) != 0;
    }
    // One logger follows a larger graph while an edge is added, moved and
    // removed.
    void largeCycles(const std::string& name, int teams)
    {
        vp::bound(name, fmt("%d teams in one, two or three chains, with or "
                            "without a shorter way around each team; one "
                            "additional edge between any two teams, then "
                            "another from one of two teams to any team, then "
                            "none: one logger for the three graphs",
                            teams));
        vp::explore(name, [=](Chooser& c) {
            static std::unique_ptr<Setup> st;
            if (!st)
                st.reset(new Setup(params(2, 0.5)));
            Setup& s = *st;
            auto g = s.la.getTPGGraph();
            g->clear();
            auto prog =
                std::make_shared<Program::Program>(g->getEnvironment());
            int chains = 1 + c.pick(3), around = c.pick(2), rev = c.pick(2);
            std::vector<Vertex> v;
            std::vector<std::vector<int>> adj(teams + 2);
            for (int i = 0; i < teams; i++)
                v.push_back(&g->addNewTeam());
            for (int i = 0; i < 2; i++)
                v.push_back(&g->addNewAction(i));
            if (rev) // the roots are created last
                std::reverse(v.begin(), v.begin() + teams);
            auto add = [&](int a, int b) -> const TPG::TPGEdge& {
                adj[a].push_back(b);
                return g->addNewEdge(*v[a], *v[b], prog);
            };
            for (int i = 0; i < teams; i++) {
                add(i, teams + i % 2);
                if (i + chains < teams)
                    add(i, i + chains);
                if (around && i + 2 * chains < teams)
                    add(i, i + 2 * chains);
            }
            auto verdict = [&](Log::CycleDetectionLALogger& lg,
                               std::ostringstream& os, bool success,
                               const char* when) {
                bool cyclic = hasCycle(adj);
                os.str("");
                lg.logAfterPopulateTPG();
                std::string t = os.str();
                VP_CHECK(occurrences(t, "A cycle was detected") ==
                                 (cyclic ? 1 : 0) &&
                             occurrences(t, "No cycle detected") ==
                                 (!cyclic && success ? 1 : 0),
                         "cycle-verdict", "%s: %s graph (success logged: "
                         "%d): \"%s\"", when, cyclic ? "cyclic" : "acyclic",
                         (int)success, t.c_str());
                vp::count("operations");
            };
            bool success = c.pick(2);
            std::ostringstream os;
            Log::CycleDetectionLALogger lg(s.la, os, success);
            verdict(lg, os, success, "before");
            int a = c.pick(teams), b = c.pick(teams);
            vp::describe(fmt("%d chains, around %d, %d>%d ", chains, around, a,
                             b));
            auto& e = add(a, b);
            verdict(lg, os, success, "with the edge");
            g->removeEdge(e);
            adj[a].pop_back();
            int a2 = c.pick(2) ? teams - 1 : teams / 2,
                b2 = (a + b * 3) % teams;
            vp::describe(fmt("%d>%d ", a2, b2));
            auto& f = add(a2, b2);
            verdict(lg, os, success, "with another edge");
            g->removeEdge(f);
            adj[a2].pop_back();
            verdict(lg, os, success, "after");
            vp::distinct("states", vp::mix(a * 64 + b, chains * 4 + around * 2 +
                                                           rev));
        });
    }
    void cycles(const std::string& name, int teams, int actions,
                int parallel = 1)
    {
        vp::bound(name, fmt("every graph of %d teams and %d actions with at "
                            "most %d edge(s) between two vertices, self loops "
                            "included",
                            teams, actions, parallel));
        vp::ExploreOptions o;
        o.splitDepth = 6;
        vp::explore(
            name,
            [=](Chooser& c) {
                static std::unique_ptr<Setup> st;
                if (!st)
                    st.reset(new Setup(params(2, 0.5)));
                Setup& s = *st;
                auto g = s.la.getTPGGraph();
                g->clear();
                auto prog =
                    std::make_shared<Program::Program>(g->getEnvironment());
                std::vector<Vertex> v;
                std::string shape;
                for (int i = 0; i < teams; i++)
                    v.push_back(&g->addNewTeam());
                for (int i = 0; i < actions; i++)
                    v.push_back(&g->addNewAction(i));
                std::vector<std::vector<int>> adj(v.size());
                for (int i = 0; i < teams; i++)
                    for (size_t j = 0; j < v.size(); j++)
                        for (int k = c.pick(parallel + 1); k > 0; k--) {
                            adj[i].push_back((int)j);
                            g->addNewEdge(*v[i], *v[j], prog);
                            shape += fmt("%d>%zu ", i, j);
                        }
                vp::describe(shape);
                bool cyclic = hasCycle(adj);
                for (bool success : {false, true}) {
                    std::ostringstream os;
                    static std::map<std::ostream*, int> keep;
                    Log::CycleDetectionLALogger lg(s.la, os, success);
                    lg.logAfterPopulateTPG();
                    std::string t = os.str();
                    size_t bad = occurrences(t, "A cycle was detected"),
                           ok = occurrences(t, "No cycle detected");
                    VP_CHECK(bad == (cyclic ? 1 : 0) &&
                                 ok == (!cyclic && success ? 1 : 0),
                             "cycle-verdict",
                             "%s graph %s (success logged: %d): \"%s\"",
                             cyclic ? "cyclic" : "acyclic", shape.c_str(),
                             (int)success, t.c_str());
                    vp::count("operations");
                }
                vp::distinct("states", vp::digest(shape));
            },
            o);
    }
    std::string two(double d)
    {
        std::ostringstream o;
        o << std::fixed << std::setprecision(2) << d;
        std::string s = o.str();
        return std::isnan(d) ? "nan" : s;
    }
    std::vector<std::string> words(const std::string& s)
    {
        std::istringstream i(s);
        std::vector<std::string> r;
        std::string w;
        while (i >> w)
            r.push_back(w);
        return r;
    }
    std::vector<std::string> split(const std::string& s)
    {
        std::istringstream i(s);
        std::vector<std::string> r;
        std::string w;
        while (std::getline(i, w))
            r.push_back(w);
        return r;
    }
    void basic(const std::string& name, int gens, size_t nbRoots,
               std::vector<double> ratios, std::vector<double> values,
               int maxDev, bool patterns = false)
    {
        vp::bound(name,
                  fmt("%d generations of %zu roots, %zu ratios of removed roots, "
                      "with and without validation, scores of the policies "
                      "over %zu values%s",
                      gens, nbRoots, ratios.size(), values.size(),
                      patterns ? ", in 6 orders, from generation 0, 995 or "
                                 "1234560"
                      : maxDev ? fmt(", %d different from the first", maxDev)
                                   .c_str()
                               : ""));
        vp::ExploreOptions o;
        o.maxDev = maxDev;
        vp::explore(
            name,
            [=](Chooser& c) {
                auto p = params(nbRoots, ratios[c.pick((int)ratios.size())]);
                p.doValidation = c.pick(2);
                p.nbGenerations = gens;
                Setup s(p);
                std::map<LearningMode, std::vector<double>> sc;
                std::string text;
                const uint64_t starts[] = {0, 995, 1234560};
                uint64_t g0 = patterns ? starts[c.pick(3)] : 0;
                int pat = patterns ? c.pick(6) : 0;
                uint64_t calls = 0;
                s.script.score = [&] {
                    if (patterns) {
                        calls++;
                        size_t n = values.size();
                        size_t k = pat == 0   ? calls % n
                                   : pat == 1 ? n - 1 - calls % n
                                   : pat == 2 ? calls / 5 % n
                                   : pat == 3 ? calls * 7 % n
                                   : pat == 4 ? calls * calls % n
                                              : calls % 11 == 0;
                        return values[k];
                    }
                    int k = maxDev ? c.pickDev((int)values.size(), 0)
                                   : c.pick((int)values.size());
                    text += fmt("%g ", values[k]);
                    return values[k];
                };
                std::ostringstream os;
                Log::LABasicLogger lg(s.la, os);
                size_t nbVert = 0;
                Mon mon(s.la);
                mon.onPopulate = [&] {
                    nbVert = s.la.getTPGGraph()->getVertices().size();
                };
                auto note = [&](LearningMode m, gg::Results& r) {
                    auto& v = sc[m];
                    for (auto& x : r)
                        v.push_back(x.first->getResult());
                };
                mon.onEvaluate = [&](gg::Results& r) {
                    note(LearningMode::TRAINING, r);
                };
                mon.onValidate = [&](gg::Results& r) {
                    note(LearningMode::VALIDATION, r);
                };
                s.la.init(3);
                auto head = split(os.str());
                size_t cols = p.doValidation ? 12 : 8;
                VP_CHECK(head.size() == 2 &&
                             words(head[1]).size() == cols &&
                             words(head[0]).size() == (p.doValidation ? 2 : 1),
                         "log-header", "the header has other columns: %s",
                         os.str().c_str());
                for (uint64_t g = g0; g < g0 + gens; g++) {
                    sc.clear();
                    os.str("");
                    s.la.trainOneGeneration(g);
                    vp::count("operations");
                    auto rows = split(os.str());
                    VP_CHECK(rows.size() == 1, "log-row", "%zu rows",
                             rows.size());
                    auto w = words(rows[0]);
                    vp::describe(rows[0]);
                    VP_CHECK(w.size() == cols, "log-row",
                             "%zu columns instead of %zu: %s", w.size(), cols,
                             rows[0].c_str());
                    VP_CHECK(rows[0].size() == cols * 9, "log-row",
                             "columns are not aligned: %s", rows[0].c_str());
                    std::vector<std::string> want{std::to_string(g),
                                                  std::to_string(nbVert)};
                    auto stats = [&](std::vector<double> v) {
                        if (v.empty()) {
                            for (int i = 0; i < 3; i++)
                                want.push_back("nan");
                            return;
                        }
                        std::sort(v.begin(), v.end());
                        double t = 0;
                        for (auto d : v)
                            t += d;
                        want.push_back(two(v.front()));
                        want.push_back(two(t / (double)v.size()));
                        want.push_back(two(v.back()));
                    };
                    stats(sc[LearningMode::TRAINING]);
                    if (p.doValidation)
                        stats(sc[LearningMode::VALIDATION]);
                    for (size_t i = 0; i < want.size(); i++)
                        VP_CHECK(plainNan(w[i]) == want[i], "log-row",
                                 "column %zu is %s instead of %s: %s", i,
                                 w[i].c_str(), want[i].c_str(),
                                 rows[0].c_str());
                    for (size_t i = want.size(); i < cols; i++)
                        VP_CHECK(atof(w[i].c_str()) >= 0 &&
                                     atof(w[i].c_str()) < 100,
                                 "log-row", "a duration is %s", w[i].c_str());
                    vp::distinct("states", vp::digest(text + rows[0].substr(0, 45)));
                }
                vp::sample(text);
            },
            o);
    }
    void bestPolicies(const std::string& name, int len, int maxDev,
                      bool longer = false)
    {
        if (longer)
            vp::bound(name, fmt("%d generations of 6 roots, 6 orders of "
                                "scores, three ratios, with or without a new "
                                "initialisation and a reduction to the best "
                                "policy, three policies of reuse of freed "
                                "vertices", len));
        else
            vp::bound(name, fmt("every history of %d operations (generation, new "
                            "initialisation, best policy only, unrelated "
                            "vertex added), ratios 0.5 and 1, three policies "
                            "of reuse of freed vertices, scores over 3 values%s",
                            len,
                            maxDev ? fmt(", %d different from the first",
                                         maxDev)
                                         .c_str()
                                   : ""));
        vp::ExploreOptions o;
        o.maxDev = maxDev;
        vp::explore(
            name,
            [=](Chooser& c) {
                for (size_t n = 0; n < 512; n++) {
                    for (void* p : freed(n))
                        ::operator delete(p);
                    freed(n).clear();
                }
                reuse = (Reuse)c.pick(3);
                const double ratios[] = {0.5, 1.0, 0.2};
                auto p = params(longer ? 6 : 2, ratios[c.pick(longer ? 3 : 2)]);
                int pat = longer ? c.pick(6) : 0;
                bool again = longer && c.pick(2), keep = longer && c.pick(2);
                uint64_t calls = 0;
                Setup s(p, Factory());
                s.script.score = [&] {
                    const double v[] = {1.5, 4, -2};
                    if (longer) {
                        calls++;
                        return pat == 0   ? (double)calls
                               : pat == 1 ? -(double)calls * 0.25
                               : pat == 2 ? (double)(calls % 7) / 3
                               : pat == 3 ? (double)(calls / 20 % 3)
                               : pat == 4 ? (double)(calls * 37 % 101) * 1e4
                                          : v[calls * calls % 3];
                    }
                    return v[maxDev ? c.pickDev(3, 0) : c.pick(3)];
                };
                std::ostringstream os;
                Log::LAPolicyStatsLogger lg(s.la, os);
                std::string want;
                Vertex last = nullptr;
                uint64_t gen = 0;
                Mon mon(s.la);
                mon.onDecimate = [&] {
                    auto b = s.la.getBestRoot();
                    if (b.first && b.first != last) {
                        std::ostringstream w;
                        w << "Generation " << gen << " - Score "
                          << b.second->getResult() << "\n\n";
                        TPG::PolicyStats ps;
                        ps.setEnvironment(s.la.getEnvironment());
                        ps.analyzePolicy(b.first);
                        w << ps << "\n\n\n==========\n\n";
                        want += w.str();
                    }
                    last = b.first;
                };
                s.la.init(1);
                for (int i = 0; i < len; i++) {
                    int op = i == 0 ? 0
                             : longer ? (again && i == len / 2 ? 1
                                         : keep && i == len * 2 / 3 ? 2
                                                                    : 0)
                                      : c.pick(3);
                    if (op == 0) {
                        auto roots = s.la.getTPGGraph()->getRootVertices();
                        if (std::none_of(roots.begin(), roots.end(), isTeam))
                            last = nullptr; // starts again from scratch
                        s.la.trainOneGeneration(gen);
                        vp::describe("generation");
                        gen++;
                    }
                    else if (op == 1) {
                        s.la.init(c.pick(2) + 1);
                        vp::describe("init");
                        last = nullptr;
                    }
                    else {
                        if (s.la.getBestRoot().first)
                            s.la.keepBestPolicy();
                        vp::describe("keep best");
                    }
                    vp::count("operations");
                    if (os.str() != want) {
                        size_t d = 0;
                        std::string a = os.str();
                        while (d < a.size() && d < want.size() &&
                               a[d] == want[d])
                            d++;
                        vp::fail("log-best",
                                 fmt("%zu best policies are logged instead of "
                                     "%zu, from \"%s\" instead of \"%s\"",
                                     occurrences(a, "=========="),
                                     occurrences(want, "=========="),
                                     a.substr(d, 40).c_str(),
                                     want.substr(d, 40).c_str()));
                    }
                    vp::distinct("states", vp::digest(want));
                }
                vp::sample(fmt("%zu logged", occurrences(want, "==========")));
            },
            o);
    }
    void loggers()
    {
        bool T = vp::opt.thorough();
        cycles("cycles-2", 2, 1);
        cycles("cycles-3", 3, 1);
        if (T)
            cycles("cycles-4", 4, 1);
        else
            cycles("cycles-4", 4, 0);
        basic("rows", 1, 3, {0.0, 0.34, 1.0}, {1.5, -20.25, 0.125}, 0);
        basic("rows-many", 3, T ? 4 : 3, {0.0, 0.5, 1.0},
              {1.5, -20.25, 99999, 0.004}, T ? 3 : 2);
        bestPolicies("best", T ? 5 : 4, T ? 3 : 2);
        cycles("cycles-parallel", 2, 2, 2);
        cycles("cycles-parallel-3", 3, 0, 2);
        largeCycles("cycles-large", 13);
        basic("rows-long", T ? 40 : 22, 12, {0.0, 0.3, 0.8},
              {1.5, -20.25, 99999, 0.004, 7e-9, -1234.5678, 3}, 0, true);
        bestPolicies("best-long", T ? 40 : 18, 0, true);
    }
} // namespace

void vp_main()
{
    char d[] = "/tmp/vp-stats-XXXXXX";
    scratch = mkdtemp(d);
    if (vp::opt.prop == "C23")
        statistics();
    else if (vp::opt.prop == "C24")
        unused();
    else
        loggers();
    if (DIR* dir = opendir(scratch.c_str())) {
        while (dirent* e = readdir(dir))
            if (e->d_name[0] != '.')
                unlink((scratch + "/" + e->d_name).c_str());
        closedir(dir);
    }
    rmdir(scratch.c_str());
}
