// C16: graphs saved in dot files and imported back. C17: parameter files.
#include "world.h"
#include <deque>
#include <file/parametersParser.h>
#include <file/tpgGraphDotExporter.h>
#include <file/tpgGraphDotImporter.h>
#include <fstream>
#include <iostream>
#include <sys/stat.h>
#include <unistd.h>
using vp::Chooser;
using vp::fmt;

namespace {
    std::string dir;
    std::string path(const std::string& n)
    {
        return dir + "/" + fmt("%d.", (int)getpid()) + n;
    }
    std::string slurp(const std::string& p)
    {
        std::ifstream f(p, std::ios::binary);
        std::ostringstream o;
        o << f.rdbuf();
        return o.str();
    }
    void spit(const std::string& p, const std::string& s)
    {
        std::ofstream f(p, std::ios::binary);
        f << s;
    }

    // ------------------------------------------------------------- graphs
    // What must survive: teams in order, the edges of each team in order, the
    // order of all edges, action ids, which edges share a program, contents.
    std::string keyOf(const TPG::TPGVertex* v,
                      const std::map<const TPG::TPGVertex*, int>& team)
    {
        if (auto a = dynamic_cast<const TPG::TPGAction*>(v))
            return "A" + std::to_string(a->getActionID());
        auto it = team.find(v);
        return it == team.end() ? "?" : "T" + std::to_string(it->second);
    }
    std::string describeGraph(const std::vector<const TPG::TPGVertex*>& teams,
                              const std::vector<const TPG::TPGEdge*>& edges,
                              const std::set<uint64_t>& actions)
    {
        std::map<const TPG::TPGVertex*, int> t;
        for (auto v : teams)
            t.emplace(v, (int)t.size());
        std::map<const Program::Program*, int> p;
        std::ostringstream o;
        o << teams.size() << " teams, actions";
        for (auto a : actions)
            o << " " << a;
        o << "; ";
        for (auto e : edges) {
            auto& q = e->getProgram();
            bool n = p.emplace(&q, (int)p.size()).second;
            o << keyOf(e->getSource(), t) << ">p" << p[&q] << ">"
              << keyOf(e->getDestination(), t) << " ";
            if (n) {
                o << "{";
                for (size_t i = 0; i < q.getNbLines(); i++)
                    o << (q.isIntron(i) ? "~" : "");
                o << gg::programText(q, true) << "} ";
            }
        }
        for (auto v : teams) {
            o << keyOf(v, t) << "[";
            for (auto e : v->getOutgoingEdges())
                o << keyOf(e->getDestination(), t) << "p"
                  << (p.count(&e->getProgram()) ? p[&e->getProgram()] : -1) << " ";
            o << "]" << v->getIncomingEdges().size() << " ";
        }
        return o.str();
    }
    std::string wholeGraph(const TPG::TPGGraph& g)
    {
        std::vector<const TPG::TPGVertex*> teams;
        std::set<uint64_t> actions;
        for (auto v : g.getVertices())
            if (auto a = dynamic_cast<const TPG::TPGAction*>(v))
                actions.insert(a->getActionID());
            else
                teams.push_back(v);
        std::vector<const TPG::TPGEdge*> edges;
        for (auto& e : g.getEdges())
            edges.push_back(e.get());
        return describeGraph(teams, edges, actions);
    }
    // what is reachable from a root; incoming edges restricted to it
    std::string subGraph(const TPG::TPGGraph& g, const TPG::TPGVertex* root)
    {
        std::vector<const TPG::TPGVertex*> teams;
        std::set<uint64_t> actions;
        std::vector<const TPG::TPGEdge*> edges;
        std::deque<const TPG::TPGVertex*> q{root};
        std::set<const TPG::TPGVertex*> seen{root};
        while (!q.empty()) {
            auto v = q.front();
            q.pop_front();
            if (auto a = dynamic_cast<const TPG::TPGAction*>(v)) {
                actions.insert(a->getActionID());
                continue;
            }
            teams.push_back(v);
            for (auto e : v->getOutgoingEdges()) {
                edges.push_back(e);
                if (seen.insert(e->getDestination()).second)
                    q.push_back(e->getDestination());
            }
        }
        std::string s = describeGraph(teams, edges, actions);
        // incoming edges within the sub graph only
        std::map<const TPG::TPGVertex*, int> n;
        for (auto e : edges)
            n[e->getDestination()]++;
        std::ostringstream o;
        std::map<const TPG::TPGVertex*, int> t;
        for (auto v : teams)
            t.emplace(v, (int)t.size());
        for (auto v : teams)
            o << keyOf(v, t) << ":" << n[v] << " ";
        size_t at = s.find("T0[");
        return (at == std::string::npos ? s : s.substr(0, at)) + o.str();
    }
    // same text for a whole imported graph
    std::string importedAsSub(const TPG::TPGGraph& g)
    {
        std::string s = wholeGraph(g);
        std::ostringstream o;
        int k = 0;
        for (auto v : g.getVertices())
            if (dynamic_cast<const TPG::TPGTeam*>(v))
                o << "T" << k++ << ":" << v->getIncomingEdges().size() << " ";
        size_t at = s.find("T0[");
        return (at == std::string::npos ? s : s.substr(0, at)) + o.str();
    }
    void wellFormed(const TPG::TPGGraph& g)
    {
        std::set<const TPG::TPGVertex*> v;
        for (auto x : g.getVertices())
            v.insert(x);
        for (auto& e : g.getEdges()) {
            VP_CHECK(v.count(e->getSource()) && v.count(e->getDestination()) &&
                         e->getProgramSharedPointer(),
                     "import-malformed", "an imported edge is not connected");
            auto& o = e->getSource()->getOutgoingEdges();
            auto& i = e->getDestination()->getIncomingEdges();
            VP_CHECK(std::count(o.begin(), o.end(), e.get()) == 1 &&
                         std::count(i.begin(), i.end(), e.get()) == 1,
                     "import-malformed", "an imported edge is not registered");
        }
    }

    const wd::World& cw()
    {
        return wd::world("constants");
    }
    // programs of the graphs
    std::shared_ptr<wd::P> poolProgram(int k)
    {
        auto& w = cw();
        auto p = std::make_shared<wd::P>(*w.env);
        wd::Prog m;
        m.c = {k * 7 - 3, -k, 100 + k};
        // k lines, the first of which may be an intron
        for (int i = 0; i < k % 3; i++)
            m.l.push_back({(uint64_t)((i + k) % 2), (uint64_t)(i ? 0 : k % 2),
                           {{(uint64_t)((i + k) % 2 ? 1 : 0), (uint64_t)i},
                            {1, (uint64_t)(k % 3)}}});
        if (k % 3 == 0 && k)
            m.l.push_back({0, 0, {{2, 0}, {1, 2}}});
        wd::fill(*p, m);
        return p;
    }
    const uint64_t ids[] = {3, 5000000000ULL};

    struct Tpg
    {
        TPG::TPGGraph g;
        Tpg() : g(*cw().env)
        {
        }
    };
    void roundTrip(const TPG::TPGGraph& g, File::TPGGraphDotExporter* ex = nullptr,
                   const std::string& file = "g.dot")
    {
        std::string p = path(file);
        if (ex)
            ex->print();
        else {
            File::TPGGraphDotExporter e(p.c_str(), g);
            e.print();
        }
        TPG::TPGGraph i(*cw().env);
        i.addNewAction(77); // must disappear
        try {
            File::TPGGraphDotImporter imp(p.c_str(), *cw().env, i);
        }
        catch (std::exception& e) {
            vp::fail("import-throws", std::string("importing an exported graph throws: ") + e.what());
        }
        vp::count("imports");
        wellFormed(i);
        std::string a = wholeGraph(g), b = wholeGraph(i);
        vp::distinct("graphs", vp::digest(a));
        if (a != b)
            vp::fail("round-trip", "the imported graph differs\n  exported: " + a + "\n  imported: " + b);
    }
    void subTrip(const TPG::TPGGraph& g, const TPG::TPGVertex* root)
    {
        std::string p = path("s.dot");
        {
            File::TPGGraphDotExporter e(p.c_str(), g);
            e.printSubGraph(root);
        }
        TPG::TPGGraph i(*cw().env);
        try {
            File::TPGGraphDotImporter imp(p.c_str(), *cw().env, i);
        }
        catch (std::exception& e) {
            vp::fail("import-throws", std::string("importing an exported sub graph throws: ") + e.what());
        }
        vp::count("imports");
        wellFormed(i);
        std::string a = subGraph(g, root), b = importedAsSub(i);
        vp::distinct("graphs", vp::digest("sub " + a));
        if (a != b)
            vp::fail(dynamic_cast<const TPG::TPGAction*>(root) ? "sub-graph-action" : "sub-graph",
                     "the imported sub graph differs\n  exported: " + a + "\n  imported: " + b);
    }

    void shapes()
    {
        bool th = vp::opt.thorough();
        int maxEdges = th ? 4 : 3;
        vp::explore("shapes", [&](Chooser& c) {
            Tpg t;
            int sh = c.pick(th ? 5 : 4);
            const int T[] = {1, 2, 2, 3, 3}, A[] = {2, 1, 2, 1, 2};
            bool first = c.pick(2);
            std::vector<const TPG::TPGVertex*> teams, all;
            auto acts = [&] {
                for (int i = 0; i < A[sh]; i++)
                    all.push_back(&t.g.addNewAction(ids[i]));
            };
            if (first)
                acts();
            for (int i = 0; i < T[sh]; i++)
                teams.push_back(&t.g.addNewTeam());
            if (!first)
                acts();
            all.insert(all.end(), teams.begin(), teams.end());
            vp::describe(fmt("%d teams and %d actions (%s); ", T[sh], A[sh], first ? "first" : "last"));
            std::vector<std::shared_ptr<wd::P>> progs;
            int n = c.pick(maxEdges + 1);
            if (!th && n == 3 && (first || T[sh] == 3))
                c.prune();
            for (int k = 0; k < n; k++) {
                int s = c.pick((int)teams.size()), d = c.pick((int)all.size()),
                    p = c.pick((int)progs.size() + 1);
                if (p == (int)progs.size())
                    progs.push_back(poolProgram(k));
                vp::describe(fmt("edge of team %d to %s by program %d; ", s,
                                 vp::fmt("vertex %d", d).c_str(), p));
                t.g.addNewEdge(*teams[s], *all[d], progs[p]);
            }
            roundTrip(t.g);
            if (n <= 2 || th)
                for (auto v : t.g.getRootVertices())
                    subTrip(t.g, v);
        }, {.splitDepth = 4});
        vp::bound("graphs", fmt("1-3 teams, 1-2 actions created before or after the teams, every list of up to %d edges with every sharing of programs (quick: the longest only with up to 2 teams)", maxEdges));
    }

    void programTrip(wd::World& w, const wd::Prog& m)
    {
        TPG::TPGGraph g(*w.env);
        auto& t = g.addNewTeam();
        auto& a = g.addNewAction(1);
        auto p = std::make_shared<wd::P>(*w.env);
        wd::fill(*p, m);
        vp::describe(wd::text(m));
        g.addNewEdge(t, a, p);
        std::string f = path("p.dot");
        {
            File::TPGGraphDotExporter e(f.c_str(), g);
            e.print();
        }
        TPG::TPGGraph i(*w.env);
        try {
            File::TPGGraphDotImporter imp(f.c_str(), *w.env, i);
        }
        catch (std::exception& e) {
            vp::fail("import-throws", std::string("importing an exported program throws: ") + e.what());
        }
        vp::count("imports");
        std::string x = wholeGraph(g), y = wholeGraph(i);
        vp::distinct("graphs", vp::digest(x));
        if (x != y)
            vp::fail("program-round-trip", "the imported program differs\n  exported: " + x + "\n  imported: " + y);
    }
    // chains of teams with several edges and long programs, with few changes
    void large()
    {
        bool th = vp::opt.thorough();
        wd::World& w = wd::world("large");
        for (int n : {12, 67})
            vp::explore(fmt("long-%d", n), [&](Chooser& c) { programTrip(w, wd::pickLong(c, w, n)); },
                        {.maxDev = 1, .splitDepth = 2});
        vp::bound("long", "4 patterns of programs of 12 and 67 lines over 70 registers, 12 constants and 13 instructions of up to 5 operands, with at most one change of a line");
        for (auto dim : {std::pair<int, int>{9, 3}, {2, 30}})
            vp::explore(fmt("large-%d-%d", dim.first, dim.second), [&](Chooser& c) {
                Tpg t;
                std::vector<const TPG::TPGVertex*> teams, all;
                int pat = c.pick(4);
                const int A = 12;
                auto acts = [&] {
                    for (int i = 0; i < A; i++)
                        all.push_back(&t.g.addNewAction(i * 5 % 12 + (i == 7 ? 4294967296ULL : 0)));
                };
                if (pat % 2)
                    acts();
                for (int i = 0; i < dim.first; i++)
                    teams.push_back(&t.g.addNewTeam());
                if (pat % 2 == 0)
                    acts();
                all.insert(all.end(), teams.begin(), teams.end());
                bool changed = false;
                std::vector<std::shared_ptr<wd::P>> progs;
                for (int i = 0; i < 14; i++)
                    progs.push_back(poolProgram(i));
                vp::describe(fmt("%d teams of %d edges, pattern %d; ", dim.first, dim.second, pat));
                int V = (int)all.size();
                for (int i = 0; i < dim.first; i++)
                    for (int k = 0; k < dim.second; k++) {
                        int d = k % 4 == 0 ? A + (i + 1) % dim.first : pat < 2 ? (i + k * k) % A : (i * 3 + k) % V;
                        int p = pat == 0 ? 3 : (i * dim.second + k) % 14;
                        int x = c.pickDev(dim.second > 3 && k % 8 && !th ? 1 : th ? 1 + V + 14 : 5, 0);
                        if (x && th) {
                            if (x > V)
                                p = x - V - 1;
                            else
                                d = x - 1;
                        }
                        else if (x == 1)
                            p = 13 - p;
                        else if (x)
                            d = x == 2 ? A + i : x == 3 ? (d + 1) % A : A;
                        if (x)
                            changed = true;
                        if (x)
                            vp::describe(fmt("edge %d of team %d to vertex %d by program %d; ", k, i, d, p));
                        t.g.addNewEdge(*teams[i], *all[d], progs[p]);
                    }
                roundTrip(t.g);
                if (!changed || th)
                    for (auto v : teams)
                        subTrip(t.g, v);
            }, {.maxDev = 1, .splitDepth = 2});
        vp::bound("large", "9 teams of 3 edges and 2 teams of 30 edges, 12 actions, 14 programs, 4 patterns with at most one destination or program changed");
    }

    // every line of several environments
    void programs()
    {
        for (const char* wn : {"double", "typed", "arrays", "wrappers", "constants"}) {
            wd::World& w = wd::world(wn);
            auto lines = w.lines(true);
            size_t n = lines.size();
            bool th = vp::opt.thorough();
            // quick: many lines per program
            size_t per = th ? 1 : 24;
            vp::explore(std::string("lines-") + wn, [&](Chooser& c) {
                size_t k = c.pick((int)((n + per - 1) / per));
                wd::Prog m;
                for (size_t i = k * per; i < std::min(n, (k + 1) * per); i++)
                    m.l.push_back(lines[i]);
                const int cs[] = {INT32_MIN, INT32_MAX, -1, 0};
                for (size_t i = 0; i < w.consts; i++)
                    m.c.push_back(cs[(i + k) % 4]);
                programTrip(w, m);
            }, {.splitDepth = 1});
        }
        // sizes: programs of up to the default maximum size and beyond, with
        // long and short lines
        vp::explore("sizes", [&](Chooser& c) {
            static std::unique_ptr<gg::ISet> is;
            static std::unique_ptr<Data::PrimitiveTypeArray<double>> big;
            static std::unique_ptr<Environment> env;
            if (!env) {
                is.reset(new gg::ISet);
                is->add<Instructions::AddPrimitiveType<double>>();
                is->add<Instructions::LambdaInstruction<double, double, double, double>>(
                    [](double a, double b, double x, double y) { return a + b * x - y; });
                big.reset(new Data::PrimitiveTypeArray<double>(250 * 400));
                env.reset(new Environment(is->set, {*big}, 8, 0));
            }
            const int sizes[] = {0, 1, 2, 40, 60, 90, 95, 96, 97, 200};
            int n = sizes[c.pick(10)];
            const uint64_t from[] = {0, 33000, 65450, 99000};
            uint64_t far = from[c.pick(4)];
            TPG::TPGGraph g(*env);
            auto& t = g.addNewTeam();
            auto& a = g.addNewAction(1);
            auto p = std::make_shared<wd::P>(*env);
            wd::Prog m;
            for (int i = 0; i < n; i++) {
                uint64_t o = far ? far + i : i % 8;
                m.l.push_back({1, (uint64_t)(i % 8), {{1, o}, {1, o + 1}, {1, o}, {1, o + 100}}});
            }
            wd::fill(*p, m);
            vp::describe(fmt("%d lines of 4 operands in a 250x400 image (addresses from %zu)", n, (size_t)far));
            g.addNewEdge(t, a, p);
            std::string f = path("z.dot");
            {
                File::TPGGraphDotExporter e(f.c_str(), g);
                e.print();
            }
            TPG::TPGGraph i(*env);
            try {
                File::TPGGraphDotImporter imp(f.c_str(), *env, i);
            }
            catch (std::exception& e) {
                vp::fail("import-long", std::string("importing an exported program throws: ") + e.what());
            }
            vp::count("imports");
            if (wholeGraph(g) != wholeGraph(i))
                vp::fail("import-long", "the imported program differs");
        }, {.splitDepth = 2});
        vp::bound("programs", "every line of five environments (alone in thorough, by groups in quick), extreme constants, 0-200 lines of 4 operands with addresses up to 99300");
    }

    // histories of changes, exports and imports with the same objects
    void histories()
    {
        int depth = vp::opt.thorough() ? 5 : 3;
        vp::explore("histories", [&](Chooser& c) {
            Tpg t;
            auto& g = t.g;
            const TPG::TPGVertex* a = &g.addNewAction(4);
            const TPG::TPGVertex* b = &g.addNewAction(9);
            auto t0 = &g.addNewTeam(), t1 = &g.addNewTeam();
            auto p0 = poolProgram(1), p1 = poolProgram(2);
            g.addNewEdge(*t1, *a, p0);
            g.addNewEdge(*t0, *a, p0);
            g.addNewEdge(*t0, *t1, p1);
            g.addNewEdge(*t1, *b, poolProgram(3));
            std::string p = path("h.dot"), q = path("h2.dot");
            File::TPGGraphDotExporter ex(p.c_str(), g);
            std::unique_ptr<File::TPGGraphDotImporter> imp;
            TPG::TPGGraph i(*cw().env);
            bool onQ = false;
            std::string last[2]; // expected content
            {
                // the other file holds a graph numbered in another way
                ex.print();
                last[0] = wholeGraph(g);
                TPG::TPGGraph o(*cw().env);
                auto& u0 = o.addNewTeam();
                auto& u1 = o.addNewTeam();
                auto& b0 = o.addNewAction(9);
                auto& b1 = o.addNewAction(4);
                auto& b2 = o.addNewAction(2);
                o.addNewEdge(u1, b2, poolProgram(3));
                o.addNewEdge(u0, b1, p1);
                o.addNewEdge(u0, b0, p0);
                o.addNewEdge(u1, u0, p1);
                File::TPGGraphDotExporter eo(q.c_str(), o);
                eo.print();
                last[1] = wholeGraph(o);
            }
            for (int k = 0; k < depth; k++) {
                int op = c.pick(11);
                auto vs = g.getVertices();
                auto es = [&](size_t n) -> const TPG::TPGEdge* {
                    if (g.getEdges().size() <= n)
                        c.prune();
                    auto it = g.getEdges().begin();
                    std::advance(it, n);
                    return it->get();
                };
                std::vector<const TPG::TPGTeam*> teams;
                for (auto v : vs)
                    if (auto x = dynamic_cast<const TPG::TPGTeam*>(v))
                        teams.push_back(x);
                switch (op) {
                case 0: // export
                    vp::describe("export; ");
                    ex.setNewFilePath(onQ ? q.c_str() : p.c_str());
                    ex.print();
                    last[onQ] = wholeGraph(g);
                    break;
                case 1:
                    vp::describe("other file; ");
                    onQ = !onQ;
                    ex.setNewFilePath(onQ ? q.c_str() : p.c_str());
                    last[onQ] = "";
                    break;
                case 2:
                    vp::describe("remove a vertex; ");
                    if (vs.size() < 2)
                        c.prune();
                    g.removeVertex(*vs[c.pick((int)std::min<size_t>(vs.size(), 4))]);
                    break;
                case 3:
                    vp::describe("remove an edge; ");
                    g.removeEdge(*es(c.pick(4)));
                    break;
                case 4: {
                    vp::describe("clone a team; ");
                    if (teams.empty())
                        c.prune();
                    g.cloneVertex(*teams[c.pick((int)std::min<size_t>(teams.size(), 2))]);
                    break;
                }
                case 5: {
                    auto e = es(c.pick(4));
                    vp::describe("new destination; ");
                    auto d = vs[c.pick((int)std::min<size_t>(vs.size(), 4))];
                    g.setEdgeDestination(*e, *d);
                    break;
                }
                case 6: {
                    vp::describe("new program; ");
                    auto e = es(c.pick(4));
                    e->setProgram(poolProgram(4 + k));
                    break;
                }
                case 7: {
                    vp::describe("add a team and edges; ");
                    auto& n = g.addNewTeam();
                    g.addNewEdge(n, *vs[0], poolProgram(7));
                    break;
                }
                case 8: {
                    vp::describe("add an edge like another to a team; ");
                    if (teams.empty())
                        c.prune();
                    auto& n = g.cloneEdge(*es(c.pick(3)));
                    g.setEdgeSource(n, *teams.back());
                    break;
                }
                case 9: {
                    // import what was exported so far with the same importer
                    int w = c.pick(2);
                    if (last[w].empty())
                        c.prune();
                    vp::describe("import; ");
                    try {
                        if (!imp)
                            imp.reset(new File::TPGGraphDotImporter(w ? q.c_str() : p.c_str(), *cw().env, i));
                        else {
                            imp->setNewFilePath(w ? q.c_str() : p.c_str());
                            imp->importGraph();
                        }
                    }
                    catch (std::exception& e) {
                        vp::fail("history-import", std::string("import throws: ") + e.what());
                    }
                    vp::count("imports");
                    wellFormed(i);
                    if (wholeGraph(i) != last[w])
                        vp::fail("history-import", "the imported graph differs\n  exported: " + last[w] + "\n  imported: " + wholeGraph(i));
                    break;
                }
                default: {
                    vp::describe("wrong paths; ");
                    bool threw = false;
                    if (imp) {
                        try {
                            imp->setNewFilePath((dir + "/none/x").c_str());
                        }
                        catch (std::runtime_error&) {
                            threw = true;
                        }
                        VP_CHECK(threw, "wrong-path", "importing a missing file does not throw");
                    }
                    threw = false;
                    try {
                        ex.setNewFilePath((dir + "/none/x").c_str());
                    }
                    catch (std::runtime_error&) {
                        threw = true;
                    }
                    VP_CHECK(threw, "wrong-path", "exporting in a missing directory does not throw");
                    // a valid path must be accepted afterwards
                    ex.setNewFilePath(onQ ? q.c_str() : p.c_str());
                    last[onQ] = "";
                }
                }
                vp::count("operations");
            }
            // with new objects: only the current graph matters
            if (vp::distinct("final_graphs", vp::digest(wholeGraph(g))))
                roundTrip(g);
        }, {.splitDepth = 3});
        vp::bound("histories", fmt("%d changes, exports, imports and changes of file with the same exporter and importer", depth));
    }

    // an interrupted export: every prefix of the file
    void torn()
    {
        vp::explore("torn", [&](Chooser& c) {
            int which = c.pick(vp::opt.thorough() ? 3 : 2);
            bool sub = c.pick(2);
            static std::map<int, std::pair<std::string, std::string>> cache;
            auto& e = cache[which * 2 + sub];
            if (e.first.empty()) {
                Tpg t;
                auto& a = t.g.addNewAction(12);
                auto& t0 = t.g.addNewTeam();
                auto p = poolProgram(2);
                t.g.addNewEdge(t0, a, p);
                const TPG::TPGVertex* root = &t0;
                if (which) {
                    auto& t1 = t.g.addNewTeam();
                    t.g.addNewEdge(t1, a, p);
                    t.g.addNewEdge(t1, t0, poolProgram(4));
                    if (which > 1)
                        t.g.addNewAction(13);
                    root = &t1;
                }
                std::string f = path("t.dot");
                {
                    File::TPGGraphDotExporter x(f.c_str(), t.g);
                    if (sub)
                        x.printSubGraph(root);
                    else
                        x.print();
                }
                e.first = slurp(f);
                e.second = sub ? subGraph(t.g, root) : wholeGraph(t.g);
            }
            size_t len = c.pick((int)e.first.size() + 1);
            std::string f = path("u.dot");
            spit(f, e.first.substr(0, len));
            vp::describe(fmt("file %d truncated to %zu of %zu bytes", which * 2 + sub, len, e.first.size()));
            TPG::TPGGraph i(*cw().env);
            bool threw = false;
            try {
                File::TPGGraphDotImporter imp(f.c_str(), *cw().env, i);
            }
            catch (std::exception& ex) {
                threw = true;
            }
            vp::count("imports");
            vp::count(threw ? "torn_rejected" : "torn_accepted");
            wellFormed(i);
            if (!threw) {
                std::string b = sub ? importedAsSub(i) : wholeGraph(i);
                if (b != e.second)
                    vp::fail("torn-accepted", "an incomplete file is imported without error\n  exported: " + e.second + "\n  imported: " + b + "\n  last line: " + e.first.substr(0, len).substr(e.first.substr(0, len).rfind('\n') + 1));
            }
        }, {.splitDepth = 3});
        vp::bound("interrupted exports", "every prefix of the files of two (thorough: three) graphs and sub graphs");
        // damaged lines: never anything worse than an exception
        vp::explore("damaged", [&](Chooser& c) {
            static std::vector<std::string> lines;
            if (lines.empty()) {
                Tpg t;
                auto& a = t.g.addNewAction(12);
                auto& t0 = t.g.addNewTeam();
                auto& t1 = t.g.addNewTeam();
                auto p = poolProgram(2);
                t.g.addNewEdge(t0, a, p);
                t.g.addNewEdge(t1, a, p);
                t.g.addNewEdge(t1, t0, poolProgram(4));
                std::string f = path("d.dot");
                {
                    File::TPGGraphDotExporter x(f.c_str(), t.g);
                    x.print();
                }
                std::istringstream is(slurp(f));
                std::string l;
                while (std::getline(is, l))
                    lines.push_back(l);
            }
            auto ls = lines;
            int n = (int)ls.size();
            int what = c.pick(4), k = c.pick(n);
            vp::describe(fmt("line %d: ", k));
            if (what == 0) {
                vp::describe("missing");
                ls.erase(ls.begin() + k);
            }
            else if (what == 1) {
                vp::describe("repeated");
                auto l = ls[k];
                ls.insert(ls.begin() + k, l);
            }
            else if (what == 2) {
                int j = c.pick(n);
                vp::describe(fmt("exchanged with %d", j));
                std::swap(ls[k], ls[j]);
            }
            else {
                // the content of a program is not validated
                if (ls[k].empty() || ls[k].find("label=\"0|") != std::string::npos || ls[k].find("label=\"1|") != std::string::npos)
                    c.prune();
                int at = c.pick((int)ls[k].size());
                const char* to = "9|x";
                ls[k][at] = to[c.pick(vp::opt.thorough() ? 3 : 2)];
                vp::describe("altered: " + ls[k]);
            }
            std::string s;
            for (auto& l : ls)
                s += l + "\n";
            std::string f = path("e.dot");
            spit(f, s);
            TPG::TPGGraph i(*cw().env);
            try {
                File::TPGGraphDotImporter imp(f.c_str(), *cw().env, i);
            }
            catch (std::exception& ex) {
                vp::count("damaged_rejected");
            }
            vp::count("imports");
            wellFormed(i);
            wholeGraph(i);
        }, {.splitDepth = 3});
        vp::bound("damaged files", "every missing, repeated or exchanged line and every altered character (except in the text of programs) of one file");
    }
    void c16()
    {
        shapes();
        programs();
        large();
        histories();
        torn();
    }
} // namespace
void c17();
void vp_main()
{
    char t[] = "/tmp/vp-files-XXXXXX";
    dir = mkdtemp(t);
    static std::ofstream null("/dev/null");
    std::cerr.rdbuf(null.rdbuf());
    if (vp::opt.prop == "C16")
        c16();
    else
        c17();
    if (system(("rm -rf " + dir).c_str())) {
    }
}

namespace {
    using LP = Learn::LearningParameters;
    struct Field
    {
        std::string name;
        const char* group; // "", "tpg" or "prog"
        char kind;         // u unsigned, i signed, r real, b boolean
        std::function<void(LP&, double, uint64_t)> set;
        std::function<std::string(const LP&)> get;
    };
    std::vector<Field> fields()
    {
        std::vector<Field> f;
#define U(n, g, m)                                                             \
    f.push_back({n, g, 'u', [](LP& p, double, uint64_t v) { p.m = v; },        \
                 [](const LP& p) { return std::to_string(p.m); }})
#define R(n, g, m)                                                             \
    f.push_back({n, g, 'r', [](LP& p, double v, uint64_t) { p.m = v; },        \
                 [](const LP& p) { return gg::num(p.m); }})
#define I(n, g, m)                                                             \
    f.push_back({n, g, 'i',                                                    \
                 [](LP& p, double, uint64_t v) { p.m = (int32_t)v; },          \
                 [](const LP& p) { return std::to_string(p.m); }})
#define B(n, g, m)                                                             \
    f.push_back({n, g, 'b', [](LP& p, double, uint64_t v) { p.m = v; },        \
                 [](const LP& p) { return std::to_string(p.m); }})
        U("archiveSize", "", archiveSize);
        R("archivingProbability", "", archivingProbability);
        U("nbIterationsPerPolicyEvaluation", "", nbIterationsPerPolicyEvaluation);
        U("maxNbActionsPerEval", "", maxNbActionsPerEval);
        R("ratioDeletedRoots", "", ratioDeletedRoots);
        U("nbGenerations", "", nbGenerations);
        U("maxNbEvaluationPerPolicy", "", maxNbEvaluationPerPolicy);
        U("nbIterationsPerJob", "", nbIterationsPerJob);
        U("nbRegisters", "", nbRegisters);
        U("nbProgramConstant", "", nbProgramConstant);
        U("nbThreads", "", nbThreads);
        B("doValidation", "", doValidation);
        U("nbActions", "tpg", mutation.tpg.nbActions);
        U("nbRoots", "tpg", mutation.tpg.nbRoots);
        U("maxInitOutgoingEdges", "tpg", mutation.tpg.maxInitOutgoingEdges);
        U("maxOutgoingEdges", "tpg", mutation.tpg.maxOutgoingEdges);
        R("pEdgeDeletion", "tpg", mutation.tpg.pEdgeDeletion);
        R("pEdgeAddition", "tpg", mutation.tpg.pEdgeAddition);
        R("pProgramMutation", "tpg", mutation.tpg.pProgramMutation);
        B("forceProgramBehaviorChangeOnMutation", "tpg", mutation.tpg.forceProgramBehaviorChangeOnMutation);
        R("pEdgeDestinationChange", "tpg", mutation.tpg.pEdgeDestinationChange);
        R("pEdgeDestinationIsAction", "tpg", mutation.tpg.pEdgeDestinationIsAction);
        U("maxProgramSize", "prog", mutation.prog.maxProgramSize);
        R("pDelete", "prog", mutation.prog.pDelete);
        R("pAdd", "prog", mutation.prog.pAdd);
        R("pMutate", "prog", mutation.prog.pMutate);
        R("pSwap", "prog", mutation.prog.pSwap);
        R("pConstantMutation", "prog", mutation.prog.pConstantMutation);
        I("minConstValue", "prog", mutation.prog.minConstValue);
        I("maxConstValue", "prog", mutation.prog.maxConstValue);
        return f;
    }
    const std::vector<Field>& F()
    {
        static auto f = fields();
        return f;
    }
    std::string all(const LP& p)
    {
        std::string s;
        for (auto& f : F())
            s += f.name + "=" + f.get(p) + " ";
        return s;
    }
    const uint64_t US[] = {0, 1, 7, 1000000, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000ULL, (1ULL << 53) + 1, UINT64_MAX};
    const int32_t IS[] = {0, 1, -1, -100, 77, INT32_MAX, INT32_MIN};
    const double RS[] = {0, 1, 0.5, 0.05, 0.1, 0.999999, 0.123456, 1e-6, 0.000123};
    int nbValues(const Field& f)
    {
        return f.kind == 'u' ? 10 : f.kind == 'i' ? 7 : f.kind == 'r' ? 9 : 2;
    }
    std::string setValue(const Field& f, LP& p, int k)
    {
        f.set(p, RS[k % 9], f.kind == 'u' ? US[k % 10] : f.kind == 'i' ? (uint64_t)(int64_t)IS[k % 7] : k % 2);
        return f.get(p);
    }
    // values which differ from the default ones and from one another
    LP strange(int salt)
    {
        LP p;
        for (size_t i = 0; i < F().size(); i++) {
            auto& f = F()[i];
            double r = 0.01 * (double)(i + 1 + salt * 40);
            f.set(p, r, f.kind == 'b' ? !atoi(f.get(p).c_str()) : 10 + i + salt * 40);
        }
        return p;
    }
    void readInto(const std::string& f, LP& p)
    {
        try {
            File::ParametersParser::loadParametersFromJson(f.c_str(), p);
        }
        catch (std::exception& e) {
            vp::fail("param-throws", std::string("reading a parameter file throws: ") + e.what());
        }
        vp::count("imports");
    }
} // namespace
void c17()
{
    static std::ofstream null("/dev/null");
    std::cout.flush();
    int n = (int)F().size();
    vp::explore("write-read", [&](Chooser& c) {
        LP p = strange(0);
        int a = c.pick(n), va = c.pick(nbValues(F()[a]));
        setValue(F()[a], p, va);
        int b = c.pick(n + 1);
        if (b <= a && b < n)
            c.prune();
        if (b < n) {
            int nv = nbValues(F()[b]);
            setValue(F()[b], p, c.pick(nv));
        }
        std::string f = path("w.json");
        File::ParametersParser::writeParametersToJson(f.c_str(), p);
        LP q = strange(1);
        readInto(f, q);
        vp::count("operations");
        vp::distinct("graphs", vp::digest(all(p)));
        VP_CHECK(all(p) == all(q), "param-round-trip", "written: %s\n  read: %s", all(p).c_str(), all(q).c_str());
    }, {.splitDepth = 2});
    vp::explore("single-keys", [&](Chooser& c) {
        // a file with at most two keys (one in the wrong place, unknown ones)
        LP q = strange(c.pick(2)), e = q;
        std::string text[3];
        bool twice = c.pick(2);
        int a = c.pick(n), va = c.pick(nbValues(F()[a]));
        auto put = [&](int k, int v, const char* group) {
            auto& f = F()[k];
            std::string val = setValue(f, e, v);
            if (f.kind == 'b')
                val = val == "1" ? "true" : "false";
            int g = !*group ? 0 : !strcmp(group, "tpg") ? 1 : 2;
            if (!text[g].empty())
                text[g] += ",\n";
            text[g] += "// a comment\n\"" + f.name + "\": " + val;
        };
        put(a, va, F()[a].group);
        if (twice) {
            int b = c.pick(n);
            if (b == a)
                c.prune();
            put(b, 1, F()[b].group);
        }
        bool unknown = c.pick(2);
        std::string s = "{ " + text[0];
        if (unknown)
            s += std::string(text[0].empty() ? "" : ", ") + "\"nothing\": 3, \"other\": {\"nbRoots\": 5}";
        if (!text[1].empty() || !text[2].empty()) {
            if (s.size() > 2)
                s += ", ";
            s += "\"mutation\": {";
            if (!text[1].empty())
                s += "\"tpg\": {" + text[1] + "}";
            if (!text[2].empty())
                s += std::string(text[1].empty() ? "" : ", ") + "\"prog\": {" + text[2] + "}";
            s += "}";
        }
        s += "}\n";
        vp::describe(s);
        std::string f = path("s.json");
        spit(f, s);
        readInto(f, q);
        vp::count("operations");
        VP_CHECK(all(q) == all(e), "param-keys", "expected: %s\n  read: %s", all(e).c_str(), all(q).c_str());
    }, {.splitDepth = 3});
    vp::bound("parameters", "30 parameters; every pair of parameters set to boundary values, written and read back over different values; files with one or two keys, comments and unknown keys");
    // interrupted writing: every prefix
    vp::explore("interrupted", [&](Chooser& c) {
        static std::string text, expected;
        int salt = 0;
        LP p = strange(salt);
        if (text.empty()) {
            std::string f = path("i.json");
            File::ParametersParser::writeParametersToJson(f.c_str(), p);
            text = slurp(f);
            expected = all(p);
        }
        int step = 1;
        int len = c.pick((int)text.size() / step + 1) * step;
        std::string f = path("j.json");
        spit(f, text.substr(0, len));
        vp::describe(fmt("%d of %zu bytes", len, text.size()));
        LP q = strange(1);
        std::string before = all(q);
        bool threw = false;
        auto* old = std::cout.rdbuf(null.rdbuf());
        try {
            File::ParametersParser::loadParametersFromJson(f.c_str(), q);
        }
        catch (std::exception&) {
            threw = true;
        }
        std::cout.rdbuf(old);
        vp::count("imports");
        vp::count("operations");
        vp::count(threw ? "torn_rejected" : all(q) == before ? "torn_ignored" : "torn_accepted");
        VP_CHECK(all(q) == before || all(q) == expected, "param-interrupted",
                 "an ill-formed file is announced as ignored but changes the parameters\n  before: %s\n  after: %s",
                 before.c_str(), all(q).c_str());
    }, {.splitDepth = 1});
    vp::bound("interrupted files", "every prefix of a parameter file");
    vp::explore("missing", [&](Chooser& c) {
        LP q = strange(0);
        std::string before = all(q);
        bool threw = false;
        try {
            File::ParametersParser::loadParametersFromJson((dir + "/no.json").c_str(), q);
        }
        catch (std::exception&) {
            threw = true;
        }
        VP_CHECK(threw && all(q) == before, "param-missing", "a missing file is not reported");
        vp::count("operations");
        vp::count("imports");
    });
}
