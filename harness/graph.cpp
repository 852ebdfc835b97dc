// C06: histories of graph operations against a reference model.
// C12: inference against a reference interpreter.
#include "gg.h"
#include "vp.h"
#include <functional>
#include <set>
#include <typeinfo>
using vp::Chooser;
using vp::fmt;

// ===================================================================== C06
namespace {
    struct MEdge
    {
        int id, src, dst, prog;
    };
    struct MVertex
    {
        int id;
        int action;           // -1: team
        std::vector<int> out; // edge ids, in order
        std::vector<int> in;
    };
    // the reference model: plain lists
    struct Model
    {
        std::vector<MVertex> vs;
        std::vector<MEdge> es;
        int nv = 0, ne = 0;
        MVertex* v(int id)
        {
            for (auto& x : vs)
                if (x.id == id)
                    return &x;
            return nullptr;
        }
        MEdge* e(int id)
        {
            for (auto& x : es)
                if (x.id == id)
                    return &x;
            return nullptr;
        }
        int add(int action)
        {
            vs.push_back({nv, action, {}, {}});
            return nv++;
        }
        static void drop(std::vector<int>& l, int x)
        {
            l.erase(std::remove(l.begin(), l.end(), x), l.end());
        }
        int edge(int s, int d, int p)
        {
            es.push_back({ne, s, d, p});
            v(s)->out.push_back(ne);
            v(d)->in.push_back(ne);
            return ne++;
        }
        void removeEdge(int id)
        {
            MEdge x = *e(id);
            drop(v(x.src)->out, id);
            drop(v(x.dst)->in, id);
            for (size_t i = 0; i < es.size(); i++)
                if (es[i].id == id) {
                    es.erase(es.begin() + i);
                    break;
                }
        }
        void removeVertex(int id)
        {
            MVertex x = *v(id);
            for (int k : x.in)
                removeEdge(k);
            for (int k : x.out)
                if (e(k))
                    removeEdge(k);
            for (size_t i = 0; i < vs.size(); i++)
                if (vs[i].id == id) {
                    vs.erase(vs.begin() + i);
                    break;
                }
        }
        // independent of the ids
        std::string text() const
        {
            std::map<int, int> vn, en;
            std::ostringstream o;
            for (auto& x : vs) {
                int k = (int)vn.size();
                vn[x.id] = k;
                o << (x.action < 0 ? "T" : "A" + std::to_string(x.action))
                  << " ";
            }
            for (auto& x : es) {
                int k = (int)en.size();
                en[x.id] = k;
                o << vn[x.src] << ">" << vn[x.dst] << "p" << x.prog << " ";
            }
            for (auto& x : vs) {
                o << "[";
                for (int k : x.out)
                    o << en[k] << ",";
                o << "|";
                std::vector<int> in;
                for (int k : x.in)
                    in.push_back(en[k]);
                std::sort(in.begin(), in.end());
                for (int k : in)
                    o << k << ",";
                o << "]";
            }
            return o.str();
        }
    };

    struct Base
    {
        std::unique_ptr<gg::ISet> iset = gg::basicSet();
        Data::PrimitiveTypeArray<double> d;
        std::unique_ptr<Environment> env;
        std::vector<std::shared_ptr<Program::Program>> progs;
        Base() : d(2)
        {
            env.reset(new Environment(iset->set, {d}, 2));
            for (int i = 0; i < 2; i++) {
                auto p = std::make_shared<Program::Program>(*env);
                // an intron, then a useful line
                p->addNewLine().setDestinationIndex(1);
                auto& l = p->addNewLine();
                l.setOperand(0, 1, i);
                p->identifyIntrons();
                progs.push_back(p);
            }
        }
        std::unique_ptr<TPG::TPGFactory> factory(bool inst) const
        {
            if (inst)
                return std::make_unique<TPG::TPGInstrumentedFactory>();
            return std::make_unique<TPG::TPGFactory>();
        }
    };
    Base& base()
    {
        static Base b;
        return b;
    }

    struct World
    {
        bool inst;
        std::unique_ptr<TPG::TPGGraph> g, other;
        Model m;
        std::map<int, const TPG::TPGVertex*> rv; // model id -> real
        std::map<int, const TPG::TPGEdge*> re;
        const TPG::TPGVertex *fv, *fa;
        const TPG::TPGEdge* fe;
        std::string hist;
        World(bool i) : inst(i)
        {
            auto& b = base();
            g.reset(new TPG::TPGGraph(*b.env, b.factory(inst)));
            other.reset(new TPG::TPGGraph(*b.env, b.factory(inst)));
            auto& t = other->addNewTeam();
            auto& a = other->addNewAction(7);
            fv = &t;
            fa = &a;
            fe = &other->addNewEdge(t, a, b.progs[0]);
        }
        void op(const std::string& s)
        {
            hist += s + "; ";
            vp::describe(s + "; ");
        }
        bool properTypes(const TPG::TPGVertex* v, int action)
        {
            if (action < 0)
                return inst ? typeid(*v) == typeid(TPG::TPGTeamInstrumented)
                            : typeid(*v) == typeid(TPG::TPGTeam);
            return inst ? typeid(*v) == typeid(TPG::TPGActionInstrumented)
                        : typeid(*v) == typeid(TPG::TPGAction);
        }
        void check()
        {
            auto& b = base();
            auto bad = [&](const std::string& what) {
                vp::fail("graph-state", what + " after " + hist +
                                            " model " + m.text() + " real " +
                                            gg::graphText(*g));
            };
            auto vs = g->getVertices();
            if (vs.size() != m.vs.size() || g->getNbVertices() != m.vs.size())
                bad("number of vertices");
            for (size_t i = 0; i < vs.size(); i++) {
                auto& mv = m.vs[i];
                if (vs[i] != rv[mv.id])
                    bad("order or identity of vertices");
                if (!properTypes(vs[i], mv.action))
                    bad("type of a vertex");
                if (mv.action >= 0 &&
                    ((const TPG::TPGAction*)vs[i])->getActionID() !=
                        (uint64_t)mv.action)
                    bad("action id");
                if (!g->hasVertex(*vs[i]))
                    bad("hasVertex of a vertex");
            }
            if (g->hasVertex(*fv) || g->hasVertex(*fa))
                bad("hasVertex of a foreign vertex");
            // edges
            if (g->getEdges().size() != m.es.size())
                bad("number of edges");
            size_t k = 0;
            for (auto& e : g->getEdges()) {
                auto& me = m.es[k++];
                if (e.get() != re[me.id])
                    bad("order or identity of edges");
                if (e->getSource() != rv[me.src])
                    bad("source of an edge");
                if (e->getDestination() != rv[me.dst])
                    bad("destination of an edge");
                if (e->getProgramSharedPointer() != b.progs[me.prog])
                    bad("program of an edge");
                if (inst !=
                    (dynamic_cast<TPG::TPGEdgeInstrumented*>(e.get()) !=
                     nullptr))
                    bad("type of an edge");
            }
            std::vector<const TPG::TPGVertex*> roots;
            for (size_t i = 0; i < vs.size(); i++) {
                auto& mv = m.vs[i];
                std::vector<const TPG::TPGEdge*> o, in, mo, min;
                for (auto e : vs[i]->getOutgoingEdges())
                    o.push_back(e);
                for (int e : mv.out)
                    mo.push_back(re[e]);
                if (o != mo)
                    bad(fmt("outgoing edges of vertex %zu", i));
                for (auto e : vs[i]->getIncomingEdges())
                    in.push_back(e);
                for (int e : mv.in)
                    min.push_back(re[e]);
                std::sort(in.begin(), in.end());
                std::sort(min.begin(), min.end());
                if (in != min)
                    bad(fmt("incoming edges of vertex %zu", i));
                if (min.empty())
                    roots.push_back(vs[i]);
            }
            if (g->getRootVertices() != roots)
                bad("root vertices");
            if (g->getNbRootVertices() != roots.size())
                bad("number of roots");
            if (&g->getEnvironment() != b.env.get())
                bad("environment");
            // the other graph is left alone
            if (other->getNbVertices() != 2 || other->getEdges().size() != 1 ||
                fv->getOutgoingEdges().size() != 1 ||
                fa->getIncomingEdges().size() != 1 ||
                fe->getSource() != fv || fe->getDestination() != fa)
                bad("another graph was modified");
            vp::count("states_checked");
        }
        template <class F> bool throws(F f)
        {
            try {
                f();
            }
            catch (std::runtime_error&) {
                return true;
            }
            return false;
        }
        void mustThrow(bool t)
        {
            if (!t)
                vp::fail("graph-error-not-reported",
                         "an invalid operation is accepted: " + hist);
            vp::count("failed_operations");
        }
    };

    // One step: every operation of the alphabet with every argument
    void step(Chooser& c, World& w, int maxV, int maxE)
    {
        auto& b = base();
        Model& m = w.m;
        int V = (int)m.vs.size(), E = (int)m.es.size();
        auto vert = [&](int i) { return m.vs[i].id; };
        vp::count("operations");
        enum
        {
            TEAM,
            ACTION,
            EDGE,
            RMV,
            CLV,
            RME,
            CLE,
            SETD,
            SETS,
            CLEAR,
            MOVE,
            INTRONS,
            NOPS
        };
        switch (c.pick(NOPS)) {
        case TEAM: {
            if (V >= maxV)
                c.prune();
            w.op("addNewTeam");
            int id = m.add(-1);
            w.rv[id] = &w.g->addNewTeam();
            break;
        }
        case ACTION: {
            if (V >= maxV)
                c.prune();
            int a = c.pick(2);
            w.op(fmt("addNewAction(%d)", a));
            int id = m.add(a);
            w.rv[id] = &w.g->addNewAction(a);
            break;
        }
        case EDGE: {
            int s = c.pick(V + 1), d = c.pick(V + 1);
            int p = c.pick(2);
            auto* sv = s < V ? w.rv[vert(s)] : w.fv;
            auto* dv = d < V ? w.rv[vert(d)] : w.fa;
            w.op(fmt("addNewEdge(%d,%d,p%d)", s, d, p));
            bool bad = s == V || d == V || m.vs[s].action >= 0;
            if (bad) {
                if (p)
                    c.prune();
                w.mustThrow(w.throws(
                    [&] { w.g->addNewEdge(*sv, *dv, b.progs[p]); }));
            }
            else {
                if (E >= maxE)
                    c.prune();
                int id = m.edge(vert(s), vert(d), p);
                w.re[id] = &w.g->addNewEdge(*sv, *dv, b.progs[p]);
            }
            break;
        }
        case RMV: {
            int v = c.pick(V + 1);
            w.op(fmt("removeVertex(%d)", v));
            if (v == V)
                w.g->removeVertex(*w.fv);
            else {
                auto* x = w.rv[vert(v)];
                m.removeVertex(vert(v));
                w.g->removeVertex(*x);
            }
            break;
        }
        case CLV: {
            int v = c.pick(V + 1);
            w.op(fmt("cloneVertex(%d)", v));
            if (v == V)
                w.mustThrow(w.throws([&] { w.g->cloneVertex(*w.fv); }));
            else {
                if (V >= maxV || E + (int)m.vs[v].out.size() > maxE)
                    c.prune();
                int src = vert(v);
                int id = m.add(m.v(src)->action);
                std::vector<int> out = m.v(src)->out;
                std::vector<int> ne;
                for (int e : out)
                    ne.push_back(m.edge(id, m.e(e)->dst, m.e(e)->prog));
                auto& r = w.g->cloneVertex(*w.rv[src]);
                w.rv[id] = &r;
                // the new edges are the last ones
                if (w.g->getEdges().size() != m.es.size())
                    w.check();
                auto it = w.g->getEdges().rbegin();
                for (size_t k = ne.size(); k-- > 0; ++it)
                    w.re[ne[k]] = it->get();
            }
            break;
        }
        case RME: {
            int e = c.pick(E + 1);
            w.op(fmt("removeEdge(%d)", e));
            if (e == E)
                w.mustThrow(w.throws([&] { w.g->removeEdge(*w.fe); }));
            else {
                auto* x = w.re[m.es[e].id];
                m.removeEdge(m.es[e].id);
                w.g->removeEdge(*x);
            }
            break;
        }
        case CLE: {
            int e = c.pick(E + 1);
            w.op(fmt("cloneEdge(%d)", e));
            if (e == E)
                w.mustThrow(w.throws([&] { w.g->cloneEdge(*w.fe); }));
            else {
                if (E >= maxE)
                    c.prune();
                MEdge x = m.es[e];
                int id = m.edge(x.src, x.dst, x.prog);
                w.re[id] = &w.g->cloneEdge(*w.re[x.id]);
            }
            break;
        }
        case SETD: {
            int e = c.pick(E + 1), v = c.pick(V + 1);
            w.op(fmt("setEdgeDestination(%d,%d)", e, v));
            auto* ee = e < E ? w.re[m.es[e].id] : w.fe;
            auto* vv = v < V ? w.rv[vert(v)] : w.fa;
            bool ok = w.g->setEdgeDestination(*ee, *vv);
            if (ok != (e < E && v < V))
                vp::fail("graph-verdict",
                         "setEdgeDestination returns the wrong verdict: " +
                             w.hist);
            if (ok) {
                MEdge& x = m.es[e];
                Model::drop(m.v(x.dst)->in, x.id);
                x.dst = vert(v);
                m.v(x.dst)->in.push_back(x.id);
            }
            break;
        }
        case SETS: {
            int e = c.pick(E + 1), v = c.pick(V + 1);
            w.op(fmt("setEdgeSource(%d,%d)", e, v));
            auto* ee = e < E ? w.re[m.es[e].id] : w.fe;
            auto* vv = v < V ? w.rv[vert(v)] : w.fv;
            if (e < E && v < V && m.vs[v].action >= 0) {
                w.mustThrow(
                    w.throws([&] { w.g->setEdgeSource(*ee, *vv); }));
                break;
            }
            bool ok = w.g->setEdgeSource(*ee, *vv);
            if (ok != (e < E && v < V))
                vp::fail("graph-verdict",
                         "setEdgeSource returns the wrong verdict: " + w.hist);
            if (ok) {
                MEdge& x = m.es[e];
                Model::drop(m.v(x.src)->out, x.id);
                x.src = vert(v);
                m.v(x.src)->out.push_back(x.id);
            }
            break;
        }
        case CLEAR:
            w.op("clear");
            w.g->clear();
            m.vs.clear();
            m.es.clear();
            break;
        case MOVE: {
            if (c.pick(2)) {
                w.op("move construction");
                std::unique_ptr<TPG::TPGGraph> n(
                    new TPG::TPGGraph(std::move(*w.g)));
                w.g = std::move(n);
            }
            else {
                w.op("move assignment");
                std::unique_ptr<TPG::TPGGraph> n(
                    new TPG::TPGGraph(*b.env, b.factory(w.inst)));
                auto& t = n->addNewTeam();
                n->addNewEdge(t, n->addNewAction(5), b.progs[1]);
                *n = std::move(*w.g);
                w.g = std::move(n);
            }
            break;
        }
        case INTRONS:
            w.op("clearProgramIntrons");
            w.g->clearProgramIntrons();
            for (auto& e : w.g->getEdges())
                if (e->getProgram().getNbLines() != 1)
                    vp::fail("graph-introns", "an intron is left");
            // restore: programs are shared by the runs
            for (auto& p : b.progs)
                if (p->getNbLines() == 1) {
                    p->addNewLine(0).setDestinationIndex(1);
                    p->identifyIntrons();
                }
            break;
        }
        w.check();
    }

    void histories(const std::string& name, bool inst, int start, int depth,
                   int maxV, int maxE)
    {
        std::string set = "graph_states";
        vp::bound(name, fmt("all histories of %d operations, at most %d "
                            "vertices and %d edges, %s graph",
                            depth, maxV, maxE,
                            inst ? "instrumented" : "plain"));
        vp::ExploreOptions o;
        o.splitDepth = 3;
        o.maxViolations = 4;
        vp::explore(
            name,
            [&](Chooser& c) {
                base();
                World w(inst);
                if (start) {
                    // t0 -> t1, a0 ; t1 -> a0, a1
                    Model& m = w.m;
                    for (int a : {-1, -1, 0, 1}) {
                        int id = m.add(a);
                        w.rv[id] = a < 0 ? (const TPG::TPGVertex*)&w.g
                                                   ->addNewTeam()
                                         : &w.g->addNewAction(a);
                    }
                    int es[][3] = {{0, 1, 0}, {0, 2, 1}, {1, 2, 0}, {1, 3, 1}};
                    for (auto& e : es) {
                        int id = m.edge(e[0], e[1], e[2]);
                        w.re[id] = &w.g->addNewEdge(*w.rv[e[0]], *w.rv[e[1]],
                                                    base().progs[e[2]]);
                    }
                    w.op("start: 0T 1T 2A0 3A1, edges 0>1 0>2 1>2 1>3");
                }
                if (start > 1) {
                    // teams with many edges, shared programs, several edges
                    // between the same vertices, edges to itself
                    Model& m = w.m;
                    int T = start == 2 ? 3 : 12, A = start == 2 ? 2 : 4;
                    int W = start == 2 ? 4 : 5;
                    for (int i = 0; i < T + A; i++) {
                        // actions are between the teams
                        int a = i % (T / A + 1) == T / A ? i % 2 : -1;
                        int id = m.add(a);
                        w.rv[id] = a < 0 ? (const TPG::TPGVertex*)&w.g
                                                   ->addNewTeam()
                                         : &w.g->addNewAction(a);
                    }
                    for (int i = 0; i < T + A; i++) {
                        if (m.vs[i].action >= 0)
                            continue;
                        for (int k = 0; k < W; k++) {
                            int d = k == 0 ? i : (i + k * k) % (T + A);
                            if (i == 0 && k == 0)
                                d = 1; // a root, unless others point to it
                            int id = m.edge(i, d, (i + k) % 2);
                            w.re[id] =
                                &w.g->addNewEdge(*w.rv[i], *w.rv[d],
                                                 base().progs[(i + k) % 2]);
                        }
                    }
                    w.op(fmt("start: %d vertices, %zu edges", T + A,
                             m.es.size()));
                }
                w.check();
                for (int i = 0; i < depth; i++) {
                    step(c, w, maxV, maxE);
                    std::string t = w.m.text();
                    vp::distinct(set.c_str(), vp::digest(t));
                    if (i < depth - 1)
                        c.visit((name + "-seen").c_str(), vp::digest(t),
                                depth - 1 - i, depth);
                }
                vp::sample(w.hist + " => " + w.m.text());
            },
            o);
    }

    void graphOps()
    {
        bool T = vp::opt.thorough();
        histories("empty", false, 0, T ? 7 : 6, 3, T ? 4 : 3);
        histories("nested", false, 1, T ? 4 : 3, 5, 6);
        histories("wide", false, 2, 2, 7, 20);
        histories("large", false, 3, 1, 17, 70);
        histories("wide-instrumented", true, 2, T ? 2 : 1, 7, 20);
        histories("empty-instrumented", true, 0, T ? 6 : 5, 3, 3);
        histories("nested-instrumented", true, 1, T ? 3 : 2, 5, 6);
    }

    // ================================================================= C12
    // Graphs whose bids are data: program k copies data[k] to R0 (the last
    // ones read registers, to see that they start at zero).
    double ident(double a)
    {
        return a;
    }
    struct Inf
    {
        gg::ISet iset;
        std::unique_ptr<Data::PrimitiveTypeArray<double>> d;
        std::unique_ptr<Environment> env;
        std::vector<std::shared_ptr<Program::Program>> progs;
        Inf(int nd)
        {
            iset.add<Instructions::LambdaInstruction<double>>(
                [](double a) { return a; });
            iset.add<Instructions::AddPrimitiveType<double>>();
            d.reset(new Data::PrimitiveTypeArray<double>(nd));
            env.reset(new Environment(iset.set, {*d}, 2));
            for (int k = 0; k < nd; k++) {
                auto p = std::make_shared<Program::Program>(*env);
                // R1 = data[k]; R0 = R1 + R0 (R0 is zero at the start, so
                // that anything left in a register shows)
                auto& l = p->addNewLine();
                l.setInstructionIndex(0);
                l.setOperand(0, 1, k);
                l.setDestinationIndex(1);
                auto& l2 = p->addNewLine();
                l2.setInstructionIndex(1);
                l2.setOperand(0, 0, 1);
                l2.setOperand(1, 0, 0);
                l2.setDestinationIndex(0);
                p->identifyIntrons();
                progs.push_back(p);
            }
        }
    };
    const double ALPHA[] = {
        0.0,
        1.0,
        NAN,
        -1.0,
        -0.0,
        -std::numeric_limits<double>::infinity(),
        std::numeric_limits<double>::infinity(),
        std::numeric_limits<double>::denorm_min(),
        1.0 + std::numeric_limits<double>::epsilon(),
        -std::numeric_limits<double>::max()};

    struct RefRec
    {
        const Program::Program* p;
        double v;
    };
    // reference inference
    std::vector<const TPG::TPGVertex*> reference(
        const TPG::TPGVertex* root, const std::vector<double>& bid,
        const std::map<const TPG::TPGVertex*,
                       std::vector<std::pair<int, const TPG::TPGVertex*>>>& g,
        const std::vector<std::shared_ptr<Program::Program>>& progs,
        std::vector<RefRec>& recs,
        std::vector<std::pair<const TPG::TPGVertex*, size_t>>& chosen)
    {
        std::vector<const TPG::TPGVertex*> path{root};
        while (true) {
            if (path.size() > g.size() + 1)
                return {}; // a walk without end
            auto it = g.find(path.back());
            if (it == g.end())
                return path;
            const TPG::TPGVertex* best = nullptr;
            double bb = 0;
            size_t n = 0, at = 0;
            for (auto& e : it->second) {
                double v = bid[e.first] + 0.0;
                if (v != v)
                    v = -std::numeric_limits<double>::infinity();
                recs.push_back({progs[e.first].get(), v});
                if (!best || !(v < bb)) {
                    best = e.second;
                    bb = v;
                    at = n;
                }
                n++;
            }
            chosen.push_back({path.back(), at});
            path.push_back(best);
        }
    }

    using Shape = std::map<const TPG::TPGVertex*,
                           std::vector<std::pair<int, const TPG::TPGVertex*>>>;
    // executions of one graph, all of them compared with the reference
    void execute(Chooser& c, Inf& w, TPG::TPGGraph& g, const Shape& m,
                 const std::string& shape, int nd, bool inst, int execs,
                 std::function<double(int)> value,
                 std::function<const TPG::TPGVertex*(int)> rootOf,
                 std::function<bool(int)> archived)
    {
        Archive arch(200, 1.0);
        auto tee = g.getFactory().createTPGExecutionEngine(*w.env,
                                                           nullptr);
        std::vector<std::vector<const TPG::TPGVertex*>> traces;
        std::map<std::pair<const TPG::TPGVertex*, size_t>, uint64_t>
            traversals;
        for (int x = 0; x < execs; x++) {
            std::vector<double> bid(nd);
            std::string ds;
            for (int k = 0; k < nd; k++) {
                bid[k] = value(k);
                w.d->setDataAt(typeid(double), k, bid[k]);
                ds += gg::num(bid[k]) + " ";
            }
            vp::describe("data " + ds);
            // with and without archive
            bool useArchive = archived(x);
            tee->setArchive(useArchive ? &arch : nullptr);
            size_t before = arch.getNbRecordings();
            const TPG::TPGVertex* root = rootOf(x);
            std::vector<RefRec> recs;
            std::vector<std::pair<const TPG::TPGVertex*, size_t>>
                chosen;
            auto exp =
                reference(root, bid, m, w.progs, recs, chosen);
            if (exp.empty())
                c.prune();
            for (auto& e : chosen)
                traversals[e]++;
            std::vector<const TPG::TPGVertex*> got;
            got = tee->executeFromRoot(*root);
            traces.push_back(exp);
            vp::count("inferences");
            VP_CHECK(got == exp, "inference-path",
                     "path of %zu vertices instead of %zu, or "
                     "another winner; %s data %s",
                     got.size(), exp.size(), shape.c_str(),
                     ds.c_str());
            size_t want = useArchive ? recs.size() : 0;
            VP_CHECK(arch.getNbRecordings() - before == want,
                     "inference-recordings",
                     "%zu recordings instead of %zu; %s",
                     arch.getNbRecordings() - before, want,
                     shape.c_str());
            for (size_t i = 0; i < want; i++) {
                auto& r = arch.at(before + i);
                VP_CHECK(r.prog == recs[i].p &&
                             gg::bits(r.result) ==
                                 gg::bits(recs[i].v),
                         "inference-recordings",
                         "recording %zu is %s instead of %s; %s", i,
                         gg::num(r.result).c_str(),
                         gg::num(recs[i].v).c_str(), shape.c_str());
            }
            vp::distinct("outcomes",
                         vp::digest(shape + ds +
                                    std::to_string(exp.size())));
        }
        if (inst) {
            auto* ti =
                dynamic_cast<TPG::TPGExecutionEngineInstrumented*>(
                    tee.get());
            VP_CHECK(ti != nullptr, "engine-type",
                     "not an instrumented engine");
            VP_CHECK(ti->getTraceHistory() == traces, "trace-history",
                     "the recorded traces are not the executions");
            std::map<const TPG::TPGVertex*, uint64_t> visits;
            for (auto& t : traces)
                for (auto v : t)
                    visits[v]++;
            for (auto v : g.getVertices()) {
                auto* iv =
                    dynamic_cast<const TPG::TPGVertexInstrumentation*>(
                        v);
                VP_CHECK(iv && iv->getNbVisits() == visits[v],
                         "visit-counters",
                         "a vertex visited %llu times counts %llu",
                         (unsigned long long)visits[v],
                         (unsigned long long)(iv ? iv->getNbVisits()
                                                 : 0));
                size_t at = 0;
                for (auto e : v->getOutgoingEdges()) {
                    auto* ie =
                        dynamic_cast<const TPG::TPGEdgeInstrumented*>(
                            e);
                    VP_CHECK(ie && ie->getNbVisits() == visits[v],
                             "visit-counters",
                             "an edge evaluated %llu times counts "
                             "%llu",
                             (unsigned long long)visits[v],
                             (unsigned long long)ie->getNbVisits());
                    uint64_t want = traversals[{v, at++}];
                    VP_CHECK(ie->getNbTraversal() == want,
                             "traversal-counters",
                             "an edge chosen %llu times counts %llu",
                             (unsigned long long)want,
                             (unsigned long long)ie->getNbTraversal());
                }
            }
        }
    }

    // shape: list of teams; team i has edges to later teams or actions
    void inference(const std::string& name, int teams, int maxEdges,
                   int nbActions, int nd, int alpha, bool inst, int execs,
                   bool cyclic = false)
    {
        vp::bound(name,
                  fmt("%s engine, all %s graphs of %d teams with 1 to %d "
                      "edges, destinations any %s or %d actions, "
                      "programs reading one of %d data, data over %d values, "
                      "%d successive executions with one engine",
                      inst ? "instrumented" : "plain", cyclic ? "" : "acyclic",
                      teams, maxEdges, cyclic ? "team (walks which end)" : "later team",
                      nbActions, nd, alpha, execs));
        vp::ExploreOptions o;
        o.splitDepth = 4;
        static Inf* inf = nullptr;
        vp::explore(
            name,
            [&](Chooser& c) {
                Inf w(nd);
                std::unique_ptr<TPG::TPGFactory> f;
                if (inst)
                    f.reset(new TPG::TPGInstrumentedFactory());
                else
                    f.reset(new TPG::TPGFactory());
                TPG::TPGGraph g(*w.env, std::move(f));
                std::vector<const TPG::TPGVertex*> tv, av;
                for (int i = 0; i < teams; i++)
                    tv.push_back(&g.addNewTeam());
                for (int i = 0; i < nbActions; i++)
                    av.push_back(&g.addNewAction(i));
                std::map<const TPG::TPGVertex*,
                         std::vector<std::pair<int, const TPG::TPGVertex*>>>
                    m;
                std::string shape;
                for (int i = 0; i < teams; i++) {
                    int n = 1 + c.pick(maxEdges);
                    shape += fmt("T%d:", i);
                    for (int k = 0; k < n; k++) {
                        int later = cyclic ? teams : teams - 1 - i;
                        int base = cyclic ? 0 : i + 1;
                        int dst = c.pick(later + nbActions);
                        // the first data are named in order of appearance
                        int p = c.pick(nd);
                        const TPG::TPGVertex* dv =
                            dst < later ? tv[base + dst] : av[dst - later];
                        g.addNewEdge(*tv[i], *dv, w.progs[p]);
                        m[tv[i]].push_back({p, dv});
                        shape += dst < later ? fmt("p%d>T%d ", p, base + dst)
                                             : fmt("p%d>A%d ", p, dst - later);
                    }
                }
                vp::describe(shape);
                execute(
                    c, w, g, m, shape, nd, inst, execs,
                    [&](int) { return ALPHA[c.pick(alpha)]; },
                    [&](int x) {
                        if (x == 0)
                            return tv[0];
                        int r = c.pick(teams > 1 ? 3 : 2);
                        return r == 0 ? tv[0] : r == 1 ? av[0] : tv[1];
                    },
                    [&](int x) {
                        return execs > 1 ? x % 2 == 0 : c.pick(2) == 0;
                    });
                vp::sample(shape);
            },
            o);
    }

    // Teams with many edges: where the winner, the ties, the not-a-numbers
    // and the infinities stand. Base patterns of bids with few changes.
    void wide(const std::string& name, int n, int devs, bool inst, int execs)
    {
        vp::bound(name, fmt("%s engine, one team of %d edges to %d actions, 5 "
                            "patterns of bids with at most %d bids changed "
                            "to any of 7 values, %d executions",
                            inst ? "instrumented" : "plain", n, n, devs,
                            execs));
        vp::ExploreOptions o;
        o.splitDepth = 3;
        o.maxDev = devs;
        vp::explore(
            name,
            [&](Chooser& c) {
                Inf w(n);
                std::unique_ptr<TPG::TPGFactory> f(
                    inst ? new TPG::TPGInstrumentedFactory()
                         : new TPG::TPGFactory());
                TPG::TPGGraph g(*w.env, std::move(f));
                auto& t = g.addNewTeam();
                Shape m;
                for (int k = 0; k < n; k++) {
                    auto& a = g.addNewAction(k);
                    g.addNewEdge(t, a, w.progs[k]);
                    m[&t].push_back({k, &a});
                }
                int pat = c.pick(5);
                std::string shape = fmt("%d edges, pattern %d", n, pat);
                execute(
                    c, w, g, m, shape, n, inst, execs,
                    [&](int k) {
                        double base[] = {
                            0.0, k / 4.0, -k / 4.0, NAN,
                            -std::numeric_limits<double>::infinity()};
                        int x = c.pickDev(8, 0);
                        return x ? ALPHA[x - 1] : base[pat];
                    },
                    [&](int) { return &t; }, [&](int x) { return x % 2 == 0; });
                vp::sample(shape);
            },
            o);
    }
    // Deep graphs: chains of teams, each with an edge to the next one, to an
    // action and to the team two steps further (or back, to a team which
    // was not visited), with few changes of the edges and the bids.
    void deep(const std::string& name, int depth, int devs, bool inst,
              int execs)
    {
        vp::bound(name,
                  fmt("%s engine, chains of %d teams of 3 edges (next team, "
                      "an action, the team after the next), at most %d "
                      "destinations, programs or bids changed, executions "
                      "from %d roots",
                      inst ? "instrumented" : "plain", depth, devs, execs));
        vp::ExploreOptions o;
        o.splitDepth = 4;
        o.maxDev = devs;
        vp::explore(
            name,
            [&](Chooser& c) {
                Inf w(6);
                std::unique_ptr<TPG::TPGFactory> f(
                    inst ? new TPG::TPGInstrumentedFactory()
                         : new TPG::TPGFactory());
                TPG::TPGGraph g(*w.env, std::move(f));
                std::vector<const TPG::TPGVertex*> tv, av;
                for (int i = 0; i < depth; i++)
                    tv.push_back(&g.addNewTeam());
                for (int i = 0; i < 3; i++)
                    av.push_back(&g.addNewAction(i));
                Shape m;
                // in which position the winning edge is
                int pat = c.pick(3);
                std::string shape = fmt("chain of %d, pattern %d ", depth, pat);
                for (int i = 0; i < depth; i++)
                    for (int k = 0; k < 3; k++) {
                        int rel = (k + pat) % 3; // 0: next, 1: action, 2: +2
                        int d = rel == 0   ? i + 1
                                : rel == 1 ? depth + i % 3
                                           : i + 2;
                        if (d >= depth && rel != 1)
                            d = depth + (i + rel) % 3;
                        int p = rel == 0 ? 5 - i % 2 : rel == 1 ? i % 2 : 2;
                        int x = c.pickDev(1 + depth + 3 + 6, 0);
                        if (x > depth + 3)
                            p = x - depth - 4;
                        else if (x)
                            d = x - 1;
                        if (x)
                            shape += fmt("T%d[%d]=p%d>%d ", i, k, p, d);
                        auto* dv = d < depth ? tv[d] : av[d - depth];
                        g.addNewEdge(*tv[i], *dv, w.progs[p]);
                        m[tv[i]].push_back({p, dv});
                    }
                int roots = depth + 3;
                execute(
                    c, w, g, m, shape, 6, inst, execs,
                    [&](int k) {
                        int x = c.pickDev(8, 0);
                        return x ? ALPHA[x - 1] : k * 0.5;
                    },
                    [&](int x) {
                        int r = x == 0 ? 0 : x % roots;
                        r = (r + c.pickDev(roots, 0)) % roots;
                        return r < depth ? tv[r] : av[r - depth];
                    },
                    [&](int x) { return x % 2 == 0; });
                vp::sample(shape);
            },
            o);
    }

    void inferences()
    {
        bool T = vp::opt.thorough();
        wide("wide-9", 9, 2, false, 1);
        wide("wide-21", 21, T ? 2 : 1, false, 1);
        wide("wide-9-instrumented", 9, T ? 2 : 1, true, 2);
        wide("wide-70", 70, 1, false, 1);
        deep("deep-7", 7, T ? 2 : 1, false, 2);
        deep("deep-7-instrumented", 7, T ? 2 : 1, true, 3);
        deep("deep-40", 40, 1, false, 1);
        inference("one-team", 1, 3, 2, 3, T ? 10 : 7, false, 1);
        inference("two-teams", 2, 2, 2, 2, T ? 7 : 5, false, 1);
        inference("reuse", 2, 2, 1, 2, T ? 4 : 3, false, 2);
        inference("one-team-instrumented", 1, 3, 2, 2, 5, true, 1);
        inference("reuse-instrumented", 2, 2, 1, 2, 3, true, 2);
        inference("cyclic", 2, 2, 1, 2, T ? 4 : 3, false, 1, true);
        inference("cyclic-instrumented", 2, 2, 1, 2, 3, true, T ? 2 : 1, true);
        if (T)
            inference("cyclic-three", 3, 2, 1, 2, 2, true, 1, true);
        if (T)
            inference("three-teams", 3, 2, 1, 2, 3, false, 1);
        else
            inference("three-teams", 3, 2, 1, 2, 2, false, 1);
    }
} // namespace

void vp_main()
{
    if (vp::opt.prop == "C06")
        graphOps();
    else
        inferences();
}
