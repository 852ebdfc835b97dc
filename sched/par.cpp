// Schedules of the multi-threaded parts of the library: parallel evaluation
// (Parallel, Adversarial and Classification learning agents), parallel
// mutation of programs, concurrent use of instrumented graphs.
#include "explore.h"
#include "../harness/gg.h"
#include <thread>

using namespace sched;
using vp::fmt;

namespace {
    using Learn::LearningMode;

    // gives access to what is protected
    template <class A> struct Open : public A
    {
        using A::A;
        std::vector<const TPG::TPGVertex*> champs;
        void threads(uint64_t n)
        {
            this->maxNbThreads = n;
        }
        std::map<const TPG::TPGVertex*,
                 std::shared_ptr<Learn::EvaluationResult>>&
        perRoot()
        {
            return this->resultsPerRoot;
        }
        Mutator::RNG& r()
        {
            return this->rng;
        }
        Archive& arch()
        {
            return this->archive;
        }
        Learn::LearningParameters& par()
        {
            return this->params;
        }
    };

    struct ClassGame : public Learn::ClassificationLearningEnvironment
    {
        Data::PrimitiveTypeArray<double> data;
        size_t st = 1;
        uint64_t steps = 0, horizon = 4;
        ClassGame(uint64_t n) : ClassificationLearningEnvironment(n), data(3)
        {
            reset(0);
        }
        ClassGame(const ClassGame& o) = default;
        LearningEnvironment* clone() const override
        {
            return new ClassGame(*this);
        }
        bool isCopyable() const override
        {
            return true;
        }
        void refresh()
        {
            for (size_t i = 0; i < 3; i++)
                data.setDataAt(typeid(double), i,
                               (double)((int)((st >> (4 * i)) % 7) - 3));
            currentClass = (st >> 13) % nbActions;
        }
        void reset(size_t seed, LearningMode mode = LearningMode::TRAINING,
                   uint16_t it = 0, uint64_t gen = 0) override
        {
            ClassificationLearningEnvironment::reset(seed, mode, it, gen);
            st = (seed ^ (seed >> 17)) * 2862933555777941757ULL +
                 (size_t)mode * 977;
            steps = 0;
            refresh();
        }
        void doAction(uint64_t a) override
        {
            ClassificationLearningEnvironment::doAction(a);
            steps++;
            st = st * 6364136223846793005ULL + 1442695040888963407ULL;
            st ^= st >> 23;
            refresh();
        }
        std::vector<std::reference_wrapper<const Data::DataHandler>>
        getDataSources() override
        {
            return {data};
        }
        bool isTerminal() const override
        {
            return steps >= horizon;
        }
    };

    struct Duel : public Learn::AdversarialLearningEnvironment
    {
        Data::PrimitiveTypeArray<double> data;
        size_t st = 1, n;
        std::vector<double> sc;
        uint64_t steps = 0, horizon = 4;
        bool coarse = false;
        Duel(uint64_t nbAct, size_t players)
            : AdversarialLearningEnvironment(nbAct), data(3), n(players)
        {
            reset(0);
        }
        Duel(const Duel& o) = default;
        LearningEnvironment* clone() const override
        {
            return new Duel(*this);
        }
        bool isCopyable() const override
        {
            return true;
        }
        void refresh()
        {
            for (size_t i = 0; i < 3; i++)
                data.setDataAt(typeid(double), i,
                               (double)((int)((st >> (4 * i)) % 7) - 3));
        }
        void reset(size_t seed, LearningMode mode = LearningMode::TRAINING,
                   uint16_t it = 0, uint64_t gen = 0) override
        {
            st = (seed ^ (seed >> 17)) * 2862933555777941757ULL +
                 (size_t)mode * 977;
            sc.assign(n, 0.0);
            steps = 0;
            refresh();
        }
        void doAction(uint64_t a) override
        {
            // sums depend on the order of their terms
            if (coarse)
                sc[steps % n] = (double)((st >> 11) % 2);
            else
                sc[steps % n] += (double)((st >> 11) % 8) * 0.1 +
                             (double)((st >> 17) % 5) * 1e5 + (double)a / 3;
            steps++;
            st = (st + a + 1) * 6364136223846793005ULL + 1442695040888963407ULL;
            st ^= st >> 23;
            refresh();
        }
        std::shared_ptr<Learn::AdversarialEvaluationResult> getScores()
            const override
        {
            auto r = std::make_shared<Learn::AdversarialEvaluationResult>(
                Learn::AdversarialEvaluationResult(n, 0));
            if (n == 2)
                return std::make_shared<Learn::AdversarialEvaluationResult>(
                    Learn::AdversarialEvaluationResult({sc[0], sc[1]}));
            return std::make_shared<Learn::AdversarialEvaluationResult>(
                Learn::AdversarialEvaluationResult({sc[0], sc[1], sc[2]}));
        }
        std::vector<std::reference_wrapper<const Data::DataHandler>>
        getDataSources() override
        {
            return {data};
        }
        bool isTerminal() const override
        {
            return steps >= horizon;
        }
    };

    struct Spec
    {
        int threads = 2, roots = 3, gens = 1;
        uint64_t seed = 1;
        bool instrumented = false;
        double archProb = 1.0;
        size_t archSize = 6;
        int maxEval = 1000;
        int iters = 1;
        bool force = false;
        int constants = 0;
        bool two = false;
        bool validation = false;
        size_t maxProgramSize = 3;
        LearningMode mode = LearningMode::TRAINING;
        double destAction = 0.5;
        bool coarse = false;
    };
    Learn::LearningParameters makeParams(const Spec& s)
    {
        Learn::LearningParameters p;
        p.archiveSize = s.archSize;
        p.archivingProbability = s.archProb;
        p.nbIterationsPerPolicyEvaluation = s.iters;
        p.nbIterationsPerJob = 1;
        p.maxNbActionsPerEval = 3;
        p.maxNbEvaluationPerPolicy = s.maxEval;
        p.ratioDeletedRoots = 0.34;
        p.nbGenerations = 2;
        p.nbRegisters = 2;
        p.nbProgramConstant = s.constants;
        p.nbThreads = s.threads;
        p.doValidation = s.validation;
        auto& t = p.mutation.tpg;
        t.nbRoots = s.roots;
        t.maxInitOutgoingEdges = 2;
        t.maxOutgoingEdges = 3;
        t.pEdgeDeletion = 0.4;
        t.pEdgeAddition = 0.4;
        t.pProgramMutation = 0.3;
        t.pEdgeDestinationChange = 0.2;
        t.pEdgeDestinationIsAction = s.destAction;
        t.forceProgramBehaviorChangeOnMutation = s.force;
        auto& g = p.mutation.prog;
        g.maxProgramSize = s.maxProgramSize;
        g.pAdd = 0.5;
        g.pDelete = 0.4;
        g.pMutate = 0.6;
        g.pSwap = 0.4;
        g.pConstantMutation = 0.5;
        return p;
    }
    template <class AG>
    std::string agentText(AG& a, const gg::Results* res)
    {
        gg::GraphNames n;
        std::string t = gg::graphText(*a.getTPGGraph(), &n);
        t += "\nARCHIVE " + gg::archiveText(a.getArchive(), n);
        if (res)
            t += "\nRESULTS " + gg::resultsText(*res, n);
        auto& br = a.getBestRoot();
        if (br.first)
            t += fmt("\nBEST v%d %s", n.v.count(br.first) ? n.v[br.first] : -1,
                     br.second ? gg::resultText(*br.second).c_str() : "-");
        t += "\nPERROOT ";
        std::map<int, std::string> pr;
        for (auto& r : a.perRoot())
            if (n.v.count(r.first))
                pr[n.v[r.first]] = gg::resultText(*r.second);
        for (auto& r : pr)
            t += fmt("v%d=%s ", r.first, r.second.c_str());
        t += fmt("\nLAST %s RNG %llu", gg::bits(a.getBestScoreLastGen()).c_str(),
                 (unsigned long long)Mutator::RNG(a.getRNG())
                     .getUnsignedInt64(0, UINT64_MAX));
        // instrumentation
        for (auto v : a.getTPGGraph()->getVertices())
            if (auto iv =
                    dynamic_cast<const TPG::TPGVertexInstrumentation*>(v))
                t += fmt(" n%d:%llu", n.v[v],
                         (unsigned long long)iv->getNbVisits());
        for (auto& e : a.getTPGGraph()->getEdges())
            if (auto ie =
                    dynamic_cast<const TPG::TPGEdgeInstrumented*>(e.get()))
                t += fmt(" e%d:%llu/%llu", n.e[e.get()],
                         (unsigned long long)ie->getNbVisits(),
                         (unsigned long long)ie->getNbTraversal());
        return t;
    }

    // Everything one scenario needs, built once per process
    template <class AG, class ENV> struct World
    {
        std::unique_ptr<gg::ISet> iset = gg::basicSet();
        std::unique_ptr<ENV> env;
        std::unique_ptr<Open<AG>> agent;
        Spec s;
    };
    template <class AG, class ENV, class... A>
    std::shared_ptr<World<AG, ENV>> makeWorld(const Spec& s, int warm,
                                              std::unique_ptr<ENV> env, A... a)
    {
        auto w = std::make_shared<World<AG, ENV>>();
        w->s = s;
        w->env = std::move(env);
        if (s.instrumented)
            w->agent.reset(new Open<AG>(*w->env, w->iset->set, makeParams(s),
                                        a..., TPG::TPGInstrumentedFactory()));
        else
            w->agent.reset(
                new Open<AG>(*w->env, w->iset->set, makeParams(s), a...));
        w->agent->init(s.seed);
        w->agent->threads(1);
        for (int g = 0; g < warm; g++)
            w->agent->trainOneGeneration(g);
        return w;
    }

    enum What
    {
        EVAL,
        TRAIN
    };
    template <class AG, class ENV, class Make>
    Scenario agentScenario(const std::string& name, const Spec& s, int warm,
                           What what, Make make)
    {
        auto w = std::make_shared<std::shared_ptr<World<AG, ENV>>>();
        Scenario sc;
        sc.name = name;
        sc.setup = [=]() { *w = make(s, warm); };
        auto runIt = [=](int threads) {
            auto& a = *(*w)->agent;
            a.threads(threads);
            if (what == EVAL) {
                auto res = a.evaluateAllRoots(warm, s.mode);
                return agentText(a, &res);
            }
            for (int g = 0; g < s.gens; g++)
                a.trainOneGeneration(warm + g);
            return agentText(a, nullptr);
        };
        sc.body = [=]() { return runIt(s.threads); };
        sc.reference = [=]() { return runIt(1); };
        return sc;
    }
    Scenario parallelAgent(const std::string& name, const Spec& s, int warm,
                           What what)
    {
        return agentScenario<Learn::ParallelLearningAgent, gg::Game>(
            name, s, warm, what, [](const Spec& s, int warm) {
                auto env = std::make_unique<gg::Game>(3, s.two);
                env->coarse = s.coarse;
                return makeWorld<Learn::ParallelLearningAgent, gg::Game>(
                    s, warm, std::move(env));
            });
    }
    Scenario classAgent(const std::string& name, const Spec& s, int warm,
                        What what)
    {
        using AG =
            Learn::ClassificationLearningAgent<Learn::ParallelLearningAgent>;
        return agentScenario<AG, ClassGame>(
            name, s, warm, what, [](const Spec& s, int warm) {
                return makeWorld<AG, ClassGame>(s, warm,
                                                std::make_unique<ClassGame>(2));
            });
    }
    Scenario duelAgent(const std::string& name, const Spec& s, int warm,
                       What what, size_t players = 2)
    {
        using AG = Learn::AdversarialLearningAgent;
        return agentScenario<AG, Duel>(
            name, s, warm, what, [players](const Spec& s, int warm) {
                auto env = std::make_unique<Duel>(3, players);
                env->coarse = s.coarse;
                return makeWorld<AG, Duel>(s, warm, std::move(env), players);
            });
    }

    // ------------------------------------------------ program mutation
    struct MutWorld
    {
        std::unique_ptr<gg::ISet> iset = gg::basicSet();
        std::unique_ptr<Data::PrimitiveTypeArray<double>> d1, d2;
        std::unique_ptr<Data::Array2DWrapper<double>> d3;
        std::unique_ptr<Environment> env;
        std::unique_ptr<Archive> archive;
        std::unique_ptr<TPG::TPGGraph> graph;
        std::list<std::shared_ptr<Program::Program>> progs;
        Mutator::MutationParameters params;
        uint64_t seed;
    };
    std::shared_ptr<MutWorld> mutWorld(const Spec& s, int nprogs,
                                       bool arrays)
    {
        auto w = std::make_shared<MutWorld>();
        if (arrays)
            w->iset->add<Instructions::LambdaInstruction<const double[2]>>(
                [](const double a[2]) { return a[0] * a[1]; });
        if (s.constants)
            w->iset->add<
                Instructions::LambdaInstruction<double, Data::Constant>>(
                [](double a, Data::Constant c) { return a * (double)c; });
        w->seed = s.seed;
        w->d1.reset(new Data::PrimitiveTypeArray<double>(3));
        w->d2.reset(new Data::PrimitiveTypeArray<double>(2));
        for (int i = 0; i < 3; i++)
            w->d1->setDataAt(typeid(double), i, 0.5 * i - 0.25);
        for (int i = 0; i < 2; i++)
            w->d2->setDataAt(typeid(double), i, 2.0 - i);
        w->env.reset(new Environment(w->iset->set, {*w->d1, *w->d2}, 2,
                                     s.constants));
        w->archive.reset(new Archive(20, 1.0));
        w->params = makeParams(s).mutation;
        Mutator::RNG rng(s.seed);
        Program::ProgramExecutionEngine pee(*w->env);
        // recordings of other programs with several data sets
        std::vector<std::reference_wrapper<const Data::DataHandler>> ds{
            *w->d1, *w->d2};
        static std::vector<std::shared_ptr<Program::Program>> keep;
        for (int k = 0; k < 2; k++) {
            auto p = std::make_shared<Program::Program>(*w->env);
            Mutator::ProgramMutator::initRandomProgram(*p, w->params, rng);
            keep.push_back(p);
            for (int v = 0; v < 2; v++) {
                w->d1->setDataAt(typeid(double), 0, 1.5 * v - k);
                pee.setProgram(*p);
                w->archive->addRecording(p.get(), ds, pee.executeProgram());
            }
        }
        for (int k = 0; k < nprogs; k++) {
            std::shared_ptr<Program::Program> p;
            if (k % 2 == 0 && !keep.empty())
                // same behaviour as an archived one: needs several mutations
                p = std::make_shared<Program::Program>(*keep[keep.size() - 1 -
                                                             (k / 2) % 2]);
            else {
                p = std::make_shared<Program::Program>(*w->env);
                Mutator::ProgramMutator::initRandomProgram(*p, w->params, rng);
            }
            w->progs.push_back(p);
        }
        return w;
    }
    Scenario mutScenario(const std::string& name, const Spec& s, int nprogs,
                         bool arrays)
    {
        auto w = std::make_shared<std::shared_ptr<MutWorld>>();
        Scenario sc;
        sc.name = name;
        sc.setup = [=]() { *w = mutWorld(s, nprogs, arrays); };
        auto go = [=](int threads) {
            auto& m = **w;
            Mutator::RNG rng(m.seed + 100);
            Mutator::TPGMutator::mutateNewProgramBehaviors(
                threads, m.progs, rng, m.params, *m.archive);
            std::string t;
            for (auto& p : m.progs)
                t += gg::programText(*p) + "\n";
            t += gg::archiveText(*m.archive, gg::GraphNames());
            t += fmt(" rng %llu", (unsigned long long)rng.getUnsignedInt64(
                                      0, UINT64_MAX));
            return t;
        };
        sc.body = [=]() { return go(s.threads); };
        sc.reference = [=]() { return go(1); };
        return sc;
    }

    // ------------------------------------- concurrent execution engines
    // Several engines execute roots of one instrumented graph concurrently;
    // afterwards the counters must be the sums of what each engine did.
    struct InstWorld
    {
        std::unique_ptr<gg::ISet> iset = gg::basicSet();
        std::unique_ptr<Data::PrimitiveTypeArray<double>> d;
        std::unique_ptr<Environment> env;
        std::unique_ptr<TPG::TPGGraph> g;
        TPG::TPGInstrumentedFactory f;
        std::vector<const TPG::TPGVertex*> roots;
    };
    std::shared_ptr<InstWorld> instWorld(int shape)
    {
        auto w = std::make_shared<InstWorld>();
        w->d.reset(new Data::PrimitiveTypeArray<double>(2));
        w->d->setDataAt(typeid(double), 0, 1.0);
        w->d->setDataAt(typeid(double), 1, -2.0);
        w->env.reset(new Environment(w->iset->set, {*w->d}, 2));
        w->g.reset(new TPG::TPGGraph(
            *w->env, std::make_unique<TPG::TPGInstrumentedFactory>()));
        auto prog = [&](int loc) {
            auto p = std::make_shared<Program::Program>(*w->env);
            auto& l = p->addNewLine();
            l.setInstructionIndex(0);
            l.setOperand(0, 1, loc);
            l.setOperand(1, 0, 1);
            l.setDestinationIndex(0);
            p->identifyIntrons();
            return p;
        };
        auto& a0 = w->g->addNewAction(0);
        auto& a1 = w->g->addNewAction(1);
        auto p0 = prog(0), p1 = prog(1);
        auto& t0 = w->g->addNewTeam();
        w->g->addNewEdge(t0, a0, p0);
        w->g->addNewEdge(t0, a1, p1);
        if (shape >= 1) {
            auto& t1 = w->g->addNewTeam();
            w->g->addNewEdge(t1, t0, p0);
            w->g->addNewEdge(t1, a1, p1);
            w->roots.push_back(&t1);
        }
        else
            w->roots.push_back(&t0);
        return w;
    }
    Scenario instScenario(const std::string& name, int shape, int threads,
                          int execs)
    {
        auto w = std::make_shared<std::shared_ptr<InstWorld>>();
        Scenario sc;
        sc.name = name;
        sc.cfg.atomicPoints = true;
        sc.setup = [=]() { *w = instWorld(shape); };
        auto text = [=]() {
            auto& x = **w;
            std::string t;
            for (auto v : x.g->getVertices())
                t += fmt("n%llu ",
                         (unsigned long long)
                             dynamic_cast<const TPG::TPGVertexInstrumentation*>(
                                 v)
                                 ->getNbVisits());
            for (auto& e : x.g->getEdges()) {
                auto i = dynamic_cast<const TPG::TPGEdgeInstrumented*>(e.get());
                t += fmt("e%llu/%llu ", (unsigned long long)i->getNbVisits(),
                         (unsigned long long)i->getNbTraversal());
            }
            return t;
        };
        // private engines, as in the parallel agents
        struct Worker
        {
            Data::PrimitiveTypeArray<double> d;
            Environment e;
            std::unique_ptr<TPG::TPGExecutionEngine> tee;
            Worker(InstWorld& x) : d(*x.d), e(x.iset->set, {d}, 2)
            {
                tee = x.f.createTPGExecutionEngine(e, nullptr);
            }
            void run(const TPG::TPGVertex* r, int n)
            {
                for (int i = 0; i < n; i++)
                    tee->executeFromRoot(*r);
            }
        };
        sc.body = [=]() {
            auto& x = **w;
            std::vector<std::unique_ptr<Worker>> wk;
            for (int i = 0; i < threads; i++)
                wk.emplace_back(new Worker(x));
            std::vector<std::thread> th;
            for (int i = 0; i < threads; i++)
                th.emplace_back(&Worker::run, wk[i].get(), x.roots[0], execs);
            for (auto& t : th)
                t.join();
            return text();
        };
        sc.reference = [=]() {
            auto& x = **w;
            for (int i = 0; i < threads; i++)
                Worker(x).run(x.roots[0], execs);
            return text();
        };
        return sc;
    }
    void reset(std::vector<Scenario>& v, bool result, bool sync)
    {
        for (auto& s : v) {
            s.checkResult = result;
            s.checkSync = sync;
        }
    }
} // namespace

void vp_main()
{
    const std::string& p = vp::opt.prop;
    bool T = vp::opt.thorough();
    Spec b;
    auto with = [&](std::function<void(Spec&)> f) {
        Spec s = b;
        f(s);
        return s;
    };
    // {scenarios explored by DPOR (no preemption bound)}, {scenario, bound}
    std::vector<Scenario> full;
    std::vector<std::pair<Scenario, int>> pb;
    bool evalProp = p == "C01" || p == "C02";
    if (evalProp) {
        full.push_back(parallelAgent("eval-2t-2r", with([](Spec& s) {
                                         s.roots = 2;
                                         s.archProb = 0.6;
                                         s.archSize = 4;
                                     }),
                                     1, EVAL));
        full.push_back(parallelAgent(
            "validate-2t-3r", with([](Spec& s) {
                s.mode = LearningMode::VALIDATION;
            }),
            1, EVAL));
        full.push_back(classAgent("class-eval-2t-2r",
                                  with([](Spec& s) { s.roots = 2; }), 1,
                                  EVAL));
        pb.push_back({parallelAgent("train-2t-3r", with([](Spec& s) {
                                        s.archProb = 0.7;
                                        s.maxEval = 2;
                                        s.iters = 2;
                                    }),
                                    2, TRAIN),
                      T ? 3 : 2});
        // equal results
        full.push_back(parallelAgent("eval-2t-3r-equal", with([](Spec& s) {
                                         s.coarse = true;
                                         s.archProb = 0.3;
                                     }),
                                     1, EVAL));
        pb.push_back({parallelAgent("train-3t-5r-equal", with([](Spec& s) {
                                        s.threads = 3;
                                        s.roots = 5;
                                        s.coarse = true;
                                        s.archSize = 3;
                                    }),
                                    1, TRAIN),
                      T ? 2 : 1});
        pb.push_back({duelAgent("duel-train-3t-4r-equal", with([](Spec& s) {
                                    s.threads = 3;
                                    s.roots = 4;
                                    s.coarse = true;
                                    s.archSize = 3;
                                }),
                                1, TRAIN),
                      T ? 2 : 1});
        pb.push_back({parallelAgent("eval-3t-3r", with([](Spec& s) {
                                        s.threads = 3;
                                        s.two = true;
                                    }),
                                    1, EVAL),
                      T ? 3 : 2});
        pb.push_back({duelAgent("duel-train-2t-2r", with([](Spec& s) {
                                    s.roots = 2;
                                    s.constants = 1;
                                }),
                                1, TRAIN),
                      T ? 3 : 2});
        pb.push_back({classAgent("class-train-2t-4r", with([](Spec& s) {
                                     s.roots = 4;
                                 }),
                                 1, TRAIN),
                      T ? 3 : 2});
        pb.push_back({parallelAgent("train-inst-2t-3r", with([](Spec& s) {
                                        s.instrumented = true;
                                        s.validation = true;
                                        s.force = true;
                                    }),
                                    1, TRAIN),
                      T ? 3 : 2});
        if (T) {
            pb.push_back({parallelAgent("train-4t-4r", with([](Spec& s) {
                                            s.threads = 4;
                                            s.roots = 4;
                                        }),
                                        2, TRAIN),
                          1});
            full.push_back(parallelAgent("eval-2t-3r", b, 2, EVAL));
            full.push_back(parallelAgent("eval-3t-2r", with([](Spec& s) {
                                             s.roots = 2;
                                             s.threads = 3;
                                         }),
                                         1, EVAL));
            full.push_back(duelAgent(
                "duel-eval-2t-2r", with([](Spec& s) { s.roots = 2; }), 0,
                EVAL));
            for (uint64_t sd = 2; sd < 6; sd++)
                pb.push_back({parallelAgent(fmt("train-2gen-seed%d", (int)sd),
                                            with([&](Spec& s) {
                                                s.seed = sd;
                                                s.gens = 2;
                                                s.archSize = 3;
                                                s.constants = sd % 2;
                                            }),
                                            (int)sd, TRAIN),
                              1});
        }
    }
    if (p == "C03" || p == "C02") {
        full.push_back(mutScenario("mutate-2t-2p",
                                   with([](Spec& s) { s.seed = 3; }), 2,
                                   false));
        full.push_back(mutScenario("mutate-2t-3p-force", with([](Spec& s) {
                                       s.force = true;
                                       s.constants = 2;
                                   }),
                                   3, true));
        full.push_back(mutScenario("mutate-3t-2p", with([](Spec& s) {
                                       s.threads = 3;
                                       s.constants = 1;
                                   }),
                                   2, true));
        if (T || p == "C03") {
            full.push_back(mutScenario("mutate-3t-3p",
                                       with([](Spec& s) { s.threads = 3; }), 3,
                                       true));
            for (uint64_t sd = 10; sd < (T ? 30 : 14); sd++)
                full.push_back(mutScenario(fmt("mutate-2t-3p-seed%d", (int)sd),
                                           with([&](Spec& s) {
                                               s.seed = sd;
                                               s.constants = sd % 3;
                                               s.force = sd % 2;
                                               s.maxProgramSize = 2 + sd % 3;
                                           }),
                                           3, sd % 2));
        }
        // many programs, many threads
        if (p == "C03") {
            pb.push_back({mutScenario("mutate-2t-12p", with([](Spec& s) {
                                          s.constants = 2;
                                          s.maxProgramSize = 9;
                                      }),
                                      12, true),
                          T ? 2 : 1});
            pb.push_back({mutScenario("mutate-3t-7p", with([](Spec& s) {
                                          s.threads = 3;
                                          s.maxProgramSize = 4;
                                      }),
                                      7, false),
                          T ? 2 : 1});
            pb.push_back({mutScenario("mutate-6t-5p", with([](Spec& s) {
                                          s.threads = 6;
                                          s.constants = 1;
                                      }),
                                      5, true),
                          0});
        }
        if (T)
            full.push_back(mutScenario("mutate-4t-4p",
                                       with([](Spec& s) { s.threads = 4; }), 4,
                                       true));
    }
    if (p == "C04" || p == "C02") {
        full.push_back(instScenario("inst-2t-1x", 0, 2, 1));
        if (p == "C04") {
            full.push_back(instScenario("inst-deep-2t-1x", 1, 2, 1));
            pb.push_back({instScenario("inst-2t-2x", 0, 2, 2), T ? 4 : 3});
            pb.push_back({instScenario("inst-deep-3t-1x", 1, 3, 1), T ? 3 : 2});
            if (T)
                full.push_back(instScenario("inst-3t-1x", 0, 3, 1));
            auto s = parallelAgent("agent-inst-2t-2r", with([](Spec& s) {
                                       s.instrumented = true;
                                       s.roots = 2;
                                   }),
                                   1, EVAL);
            pb.push_back({s, T ? 3 : 2});
        }
    }
    // every combination of the parameters of an evaluation
    Scenarios grid;
    if (evalProp) {
        struct Kind
        {
            const char* name;
            What what;
            LearningMode mode;
            bool validation;
        };
        std::vector<Kind> kinds = {
            {"eval", EVAL, LearningMode::TRAINING, false},
            {"train", TRAIN, LearningMode::TRAINING, false},
            {"validate", EVAL, LearningMode::VALIDATION, false},
            {"train-validate", TRAIN, LearningMode::TRAINING, true},
        };
        std::vector<int> threads = {2, 3}, roots = {1, 2, 3, 4};
        std::vector<size_t> sizes = {0, 1, 3, 5, 30};
        std::vector<double> probs = {1.0, 0.5, 0.1};
        std::vector<int> iters = {1, 2}, warms = {1};
        if (T) {
            threads = {2, 3, 4};
            roots = {1, 2, 3, 4, 5};
            sizes = {0, 1, 2, 3, 4, 5, 6, 8, 12, 30};
            warms = {0, 1, 2};
        }
        bool judgeResult = p != "C02";
        for (int agent = 0; agent < 3; agent++)
            for (auto& k : kinds)
                for (int t : threads)
                    for (int r : roots)
                        for (size_t z : sizes)
                            for (double pr : probs)
                                for (int it : iters)
                                    for (int wm : warms) {
                                        if (p == "C02" &&
                                            (z != 3 || pr != 1.0))
                                            continue;
                                        // nothing is archived
                                        if (k.what == EVAL &&
                                            k.mode !=
                                                LearningMode::TRAINING &&
                                            (z != 3 || pr != 1.0))
                                            continue;
                                        if (agent == 2 && r == 1)
                                            continue;
                                        if (!T && pr == 0.1 && z != 30)
                                            continue;
                                        Spec s = b;
                                        s.threads = t;
                                        s.roots = r;
                                        s.archSize = z;
                                        s.archProb = pr;
                                        s.iters = it;
                                        s.mode = k.mode;
                                        s.validation = k.validation;
                                        // rewiring to actions fails when
                                        // they outnumber the teams (C07)
                                        s.destAction = 0.0;
                                        s.seed = 1 + grid.size() % 7;
                                        s.maxEval = it == 2 && z == 3 ? 2 : 1000;
                                        s.coarse = grid.size() % 3 == 0;
                                        auto name = fmt(
                                            "%s-%s-%dt-%dr-a%zu-p%g-i%d-w%d",
                                            agent == 0   ? "parallel"
                                            : agent == 1 ? "class"
                                                         : "duel",
                                            k.name, t, r, z, pr, it, wm);
                                        grid.push_back([=] {
                                            Scenario x =
                                                agent == 0
                                                    ? parallelAgent(name, s, wm,
                                                                    k.what)
                                                : agent == 1
                                                    ? classAgent(name, s, wm,
                                                                 k.what)
                                                    : duelAgent(name, s, wm,
                                                                k.what);
                                            x.checkResult = judgeResult;
                                            x.checkSync = !judgeResult;
                                            return x;
                                        });
                                    }
        // larger evaluations
        for (int agent = 0; agent < 3; agent++)
            for (auto& k : kinds)
                for (int t : {2, 5})
                    for (int r : {7, 9, 12})
                        for (size_t z : {(size_t)4, (size_t)60}) {
                            if (p == "C02" && (z != 4 || r == 12))
                                continue;
                            if (t == 5 && !T && (k.what != EVAL || z != 4 || r != 9))
                                continue;
                            Spec s = b;
                            s.threads = t;
                            s.roots = r;
                            s.archSize = z;
                            s.iters = 1 + r % 2;
                            s.mode = k.mode;
                            s.validation = k.validation;
                            s.destAction = 0.0;
                            s.seed = 1 + grid.size() % 7;
                            s.constants = (int)(grid.size() % 3);
                            s.coarse = grid.size() % 4 == 1;
                            auto name = fmt("%s-%s-%dt-%dr-a%zu-large",
                                            agent == 0   ? "parallel"
                                            : agent == 1 ? "class"
                                                         : "duel",
                                            k.name, t, r, z);
                            grid.push_back([=] {
                                Scenario x =
                                    agent == 0
                                        ? parallelAgent(name, s, 1, k.what)
                                    : agent == 1
                                        ? classAgent(name, s, 1, k.what)
                                        : duelAgent(name, s, 1, k.what);
                                x.checkResult = judgeResult;
                                x.checkSync = !judgeResult;
                                return x;
                            });
                        }
        vp::bound("parameters",
                  fmt("%zu combinations of agent, kind of evaluation, number "
                      "of threads, roots and iterations, size and probability "
                      "of the archive, each with every schedule of at most %d "
                      "preemptions",
                      grid.size(), T ? 1 : 0));
    }
    if (p == "C03") {
        for (int t : {2, 3})
            for (int n : {1, 2, 4, 6})
                for (bool force : {false, true})
                    for (int k : {0, 3})
                        for (size_t z : {1, 3, 7})
                            for (bool arrays : {false, true}) {
                                Spec s = b;
                                s.threads = t;
                                s.force = force;
                                s.constants = k;
                                s.maxProgramSize = z;
                                s.archSize = grid.size() % 3 ? 6 : 40;
                                s.seed = 1 + grid.size() % 11;
                                auto name =
                                    fmt("mutate-%dt-%dp-f%d-k%d-l%zu-%d", t, n,
                                        force, k, z, arrays);
                                grid.push_back([=] {
                                    return mutScenario(name, s, n, arrays);
                                });
                            }
        vp::bound("parameters",
                  fmt("%zu combinations of the numbers of threads, programs, "
                      "constants and lines, kind of data and forced changes, "
                      "each with every schedule of at most %d preemptions",
                      grid.size(), T ? 2 : 1));
    }
    reset(full, p != "C02", p == "C02");
    for (auto& x : pb) {
        x.first.checkResult = p != "C02";
        x.first.checkSync = p == "C02";
    }
    vp::bound("threads", "2 to 4 (with the main thread)");
    vp::bound("scheduling points",
              "thread start/join, mutex lock, condition wait; 64-bit atomics "
              "in the instrumentation scenarios");
    std::string names;
    for (auto& s : full)
        names += s.name + " ";
    vp::bound("all schedules up to equivalence (DPOR)", names);
    names = "";
    for (auto& s : pb)
        names += s.first.name + "<=" + std::to_string(s.second) + " ";
    vp::bound("all schedules within a preemption bound", names);
    if (!full.empty())
        exploreDPOR(p, full, T ? 200000 : 4000);
    for (auto& x : pb)
        explorePB(x.first, x.second);
    if (!grid.empty())
        explorePBAll("parameters", grid, p == "C03" ? (T ? 2 : 1) : T ? 1 : 0, 1,
                     true);
    if (vp::counter("dpor_truncated"))
        vp::notExhaustive("a DPOR exploration reached its schedule limit");
}
