// Pieces shared by the harnesses of the learning agents: a scripted learning
// environment, vertices allocated at chosen addresses, an observing logger.
#ifndef LEARN_H
#define LEARN_H
#include "gg.h"
#include "vp.h"
#include <functional>
#include <set>
#include <sstream>

namespace ln {
    using Learn::LearningMode;
    using Vertex = const TPG::TPGVertex*;

    // ------------------------------------------------ addresses of vertices
    // never: the memory of a removed vertex is given back to the system;
    // lifo, fifo: it is used again for the next vertices.
    enum Reuse
    {
        NEVER,
        LIFO,
        FIFO
    };
    inline Reuse reuse = NEVER;
    inline std::vector<void*>& freed(size_t n)
    {
        static std::map<size_t, std::vector<void*>> f;
        return f[n];
    }
    inline void* take(size_t n)
    {
        auto& f = freed(n);
        if (reuse == NEVER || f.empty())
            return ::operator new(n);
        void* p;
        if (reuse == LIFO) {
            p = f.back();
            f.pop_back();
        }
        else {
            p = f.front();
            f.erase(f.begin());
        }
        return p;
    }
    inline void give(void* p, size_t n)
    {
        if (reuse == NEVER)
            ::operator delete(p);
        else
            freed(n).push_back(p);
    }
    struct Team : TPG::TPGTeam
    {
        static void* operator new(size_t n)
        {
            return take(n);
        }
        static void operator delete(void* p, size_t n)
        {
            give(p, n);
        }
    };
    struct Action : TPG::TPGAction
    {
        using TPG::TPGAction::TPGAction;
        static void* operator new(size_t n)
        {
            return take(n);
        }
        static void operator delete(void* p, size_t n)
        {
            give(p, n);
        }
    };
    struct Factory : TPG::TPGFactory
    {
        std::shared_ptr<TPG::TPGGraph> createTPGGraph(
            const Environment& env) const override
        {
            return std::make_shared<TPG::TPGGraph>(env,
                                                   std::make_unique<Factory>());
        }
        TPG::TPGTeam* createTPGTeam() const override
        {
            return new Team();
        }
        TPG::TPGAction* createTPGAction(const uint64_t id) const override
        {
            return new Action(id);
        }
    };

    // ------------------------------------------------- scripted environment
    struct Reset
    {
        size_t seed;
        LearningMode mode;
        uint16_t it;
        uint64_t gen;
    };
    // What the environment is told to do and what is noted of its use.
    struct Script
    {
        std::function<double()> score = [] { return 0.0; };
        std::function<bool(uint64_t)> terminal; // (number of actions done)
        std::function<void(const Reset&)> onReset;
        std::function<void(uint64_t)> onAction;
        std::function<void()> onScore;
        uint64_t episodes = 0;
        double lastScore = 0;
    };
    template <class Base> class ScriptedEnv : public Base
    {
      public:
        Script& s;
        Data::PrimitiveTypeArray<double> data;
        bool inEpisode = false;
        uint64_t actions = 0, gen = 0, it = 0;
        mutable std::map<uint64_t, bool> asked; // actions done -> terminal
        mutable bool scored = false;
        mutable double value = 0;

        ScriptedEnv(uint64_t nbActions, Script& sc)
            : Base(nbActions), s(sc), data(2)
        {
        }
        // never zero: programs must be able to give new results
        void move()
        {
            data.setDataAt(typeid(double), 0,
                           (double)(int)((gen * 5 + it * 2 + actions * 3) % 7) -
                               2.75);
            data.setDataAt(typeid(double), 1,
                           (double)(int)((gen + it * 3 + actions * 2) % 5) - 1.375);
        }
        void reset(size_t seed = 0, LearningMode mode = LearningMode::TRAINING,
                   uint16_t iter = 0, uint64_t g = 0) override
        {
            resetBase(seed, mode, iter, g);
            it = iter;
            gen = g;
            s.episodes++;
            inEpisode = true;
            actions = 0;
            asked.clear();
            scored = false;
            move();
            if (s.onReset)
                s.onReset({seed, mode, iter, g});
        }
        virtual void resetBase(size_t, LearningMode, uint16_t, uint64_t)
        {
        }
        virtual void doBase(uint64_t a)
        {
            Learn::LearningEnvironment::doAction(a);
        }
        void doAction(uint64_t a) override
        {
            if (s.onAction)
                s.onAction(a);
            doBase(a);
            actions++;
            move();
        }
        std::vector<std::reference_wrapper<const Data::DataHandler>>
        getDataSources() override
        {
            return {data};
        }
        bool isTerminal() const override
        {
            auto it = asked.find(actions);
            if (it == asked.end())
                it = asked
                         .emplace(actions, s.terminal ? s.terminal(actions)
                                                      : actions >= 1)
                         .first;
            return it->second;
        }
        double episodeScore() const
        {
            if (!scored) {
                scored = true;
                if (s.onScore)
                    s.onScore();
                value = s.score();
            }
            return value;
        }
    };
    struct Env : ScriptedEnv<Learn::LearningEnvironment>
    {
        using ScriptedEnv::ScriptedEnv;
        double getScore() const override
        {
            return episodeScore();
        }
    };
    struct ClassEnv : ScriptedEnv<Learn::ClassificationLearningEnvironment>
    {
        using ScriptedEnv::ScriptedEnv;
        std::function<uint64_t(uint64_t)> classOf = [](uint64_t) { return 0; };
        void resetBase(size_t seed, LearningMode m, uint16_t it,
                       uint64_t gen) override
        {
            ClassificationLearningEnvironment::reset(seed, m, it, gen);
        }
        void doBase(uint64_t a) override
        {
            currentClass = classOf(actions);
            ClassificationLearningEnvironment::doAction(a);
        }
    };
    struct AdvEnv : ScriptedEnv<Learn::AdversarialLearningEnvironment>
    {
        using ScriptedEnv::ScriptedEnv;
        std::function<std::vector<double>()> scores;
        mutable std::vector<double> drawn;
        std::shared_ptr<Learn::AdversarialEvaluationResult> getScores()
            const override
        {
            episodeScore();
            std::vector<double> v = scores();
            if (v.size() == 1)
                return std::make_shared<Learn::AdversarialEvaluationResult>(
                    std::initializer_list<double>{v[0]});
            if (v.size() == 2)
                return std::make_shared<Learn::AdversarialEvaluationResult>(
                    std::initializer_list<double>{v[0], v[1]});
            if (v.size() == 3)
                return std::make_shared<Learn::AdversarialEvaluationResult>(
                    std::initializer_list<double>{v[0], v[1], v[2]});
            if (v.size() == 4)
                return std::make_shared<Learn::AdversarialEvaluationResult>(
                    std::initializer_list<double>{v[0], v[1], v[2], v[3]});
            if (v.size() == 5)
                return std::make_shared<Learn::AdversarialEvaluationResult>(
                    std::initializer_list<double>{v[0], v[1], v[2], v[3],
                                                  v[4]});
            abort();
        }
    };

    // ----------------------------------------------------------- observer
    struct Mon : Log::LALogger
    {
        std::ostringstream sink;
        std::function<void(uint64_t)> onNew;
        std::function<void()> onPopulate, onDecimate, onEnd;
        std::function<void(gg::Results&)> onEvaluate, onValidate;
        Mon(Learn::LearningAgent& la) : LALogger(la, sink)
        {
        }
        void logHeader() override
        {
        }
        void logNewGeneration(uint64_t& g) override
        {
            if (onNew)
                onNew(g);
        }
        void logAfterPopulateTPG() override
        {
            if (onPopulate)
                onPopulate();
        }
        void logAfterEvaluate(gg::Results& r) override
        {
            if (onEvaluate)
                onEvaluate(r);
        }
        void logAfterDecimate() override
        {
            if (onDecimate)
                onDecimate();
        }
        void logAfterValidate(gg::Results& r) override
        {
            if (onValidate)
                onValidate(r);
        }
        void logEndOfTraining() override
        {
            if (onEnd)
                onEnd();
        }
    };

    // ---------------------------------------------------------- parameters
    inline Learn::LearningParameters params(size_t nbRoots, double ratio)
    {
        Learn::LearningParameters p;
        p.mutation.tpg.nbRoots = nbRoots;
        p.mutation.tpg.maxInitOutgoingEdges = 2;
        p.mutation.tpg.maxOutgoingEdges = 3;
        p.mutation.tpg.pEdgeDeletion = 0.5;
        p.mutation.tpg.pEdgeAddition = 0.5;
        p.mutation.tpg.pProgramMutation = 0.3;
        p.mutation.tpg.pEdgeDestinationChange = 0.4;
        p.mutation.tpg.pEdgeDestinationIsAction = 0.0;
        p.mutation.prog.maxProgramSize = 4;
        p.mutation.prog.pDelete = 0.5;
        p.mutation.prog.pAdd = 0.5;
        p.mutation.prog.pMutate = 0.6;
        p.mutation.prog.pSwap = 0.3;
        p.archiveSize = 6;
        p.archivingProbability = 0.5;
        p.nbIterationsPerPolicyEvaluation = 1;
        p.maxNbActionsPerEval = 4;
        p.ratioDeletedRoots = ratio;
        p.nbGenerations = 3;
        p.maxNbEvaluationPerPolicy = 1000;
        p.nbRegisters = 2;
        p.nbThreads = 1;
        return p;
    }
    inline bool isTeam(Vertex v)
    {
        return dynamic_cast<const TPG::TPGTeam*>(v) != nullptr;
    }
    inline std::set<Vertex> vertexSet(const TPG::TPGGraph& g)
    {
        auto v = g.getVertices();
        return {v.begin(), v.end()};
    }
    inline bool near(double a, double b)
    {
        return a == b ||
               std::fabs(a - b) <= 1e-9 * std::max(1.0, std::max(std::fabs(a),
                                                                 std::fabs(b)));
    }
    // content of an archive, whatever the identifiers of the data handlers
    inline std::string archText(const Archive& a, const gg::GraphNames& n)
    {
        std::ostringstream o;
        std::map<const Program::Program*, int> dead;
        auto h = a.getDataHandlers();
        for (size_t i = 0; i < a.getNbRecordings(); i++) {
            auto& r = a.at(i);
            auto it = n.p.find(r.prog);
            if (it != n.p.end())
                o << "p" << it->second;
            else
                o << "x"
                  << dead.emplace(r.prog, (int)dead.size()).first->second;
            o << "{";
            auto d = h.find(r.dataHash);
            if (d == h.end())
                o << "missing";
            else
                for (auto x : d->second)
                    o << gg::handlerText(x.get()) << "|";
            o << "}=" << gg::bits(r.result) << " ";
        }
        o << h.size() << " data";
        return o.str();
    }
    inline std::set<Vertex> reachable(Vertex from)
    {
        std::set<Vertex> r{from};
        std::vector<Vertex> todo{from};
        while (!todo.empty()) {
            Vertex v = todo.back();
            todo.pop_back();
            for (auto e : v->getOutgoingEdges())
                if (r.insert(e->getDestination()).second)
                    todo.push_back(e->getDestination());
        }
        return r;
    }
} // namespace ln
#endif
