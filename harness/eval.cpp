// C20 protocol of an evaluation and combination of results
// C21 classification
// C22 adversarial evaluation
#include <fcntl.h>
#include <unistd.h>
#include "learn.h"
using namespace ln;
using vp::Chooser;
using vp::fmt;

namespace {
    void freshPool(Reuse r)
    {
        for (size_t n = 0; n < 512; n++) {
            for (void* p : freed(n))
                ::operator delete(p);
            freed(n).clear();
        }
        reuse = r;
    }
    template <class Base> struct Probe : Base
    {
        std::function<void(const Learn::Job&)> onJob;
        std::function<void()> afterJob;
        using Base::Base;
        std::shared_ptr<Learn::EvaluationResult> evaluateJob(
            TPG::TPGExecutionEngine& tee, const Learn::Job& job, uint64_t g,
            LearningMode m, Learn::LearningEnvironment& le) const override
        {
            if (onJob)
                onJob(job);
            auto r = Base::evaluateJob(tee, job, g, m, le);
            if (afterJob)
                afterJob();
            return r;
        }
    };

    // Follows the calls received by the environment and reports the first one
    // which does not belong to the protocol of an evaluation.
    struct Watch
    {
        Script& s;
        const Learn::LearningParameters& p;
        const Environment& env;
        LearningMode mode = LearningMode::TRAINING;
        uint64_t gen = 0;
        size_t iterations = 1;       // episodes of a job
        std::vector<Vertex> players; // of the current job
        bool open = false;           // an episode was started
        bool told = true;            // iteration and generation are expected
        size_t episode = 0;
        uint64_t actions = 0;
        std::map<uint64_t, bool> asked;
        std::vector<size_t> seeds; // of the iterations of this generation
        // decisions
        std::function<bool()> stop;
        std::function<double()> score;
        std::vector<double> drawn; // scores of the episodes of this job
        Watch(Script& sc, const Learn::LearningParameters& pa,
              const Environment& e)
            : s(sc), p(pa), env(e)
        {
            s.onReset = [this](const Reset& r) { reset(r); };
            s.terminal = [this](uint64_t) {
                bool b = stop();
                asked[actions] = b;
                return b;
            };
            s.onAction = [this](uint64_t a) { action(a); };
            s.onScore = [this] { end(); };
            s.score = [this] {
                double d = score ? score() : 0;
                drawn.push_back(d);
                return d;
            };
        }
        uint64_t limit() const
        {
            return p.maxNbActionsPerEval * players.size();
        }
        void begin(LearningMode m, uint64_t g)
        {
            mode = m;
            gen = g;
            seeds.clear();
        }
        void job(const std::vector<Vertex>& v)
        {
            players = v;
            episode = 0;
            open = false;
            drawn.clear();
        }
        void reset(const Reset& r)
        {
            vp::count("episodes");
            VP_CHECK(!open, "protocol",
                     "the environment is reset before the score of the episode "
                     "is read");
            VP_CHECK(episode < iterations, "protocol",
                     "more than %zu episodes for a policy", iterations);
            VP_CHECK(r.mode == mode, "mode", "reset with mode %d instead of %d",
                     (int)r.mode, (int)mode);
            VP_CHECK(r.it == episode && r.gen == gen, "iteration-number",
                     "episode %zu of generation %zu is announced as episode %u "
                     "of generation %zu", episode, gen, (unsigned)r.it, r.gen);
            if (seeds.size() <= episode) {
                VP_CHECK(std::count(seeds.begin(), seeds.end(), r.seed) == 0,
                         "seed", "two episodes of a policy use the same seed");
                seeds.push_back(r.seed);
            }
            VP_CHECK(seeds[episode] == r.seed, "seed",
                     "policies are not evaluated with the same seed");
            open = true;
            actions = 0;
            asked.clear();
        }
        void action(uint64_t a)
        {
            vp::count("operations");
            VP_CHECK(open, "protocol", "an action outside of any episode");
            VP_CHECK(actions < limit(), "too-many-actions",
                     "more than %zu actions in an episode", (size_t)limit());
            // the state may be terminal: it has to be asked at least before
            // each turn
            bool newTurn = actions % players.size() == 0;
            auto it = asked.find(actions);
            VP_CHECK(it != asked.end() || !newTurn, "protocol",
                     "an action is done without asking whether the state is "
                     "terminal");
            VP_CHECK(it == asked.end() || !it->second, "terminal",
                     "an action is done in a terminal state");
            Vertex who = players[actions % players.size()];
            TPG::TPGExecutionEngine e(env);
            auto want = dynamic_cast<const TPG::TPGAction*>(
                e.executeFromRoot(*who).back());
            VP_CHECK(want && want->getActionID() == a, "wrong-action",
                     "action %zu is done instead of %zu, the one of the policy "
                     "whose turn it is", a, want ? want->getActionID() : 999);
            actions++;
        }
        void end()
        {
            VP_CHECK(open, "protocol", "a score is read outside of an episode");
            auto it = asked.find(actions);
            VP_CHECK((it != asked.end() && it->second) || actions == limit(),
                     "stopped-early",
                     "the episode is ended after %zu actions of at most %zu in "
                     "a state which is not terminal", (size_t)actions,
                     (size_t)limit());
            open = false;
            episode++;
        }
        void done()
        {
            VP_CHECK(!open, "protocol", "the score of an episode is not read");
            VP_CHECK(episode == iterations, "protocol",
                     "%zu episodes instead of %zu", episode, iterations);
        }
    };
    const char* MODES[] = {"training", "validation", "testing"};

    // --------------------------------------------------------------- C20
    double f1(const std::vector<std::pair<int, int>>& h, int k)
    {
        double tp = 0, fp = 0, fn = 0;
        for (auto& x : h) {
            tp += x.first == k && x.second == k;
            fp += x.first != k && x.second == k;
            fn += x.first == k && x.second != k;
        }
        return tp == 0 ? 0 : 2 * tp / (2 * tp + fp + fn);
    }
    // The classification agents read the table and never the score: the end of
    // an episode is the next reset or the end of the job.
    template <class AgentT, class EnvT>
    void protocol20(const char* name, int iters, int maxActions, int dev,
                    int nbActionRoots, uint64_t nbActions = 2)
    {
        constexpr bool cls = std::is_same<EnvT, ClassEnv>::value;
        vp::explore(
            fmt("%s iterations=%d actions=%d", name, iters, maxActions),
            [&](Chooser& ch) {
                freshPool(NEVER);
                auto bin = [&](int def) {
                    return dev < 0 ? ch.pick(2) : ch.pickDev(2, def);
                };
                int modeI = ch.pick(3);
                LearningMode mode = (LearningMode)modeI;
                uint64_t gens[] = {0, 1, (1ULL << 33) + 9};
                uint64_t big[] = {300, 9, 70001};
                uint64_t gen = dev == 1 ? big[modeI] : gens[ch.pick(3)];
                bool one = dev == 1 ? modeI == 1 : ch.pick(2);
                auto is = gg::basicSet();
                Script s;
                EnvT le(nbActions, s);
                auto p = params(2, 0.5);
                p.nbIterationsPerPolicyEvaluation = iters;
                p.maxNbActionsPerEval = maxActions;
                Factory f;
                Probe<AgentT> a(le, is->set, p, f);
                a.init(5 + modeI);
                for (int i = 0; i < nbActionRoots; i++)
                    a.getTPGGraph()->addNewAction(1);
                Watch w(s, p, a.getEnvironment());
                w.iterations = iters;
                int k = 0;
                w.stop = [&] { return bin(0); };
                w.score = [&] {
                    k++;
                    return bin(k % 2) ? 1.0 : -2.5;
                };
                w.begin(mode, gen);
                std::map<Vertex, double> want;
                std::map<Vertex, std::vector<double>> wantClass;
                std::map<Vertex, std::vector<size_t>> nbClass;
                std::vector<std::vector<std::pair<int, int>>> hist;
                Vertex current = nullptr;
                if constexpr (cls) {
                    le.classOf = [&](uint64_t n) -> uint64_t {
                        return nbActions == 2 ? bin(n % 2)
                                              : ch.pick((int)nbActions);
                    };
                    auto rs = s.onReset;
                    s.onReset = [&, rs](const Reset& r) {
                        if (w.open)
                            w.end();
                        hist.emplace_back();
                        rs(r);
                    };
                }
                a.onJob = [&](const Learn::Job& j) {
                    current = j.getRoot();
                    w.job({current});
                    hist.clear();
                };
                a.afterJob = [&] {
                    if (cls && w.open)
                        w.end();
                    w.done();
                    double sum = 0;
                    for (double d : w.drawn)
                        sum += d;
                    want[current] = sum / iters;
                };
                auto checkResult = [&](Vertex v, Learn::EvaluationResult& r) {
                    VP_CHECK(want.count(v), "not-evaluated",
                             "a root has a result and was not evaluated");
                    if (cls)
                        return;
                    VP_CHECK(near(r.getResult(), want[v]) &&
                                 r.getNbEvaluation() == (size_t)iters,
                             "mean", "the result is %g (%zu) instead of %g (%d)",
                             r.getResult(), r.getNbEvaluation(), want[v], iters);
                };
                auto roots = a.getTPGGraph()->getRootVertices();
                gg::GraphNames n;
                std::string before = gg::graphText(*a.getTPGGraph(), &n);
                std::string arch = archText(a.getArchive(), n);
                Mutator::RNG rngBefore = a.getRNG();
                vp::describe(fmt("%s, generation %zu, %s: ", MODES[modeI],
                                 (size_t)gen, one ? "one root" : "all roots"));
                if (one) {
                    TPG::TPGGraph other(a.getEnvironment());
                    bool threw = false;
                    try {
                        a.evaluateOneRoot(gen, mode, &other.addNewTeam());
                    }
                    catch (std::runtime_error&) {
                        threw = true;
                    }
                    VP_CHECK(threw, "unknown-root",
                             "evaluating a vertex of another graph is accepted");
                    VP_CHECK(s.episodes == 0, "unknown-root",
                             "an episode is started for an unknown root");
                    Vertex r = roots[ch.pick((int)roots.size())];
                    auto res = a.evaluateOneRoot(gen, mode, r);
                    VP_CHECK(want.size() == 1, "other-root",
                             "%zu roots evaluated instead of one", want.size());
                    checkResult(r, *res);
                }
                else {
                    auto res = a.evaluateAllRoots(gen, mode);
                    VP_CHECK(res.size() == roots.size(), "results",
                             "%zu results for %zu roots", res.size(),
                             roots.size());
                    for (auto v : roots) {
                        auto it = std::find_if(
                            res.begin(), res.end(),
                            [&](auto& x) { return x.second == v; });
                        VP_CHECK(it != res.end(), "results",
                                 "a root has no result");
                        checkResult(v, *it->first);
                    }
                }
                VP_CHECK(before == gg::graphText(*a.getTPGGraph()),
                         "graph-changed", "an evaluation changes the graph");
                if (mode != LearningMode::TRAINING) {
                    VP_CHECK(arch == archText(a.getArchive(), n), "archived",
                             "an evaluation for %s changes the archive",
                             MODES[modeI]);
                    Mutator::RNG rngAfter = a.getRNG();
                    VP_CHECK(rngBefore.getUnsignedInt64(0, UINT64_MAX) ==
                                 rngAfter.getUnsignedInt64(0, UINT64_MAX),
                             "draws",
                             "an evaluation for %s changes the next draws of "
                             "the training", MODES[modeI]);
                }
                vp::distinct("states", vp::digest(ch.vectorText()));
            },
            {.maxDev = dev < 0 ? 0 : dev, .splitDepth = 5});
        vp::bound(fmt("protocol (%s, %d iterations, %d actions)", name, iters,
                      maxActions),
                  dev < 0 ? "every terminal decision and score of two values"
                          : fmt("up to %d decisions changed", dev));
    }

    // what is printed is left out
    struct Quiet
    {
        int out;
        Quiet()
        {
            fflush(stdout);
            out = dup(1);
            int null = open("/dev/null", O_WRONLY);
            dup2(null, 1);
            close(null);
        }
        ~Quiet()
        {
            fflush(stdout);
            dup2(out, 1);
            close(out);
        }
    };
    void train20()
    {
        vp::explore("train", [&](Chooser& ch) {
            freshPool(NEVER);
            auto is = gg::basicSet();
            Script s;
            Env le(2, s);
            auto p = params(3, 0.5);
            const int G[] = {0, 1, 2, 3, 12};
            p.nbGenerations = G[ch.pick(5)];
            p.doValidation = ch.pick(2);
            int at = ch.pick(6) - 1; // generation where the stop is asked
            if (at == 4)
                at = 10;
            int where = at < 0 ? 0 : ch.pick(3);
            int kind = ch.pick(2);
            Factory f;
            std::unique_ptr<Learn::LearningAgent> a;
            if (kind == 0)
                a.reset(new Learn::LearningAgent(le, is->set, p, f));
            else
                a.reset(new Learn::ParallelLearningAgent(le, is->set, p, f));
            a->init(1);
            volatile bool alt = at == -1;
            Mon m(*a);
            std::string log;
            uint64_t expected = 0;
            m.onNew = [&](uint64_t g) {
                VP_CHECK(g == expected, "generation-number",
                         "generation %zu is announced as %zu", expected, g);
                log += "n";
                if (where == 0 && (int)g == at)
                    alt = true;
            };
            m.onPopulate = [&] { log += "p"; };
            m.onEvaluate = [&](gg::Results&) {
                log += "e";
                if (where == 1 && (int)expected == at)
                    alt = true;
            };
            m.onDecimate = [&] { log += "d"; };
            m.onValidate = [&](gg::Results&) { log += "v"; };
            m.onEnd = [&] {
                log += "f";
                if (where == 2 && (int)expected == at)
                    alt = true;
                expected++;
            };
            bool bar = ch.pick(2);
            uint64_t n;
            {
                Quiet quiet;
                n = a->train(alt, bar);
            }
            uint64_t want =
                at < 0 ? 0 : std::min<uint64_t>(p.nbGenerations, at + 1);
            VP_CHECK(n == want, "generations",
                     "%zu generations instead of %zu", n, want);
            std::string wl;
            for (uint64_t i = 0; i < want; i++)
                wl += p.doValidation ? "npedvf" : "npedf";
            VP_CHECK(log == wl, "phases", "phases %s instead of %s",
                     log.c_str(), wl.c_str());
            vp::count("operations", want + 1);
            vp::distinct("states", vp::digest(ch.vectorText()));
        });
        vp::bound("train", "0-3 and 12 generations, with and without validation, stop "
                           "asked at any phase of any generation, with and "
                           "without progress bar");
    }

    // ----- combination of results
    struct R3
    {
        std::unique_ptr<Learn::EvaluationResult> r;
        std::vector<double> v;
        std::vector<size_t> n;
    };
    // kind 0 plain, 1 classification of 2 classes, 2 of 3 classes, 3
    // adversarial of 2 policies, 4 of 3
    R3 result20(Chooser& ch, int kind, int values, int counts)
    {
        static const double V[] = {0.5, -2, 0, 3};
        static const size_t N[] = {1, 0, 2, 5};
        R3 x;
        size_t m = kind == 0 ? 1 : kind % 2 ? 2 : 3;
        for (size_t i = 0; i < m; i++) {
            x.v.push_back(V[ch.pick(values)]);
            if (i == 0 || kind == 1 || kind == 2)
                x.n.push_back(N[ch.pick(counts)]);
            else
                x.n.push_back(x.n[0]);
        }
        if (kind == 0)
            x.r.reset(new Learn::EvaluationResult(x.v[0], x.n[0]));
        else if (kind < 3)
            x.r.reset(new Learn::ClassificationEvaluationResult(x.v, x.n));
        else if (kind == 3)
            x.r.reset(new Learn::AdversarialEvaluationResult(
                {x.v[0], x.v[1]}, x.n[0]));
        else
            x.r.reset(new Learn::AdversarialEvaluationResult(
                {x.v[0], x.v[1], x.v[2]}, x.n[0]));
        return x;
    }
    std::string text20(const Learn::EvaluationResult& r)
    {
        std::string t = gg::resultText(r);
        if (auto* a = dynamic_cast<const Learn::AdversarialEvaluationResult*>(&r))
            for (size_t i = 0; i < a->getSize(); i++)
                t += "/" + gg::bits(const_cast<Learn::AdversarialEvaluationResult*>(a)->getScoreOf(i));
        return t;
    }
    // r must hold what a and b combined give
    void expect20(Learn::EvaluationResult& r, const R3& a, const R3& b,
                  const char* key)
    {
        size_t m = a.v.size(), total = 0;
        double mean = 0;
        for (size_t i = 0; i < m; i++) {
            size_t n = a.n[i] + b.n[i];
            double want =
                n ? (a.v[i] * a.n[i] + b.v[i] * b.n[i]) / (double)n : a.v[i];
            double got;
            size_t gotN;
            if (auto* c = dynamic_cast<Learn::ClassificationEvaluationResult*>(&r)) {
                got = c->getScorePerClass().at(i);
                gotN = c->getNbEvaluationPerClass().at(i);
            }
            else if (auto* d = dynamic_cast<Learn::AdversarialEvaluationResult*>(&r)) {
                got = d->getScoreOf(i);
                gotN = d->getNbEvaluation();
            }
            else {
                got = r.getResult();
                gotN = r.getNbEvaluation();
            }
            // without any evaluation the value does not matter
            VP_CHECK(gotN == n && (n ? near(got, want) : std::isfinite(got)),
                     key, "score %zu is %g (%zu evaluations) instead of %g (%zu)",
                     i, got, gotN, want, n);
            mean += n ? want : got;
            total += n;
        }
        if (m > 1 && a.n[0] == a.n[1] && b.n[0] == b.n[1] &&
            dynamic_cast<Learn::AdversarialEvaluationResult*>(&r))
            total = a.n[0] + b.n[0];
        VP_CHECK(near(r.getResult(), mean / (double)m), key,
                 "the result is %g instead of %g", r.getResult(),
                 mean / (double)m);
        VP_CHECK(r.getNbEvaluation() == total, key,
                 "%zu evaluations instead of %zu", r.getNbEvaluation(), total);
    }
    void algebra20()
    {
        bool T = vp::opt.thorough();
        vp::explore(
            "combination",
            [&](Chooser& ch) {
                int ka = ch.pick(5), kb = ch.pick(5);
                bool same = ka == kb;
                int values = ka == 0 ? 4 : ka % 2 && T ? 3 : 2,
                    counts = ka == 0 ? 4 : ka == 1 ? (T ? 4 : 3) : 2;
                if (!same)
                    values = counts = 2;
                R3 a = result20(ch, ka, values, counts);
                R3 b = result20(ch, kb, values, counts);
                std::string ta = text20(*a.r), tb = text20(*b.r);
                vp::describe(ta + " += " + tb);
                vp::count("operations");
                vp::count("episodes");
                vp::distinct("states", vp::digest(ta + "+" + tb));
                if (!same) {
                    bool threw = false;
                    try {
                        *a.r += *b.r;
                    }
                    catch (std::runtime_error&) {
                        threw = true;
                    }
                    VP_CHECK(threw, "mismatch", "results of different kinds are combined");
                    VP_CHECK(text20(*a.r) == ta && text20(*b.r) == tb,
                             "mismatch", "a refused combination changes a result");
                    return;
                }
                bool lessBefore = *a.r < *b.r;
                VP_CHECK(lessBefore == (a.r->getResult() < b.r->getResult()),
                         "order", "wrong order of two results");
                auto& ret = (*a.r += *b.r);
                VP_CHECK(&ret == a.r.get(), "returned", "+= does not return the result");
                VP_CHECK(text20(*b.r) == tb, "operand", "the added result is changed");
                expect20(*a.r, a, b, "combination");
                // a result added to itself
                R3 c{std::move(b.r), b.v, b.n};
                *c.r += *c.r;
                expect20(*c.r, b, b, "self-combination");
            },
            {.splitDepth = 6});
        vp::bound("combination", "every pair of results of 5 kinds, scores of 2-4 values, 0-5 evaluations");
    }

    // results of many classes or policies: a pattern with few changes
    void wide20()
    {
        bool T = vp::opt.thorough();
        vp::explore(
            "wide combination",
            [&](Chooser& ch) {
                bool adv = ch.pick(2);
                size_t m = ch.pick(2) ? 7 : 12;
                int pat = ch.pick(3);
                const double V[] = {0, -4, 0.1, 1e6};
                const size_t N[] = {0, 3, 40, 1000000};
                auto make = [&](size_t k) {
                    R3 x;
                    for (size_t i = 0; i < m; i++) {
                        double v = pat == 0 ? 1.0 : (double)((i * 5 + k) % 7) - 2;
                        size_t n = pat == 2 && !adv ? (i * 3 + k) % 5 : 2 + k;
                        int d = ch.pickDev(5, 0);
                        if (d)
                            v = V[d - 1];
                        d = adv && i ? 0 : ch.pickDev(5, 0);
                        if (d)
                            n = N[d - 1];
                        x.v.push_back(v);
                        x.n.push_back(adv && i ? x.n[0] : n);
                    }
                    if (adv)
                        {
                        auto& v = x.v;
                        if (m == 7)
                            x.r.reset(new Learn::AdversarialEvaluationResult(
                                {v[0], v[1], v[2], v[3], v[4], v[5], v[6]}, x.n[0]));
                        else
                            x.r.reset(new Learn::AdversarialEvaluationResult(
                                {v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8],
                                 v[9], v[10], v[11]}, x.n[0]));
                    }
                    else
                        x.r.reset(new Learn::ClassificationEvaluationResult(x.v, x.n));
                    return x;
                };
                R3 a = make(0), b = make(1), c = make(2);
                std::string tb = text20(*b.r);
                vp::describe(text20(*a.r) + " += " + tb + " += " + text20(*c.r));
                *a.r += *b.r;
                vp::count("operations");
                VP_CHECK(text20(*b.r) == tb, "operand", "the added result is changed");
                expect20(*a.r, a, b, "combination");
                // then a third one
                R3 ab;
                for (size_t i = 0; i < m; i++) {
                    size_t n = a.n[i] + b.n[i];
                    ab.n.push_back(n);
                    ab.v.push_back(n ? (a.v[i] * a.n[i] + b.v[i] * b.n[i]) / (double)n : 0);
                }
                *a.r += *c.r;
                expect20(*a.r, ab, c, "second combination");
                vp::distinct("states", vp::digest(ch.vectorText() + "wide"));
            },
            {.maxDev = T ? 2 : 1, .splitDepth = 4});
        vp::bound("wide combination", "three results of 7 and 12 classes or policies combined, 3 patterns with few scores or counts changed");
    }

    // ----- evaluations of policies which already have results
    // Episodes of a root seen during an evaluation.
    struct Seen20
    {
        std::vector<double> scores;
        std::vector<std::vector<std::pair<int, int>>> tables;
    };
    template <class AgentT, class EnvT>
    void previous20(const char* name, int iters, size_t maxEval, int length,
                    int acts)
    {
        constexpr bool cls = std::is_same<EnvT, ClassEnv>::value;
        vp::explore(
            fmt("previous results %s iterations=%d limit=%zu", name, iters,
                maxEval),
            [&](Chooser& ch) {
                freshPool(NEVER);
                static auto is = gg::basicSet();
                Script s;
                EnvT le(2, s);
                auto p = params(2, 0.5);
                p.nbIterationsPerPolicyEvaluation = iters;
                p.maxNbActionsPerEval = 2;
                p.maxNbEvaluationPerPolicy = maxEval;
                Factory f;
                Probe<AgentT> a(le, is->set, p, f);
                a.init(3);
                for (int i = 0; i < acts; i++)
                    a.getTPGGraph()->addNewAction(1);
                auto roots = a.getTPGGraph()->getRootVertices();
                // what is seen
                std::map<Vertex, Seen20> seen;
                Vertex current = nullptr;
                LearningMode mode = LearningMode::TRAINING;
                uint64_t gen = 0;
                int k = 0;
                s.terminal = [](uint64_t n) { return n >= 2; };
                s.onReset = [&](const Reset& r) {
                    VP_CHECK(r.mode == mode, "mode", "reset with mode %d "
                             "instead of %d", (int)r.mode, (int)mode);
                    vp::count("episodes");
                    seen[current].tables.emplace_back();
                    if (cls)
                        seen[current].scores.push_back(0);
                };
                s.score = [&] {
                    double d = (double)((k++ * 7) % 11) - 4.5;
                    seen[current].scores.push_back(d);
                    return d;
                };
                int next = 0;
                if constexpr (cls) {
                    s.onAction = [&](uint64_t act) {
                        seen[current].tables.back().push_back({next, (int)act});
                    };
                    le.classOf = [&](uint64_t) {
                        uint64_t c = next;
                        k++;
                        next = k % 3 == 0;
                        return c;
                    };
                }
                a.onJob = [&](const Learn::Job& j) { current = j.getRoot(); };
                // what is recorded
                std::map<Vertex, R3> rec;
                std::map<Vertex, std::shared_ptr<Learn::EvaluationResult>> kept;
                auto judge = [&](Vertex v,
                                 std::shared_ptr<Learn::EvaluationResult> r) {
                    const char* what = MODES[(int)mode];
                    auto it = rec.find(v);
                    size_t n = 0;
                    if (it != rec.end())
                        for (size_t x : it->second.n)
                            n += x;
                    bool skipped = mode == LearningMode::TRAINING &&
                                   it != rec.end() && n >= maxEval;
                    if (skipped) {
                        VP_CHECK(seen.count(v) == 0, "evaluated-again",
                                 "a policy with %zu evaluations is evaluated "
                                 "again for %s", n, what);
                        VP_CHECK(r == kept[v], "other-result",
                                 "the result of a policy which is not evaluated "
                                 "is not its recorded one");
                        return;
                    }
                    VP_CHECK(seen.count(v) == 1, "not-evaluated",
                             "a policy with %zu evaluations is not evaluated "
                             "for %s", n, what);
                    auto& o = seen[v];
                    VP_CHECK(o.scores.size() == (size_t)iters, "episodes",
                             "%zu episodes instead of %d for %s",
                             o.scores.size(), iters, what);
                    R3 x;
                    if (cls)
                        for (int c = 0; c < 2; c++) {
                            double sc = 0;
                            size_t nb = 0;
                            for (auto& h : o.tables) {
                                sc += f1(h, c) / iters;
                                for (auto& y : h)
                                    nb += y.first == c;
                            }
                            x.v.push_back(sc);
                            x.n.push_back(nb);
                        }
                    else {
                        double sum = 0;
                        for (double d : o.scores)
                            sum += d;
                        x.v.push_back(sum / iters);
                        x.n.push_back(iters);
                    }
                    VP_CHECK(kept.count(v) == 0 || r != kept[v], "shared",
                             "a new evaluation for %s gives the recorded result "
                             "itself", what);
                    R3 none{nullptr, std::vector<double>(x.v.size(), 0.0),
                            std::vector<size_t>(x.v.size(), 0)};
                    bool with = mode == LearningMode::TRAINING &&
                                it != rec.end();
                    expect20(*r, x, with ? it->second : none,
                             with ? "combined" : "alone");
                };
                for (int i = 0; i < length; i++) {
                    mode = (LearningMode)ch.pick(3);
                    bool one = ch.pick(2);
                    // training results are recorded, or not
                    bool record = ch.pick(2);
                    seen.clear();
                    std::map<Vertex, std::string> texts;
                    for (auto& x : kept)
                        texts[x.first] = text20(*x.second);
                    vp::describe(fmt("%s of %s%s; ", MODES[(int)mode],
                                     one ? "one root" : "all roots",
                                     record ? ", recorded" : ""));
                    gg::Results res;
                    if (one) {
                        Vertex v = roots[ch.pick((int)roots.size())];
                        res.emplace(a.evaluateOneRoot(gen, mode, v), v);
                    }
                    else {
                        res = a.evaluateAllRoots(gen, mode);
                        VP_CHECK(res.size() == roots.size(), "results",
                                 "%zu results for %zu roots", res.size(),
                                 roots.size());
                    }
                    for (auto& x : texts)
                        VP_CHECK(text20(*kept[x.first]) == x.second,
                                 "recorded-changed",
                                 "an evaluation for %s changes a recorded "
                                 "result", MODES[(int)mode]);
                    std::set<Vertex> once;
                    for (auto& x : res) {
                        VP_CHECK(once.insert(x.second).second, "results",
                                 "a root has two results");
                        judge(x.second, x.first);
                    }
                    for (auto& x : seen)
                        VP_CHECK(once.count(x.first), "other-root",
                                 "another root is evaluated");
                    if (record) {
                        a.updateEvaluationRecords(res);
                        for (auto& x : res) {
                            R3 y;
                            if (auto* c = dynamic_cast<
                                    Learn::ClassificationEvaluationResult*>(
                                    x.first.get())) {
                                y.v = c->getScorePerClass();
                                y.n = c->getNbEvaluationPerClass();
                            }
                            else {
                                y.v = {x.first->getResult()};
                                y.n = {x.first->getNbEvaluation()};
                            }
                            rec[x.second] = std::move(y);
                            kept[x.second] = x.first;
                        }
                    }
                    gen++;
                    vp::count("operations");
                    vp::distinct("states", vp::digest(ch.vectorText()));
                }
            },
            {.splitDepth = 4});
        vp::bound(fmt("previous results (%s, %d iterations, limit %zu)", name,
                      iters, maxEval),
                  fmt("every sequence of %d evaluations of one or all roots in "
                      "the 3 modes, recorded or not", length));
    }


    // --------------------------------------------------------------- C21
    void environment21(int classes, int length, int dev = 0)
    {
        vp::explore(
            fmt("environment classes=%d", classes),
            [&](Chooser& ch) {
                Script s;
                ClassEnv e(classes, s);
                std::vector<std::pair<int, int>> h;
                int cls = 0;
                e.classOf = [&](uint64_t) { return cls; };
                s.terminal = [](uint64_t) { return false; };
                e.reset();
                auto look = [&](const char* when) {
                    double want = 0;
                    auto& t = e.getClassificationTable();
                    VP_CHECK(t.size() == (size_t)classes, "table", "table size");
                    for (int i = 0; i < classes; i++) {
                        want += f1(h, i) / classes;
                        for (int j = 0; j < classes; j++) {
                            size_t n = std::count(h.begin(), h.end(),
                                                  std::make_pair(i, j));
                            VP_CHECK(t.at(i).at(j) == n, "table",
                                     "%s the table counts %zu elements of class "
                                     "%d taken for %d instead of %zu", when,
                                     (size_t)t.at(i).at(j), i, j, n);
                        }
                    }
                    double got = e.ClassificationLearningEnvironment::getScore();
                    VP_CHECK(near(got, want), "f1-score",
                             "%s the score is %.17g instead of %.17g", when, got,
                             want);
                };
                look("at first");
                int pat = dev ? ch.pick(3) : 0;
                for (int i = 0; i < length; i++) {
                    // one answer too high: refused
                    int a;
                    if (dev) {
                        int c0 = pat == 0 ? i % classes : pat == 1 ? i * i % classes : 1;
                        cls = ch.pickDev(classes, c0);
                        a = ch.pickDev(classes + 1, i % 4 == 3 ? (c0 + 1) % classes : c0);
                    }
                    else {
                        cls = ch.pick(classes);
                        a = ch.pick(i + 1 == length ? classes + 1 : classes);
                    }
                    vp::describe(fmt("%d taken for %d; ", cls, a));
                    bool threw = false;
                    try {
                        e.doAction(a);
                    }
                    catch (std::runtime_error&) {
                        threw = true;
                    }
                    VP_CHECK(threw == (a >= classes), "class-range",
                             "class %d of %d is %s", a, classes,
                             threw ? "refused" : "accepted");
                    if (!threw)
                        h.push_back({cls, a});
                    vp::count("operations");
                    look("then");
                }
                vp::count("episodes");
                vp::distinct("states", vp::digest(fmt("%d%s", classes,
                                                      ch.vectorText().c_str())));
                h.clear();
                e.reset();
                look("after a reset");
            },
            {.maxDev = dev, .splitDepth = 3});
        vp::bound(fmt("environment (%d classes)", classes),
                  dev ? fmt("3 sequences of %d classes and answers with at most "
                            "%d changed", length, dev)
                      : fmt("every sequence of %d classes and answers", length));
    }
    template <class AgentT>
    void agent21(const char* name, int classes, int iters, int actions, int gens,
                 int dev = 0)
    {
        vp::explore(
            fmt("%s classes=%d iterations=%d actions=%d", name, classes, iters,
                actions),
            [&](Chooser& ch) {
                freshPool(NEVER);
                auto is = gg::basicSet();
                Script s;
                ClassEnv le(classes, s);
                auto p = params(2, 0.5);
                p.nbIterationsPerPolicyEvaluation = iters;
                p.maxNbActionsPerEval = actions;
                Factory f;
                Probe<AgentT> a(le, is->set, p, f);
                a.init(ch.pick(3));
                s.terminal = [](uint64_t) { return false; };
                std::vector<std::vector<std::pair<int, int>>> hist;
                int cls = 0;
                int elements = 0;
                le.classOf = [&](uint64_t) {
                    int d = elements * elements++ % classes;
                    return cls = dev ? ch.pickDev(classes, d) : ch.pick(classes);
                };
                s.onReset = [&](const Reset&) {
                    hist.emplace_back();
                    vp::count("episodes");
                };
                // the class is drawn within doAction, after this call
                s.onAction = [&](uint64_t act) {
                    hist.back().push_back({-1, (int)act});
                };
                auto cl = le.classOf;
                le.classOf = [&, cl](uint64_t n) {
                    uint64_t k = cl(n);
                    hist.back().back().first = (int)k;
                    return k;
                };
                auto roots = a.getTPGGraph()->getRootVertices();
                Vertex r = roots[0];
                std::vector<double> sum(classes, 0.0);
                std::vector<size_t> n(classes, 0);
                // several evaluations of a policy are combined
                for (int g = 0; g < gens; g++) {
                    hist.clear();
                    auto res = a.evaluateOneRoot(g, LearningMode::TRAINING, r);
                    auto* c = dynamic_cast<Learn::ClassificationEvaluationResult*>(
                        res.get());
                    VP_CHECK(c, "kind", "the result is not a classification result");
                    VP_CHECK(hist.size() == (size_t)iters, "episodes",
                             "%zu episodes instead of %d", hist.size(), iters);
                    double mean = 0;
                    size_t total = 0;
                    for (int k = 0; k < classes; k++) {
                        double sc = 0;
                        size_t nb = 0;
                        for (auto& h : hist) {
                            sc += f1(h, k) / iters;
                            for (auto& x : h)
                                nb += x.first == k;
                        }
                        double w = sc;
                        if (g > 0 && n[k] + nb)
                            w = (sum[k] * n[k] + sc * nb) / (double)(n[k] + nb);
                        else if (g > 0)
                            w = 0; // never seen
                        sum[k] = w;
                        n[k] += nb;
                        VP_CHECK(near(c->getScorePerClass().at(k), w), "class-score",
                                 "evaluation %d: the score of class %d is %.17g "
                                 "instead of %.17g", g, k,
                                 c->getScorePerClass().at(k), w);
                        VP_CHECK(c->getNbEvaluationPerClass().at(k) == n[k],
                                 "class-count",
                                 "evaluation %d: %zu elements of class %d instead "
                                 "of %zu", g, c->getNbEvaluationPerClass().at(k), k,
                                 n[k]);
                        mean += w / classes;
                        total += n[k];
                    }
                    VP_CHECK(near(res->getResult(), mean), "global-score",
                             "the result is %.17g instead of %.17g",
                             res->getResult(), mean);
                    VP_CHECK(res->getNbEvaluation() == total, "global-count",
                             "%zu evaluations instead of %zu",
                             res->getNbEvaluation(), total);
                    gg::Results m;
                    m.emplace(res, r);
                    a.updateEvaluationRecords(m);
                    vp::count("operations");
                }
                vp::distinct("states", vp::digest(fmt("%d %d %s", classes, iters, ch.vectorText().c_str())));
            },
            {.maxDev = dev, .splitDepth = 3});
        vp::bound(fmt("agent (%s, %d classes)", name, classes),
                  (dev ? fmt("a sequence of classes with at most %d changed, ", dev)
                       : "every sequence of classes ") +
                  fmt("over %d evaluations of %d "
                      "episodes of %d elements", gens, iters, actions));
    }
    // kept must be explained by some order of equal scores
    bool explained(const std::vector<std::vector<double>>& cls,
                   const std::vector<double>& general,
                   const std::vector<bool>& action, size_t perClass, size_t keep,
                   const std::vector<bool>& kept)
    {
        size_t n = general.size(), classes = cls.size();
        // all sets of perClass best roots of a class
        std::vector<std::vector<unsigned>> sets(classes);
        for (size_t k = 0; k < classes; k++)
            for (unsigned m = 0; m < 1u << n; m++) {
                if (__builtin_popcount(m) != (int)perClass)
                    continue;
                bool ok = true;
                for (size_t i = 0; i < n && ok; i++)
                    for (size_t j = 0; j < n; j++)
                        if ((m >> i & 1) && !(m >> j & 1) &&
                            cls[k][i] < cls[k][j])
                            ok = false;
                if (ok)
                    sets[k].push_back(m);
            }
        unsigned want = 0, acts = 0;
        for (size_t i = 0; i < n; i++) {
            want |= (unsigned)kept[i] << i;
            acts |= (unsigned)action[i] << i;
        }
        std::set<unsigned> unions{0};
        for (auto& s : sets) {
            std::set<unsigned> u;
            for (unsigned x : unions)
                for (unsigned m : s)
                    u.insert(x | m);
            unions = u;
        }
        for (unsigned u : unions) {
            // complete with the best ones of the others
            for (unsigned m = 0; m < 1u << n; m++) {
                if ((m & u) != u || __builtin_popcount(m) != (int)std::max<size_t>(keep, __builtin_popcount(u)))
                    continue;
                if ((m | acts) != want)
                    continue;
                bool ok = true;
                for (size_t i = 0; i < n && ok; i++)
                    for (size_t j = 0; j < n; j++)
                        if ((m >> i & 1) && !(u >> i & 1) && !(m >> j & 1) &&
                            general[i] < general[j])
                            ok = false;
                if (ok)
                    return true;
            }
        }
        return false;
    }
    template <class AgentT>
    void decimation21(const char* name, int classes, int teams, int acts,
                      const std::vector<std::vector<double>>& profiles,
                      const std::vector<double>& ratios)
    {
        vp::explore(
            fmt("decimation %s classes=%d teams=%d actions=%d profiles=%zu",
                name, classes, teams, acts, profiles.size()),
            [&](Chooser& ch) {
                freshPool(LIFO);
                static auto is = gg::basicSet();
                Script s;
                ClassEnv le(classes, s);
                double ratio = ratios[ch.pick((int)ratios.size())];
                auto p = params(teams + acts, ratio);
                Factory f;
                AgentT a(le, is->set, p, f);
                auto& g = *a.getTPGGraph();
                auto prog = std::make_shared<Program::Program>(a.getEnvironment());
                auto& inner = g.addNewTeam();
                auto& leaf = g.addNewAction(0);
                g.addNewEdge(inner, leaf, prog);
                std::vector<Vertex> roots;
                for (int i = 0; i < teams + acts; i++) {
                    if (i % 2 == 1 && (int)roots.size() - i / 2 <= teams &&
                        i / 2 < acts)
                        roots.push_back(&g.addNewAction(1));
                    else {
                        auto& t = g.addNewTeam();
                        g.addNewEdge(t, inner, prog);
                        g.addNewEdge(t, leaf, prog);
                        roots.push_back(&t);
                    }
                }
                size_t n = roots.size();
                std::vector<std::vector<double>> cls(classes);
                std::vector<double> general;
                std::vector<bool> action;
                gg::Results res;
                for (auto r : roots) {
                    auto& v = profiles[ch.pick((int)profiles.size())];
                    for (int k = 0; k < classes; k++)
                        cls[k].push_back(v[k]);
                    auto e = std::make_shared<Learn::ClassificationEvaluationResult>(
                        v, std::vector<size_t>(classes, 2));
                    general.push_back(e->getResult());
                    action.push_back(!isTeam(r));
                    res.emplace(e, r);
                    vp::describe(gg::num(v[0]) + "/" + gg::num(v[1]) +
                                 (action.back() ? "(action) " : " "));
                }
                vp::describe(fmt("ratio %g", ratio));
                a.updateEvaluationRecords(res);
                auto all = vertexSet(g);
                a.decimateWorstRoots(res);
                vp::count("operations");
                vp::count("episodes");
                auto alive = vertexSet(g);
                VP_CHECK(alive.count(&inner) && alive.count(&leaf),
                         "removed-inner-vertex", "a vertex which is no root is removed");
                std::vector<bool> kept;
                size_t removed = 0;
                for (size_t i = 0; i < n; i++) {
                    kept.push_back(alive.count(roots[i]));
                    removed += !kept[i];
                    VP_CHECK(kept[i] || !action[i], "removed-action",
                             "a root action is removed");
                }
                size_t del = (size_t)std::floor(ratio * (double)n), keep = n - del;
                size_t perClass = keep / classes / 2;
                VP_CHECK(alive.size() + removed == all.size(), "number-kept",
                         "other vertices changed");
                VP_CHECK(acts || removed == del, "number-kept",
                         "%zu roots are removed instead of %zu", removed, del);
                VP_CHECK(explained(cls, general, action, perClass, keep, kept),
                         "selection",
                         "the kept roots are not the best ones (%zu per class, "
                         "%zu in all)", perClass, keep);
                // results and records of the removed ones
                std::set<Vertex> in;
                for (auto& x : res)
                    in.insert(x.second);
                for (size_t i = 0; i < n; i++)
                    VP_CHECK(in.count(roots[i]) == kept[i], "results-left",
                             "the results %s a root which was %s",
                             in.count(roots[i]) ? "still hold" : "lost",
                             kept[i] ? "kept" : "removed");
                VP_CHECK(res.size() == n - removed, "results-left",
                         "%zu results for %zu roots", res.size(), n - removed);
                for (size_t i = 0; i < removed; i++) {
                    std::shared_ptr<Learn::EvaluationResult> prev;
                    a.isRootEvalSkipped(g.addNewTeam(), prev);
                    VP_CHECK(!prev, "record-of-other-policy",
                             "a new root has the record of a removed one");
                }
                for (size_t i = 0; i < n; i++)
                    if (kept[i]) {
                        std::shared_ptr<Learn::EvaluationResult> prev;
                        a.isRootEvalSkipped(*roots[i], prev);
                        VP_CHECK(prev && near(prev->getResult(), general[i]),
                                 "record-lost", "the record of a kept root is lost");
                    }
                vp::distinct("states", vp::digest(fmt("%d %d %d %s", classes, teams, acts, ch.vectorText().c_str())));
            },
            {.splitDepth = 4});
        vp::bound(fmt("decimation (%s, %d classes, %d teams, %d actions)", name,
                      classes, teams, acts),
                  fmt("every choice of %zu scores per root, %zu ratios",
                      profiles.size(), ratios.size()));
    }
    // all vectors of values
    std::vector<std::vector<double>> every(const std::vector<double>& values, int n)
    {
        std::vector<std::vector<double>> r{{}};
        for (int i = 0; i < n; i++) {
            std::vector<std::vector<double>> q;
            for (auto& v : r)
                for (double x : values) {
                    q.push_back(v);
                    q.back().push_back(x);
                }
            r = q;
        }
        return r;
    }
    void refused21()
    {
        vp::explore("refused", [&](Chooser& ch) {
            freshPool(NEVER);
            auto is = gg::basicSet();
            Script s;
            ClassEnv le(2, s);
            Learn::ClassificationLearningAgent<Learn::LearningAgent> a(
                le, is->set, params(3, 0.5), Factory());
            a.init(1);
            gg::Results r;
            if (ch.pick(2))
                for (auto v : a.getTPGGraph()->getRootVertices())
                    r.emplace(std::make_shared<Learn::EvaluationResult>(1.0, 1), v);
            std::string t = gg::graphText(*a.getTPGGraph());
            bool threw = false;
            try {
                a.decimateWorstRoots(r);
            }
            catch (std::exception&) {
                threw = true;
            }
            VP_CHECK(threw, "wrong-results", "%s results are accepted",
                     r.empty() ? "no" : "other kinds of");
            VP_CHECK(t == gg::graphText(*a.getTPGGraph()), "wrong-results",
                     "refused results change the graph");
            vp::count("operations");
            vp::count("episodes");
        });
    }

    // --------------------------------------------------------------- C22
    struct Config22
    {
        size_t players, perPolicy, perJob, nbRoots;
        double ratio;
        int rootActions;
        Reuse mode;
        int threads;
        bool validation;
    };
    struct AdvProbe : Probe<Learn::AdversarialLearningAgent>
    {
        using Probe::Probe;
    };
    struct CloneEnv : AdvEnv
    {
        using AdvEnv::AdvEnv;
        LearningEnvironment* clone() const override
        {
            static int n;
            if (++n > 100000) {
                n = 0;
                vp::fail("threads-without-end",
                         "environments are cloned without end");
            }
            return nullptr;
        }
    };
    void adversarial22(const char* name, const std::vector<Config22>& cs, int gens,
                       int dev, int ops)
    {
        vp::explore(
            name,
            [&](Chooser& ch) {
                auto c = cs[ch.pick((int)cs.size())];
                vp::describe(fmt("%zu players, %zu evaluations, %zu per job, ratio "
                                 "%g, %d root actions, %d threads: ", c.players,
                                 c.perPolicy, c.perJob, c.ratio, c.rootActions,
                                 c.threads));
                freshPool(c.mode);
                auto is = gg::basicSet();
                Script s;
                CloneEnv le(2, s);
                auto p = params(c.nbRoots, c.ratio);
                p.nbIterationsPerPolicyEvaluation = c.perPolicy;
                p.nbIterationsPerJob = c.perJob;
                p.maxNbActionsPerEval = 2;
                p.nbThreads = c.threads;
                p.doValidation = c.validation;
                Factory f;
                AdvProbe a(le, is->set, p, c.players, f);
                auto& g = *a.getTPGGraph();
                auto init = [&](uint64_t seed) {
                    a.init(seed);
                    for (int i = 0; i < c.rootActions; i++)
                        g.addNewAction(i % 2);
                };
                Watch w(s, p, a.getEnvironment());
                w.iterations = c.perJob;
                int k = 0;
                w.stop = [&] {
                    k++;
                    return k % 5 == 0 || (ops == 0 && ch.pickDev(2, 0));
                };
                struct Job
                {
                    std::vector<Vertex> roots;
                    int pos;
                    std::vector<std::vector<double>> scores;
                };
                std::vector<Job> jobs;
                int drawn = 0;
                le.scores = [&] {
                    std::vector<double> v;
                    for (size_t i = 0; i < c.players; i++) {
                        static const double V[] = {1, -2, 0.5};
                        int d = (drawn * 5 + drawn / 3 + (int)i * 2) % 3;
                        drawn++;
                        v.push_back(V[dev ? ch.pickDev(3, d) : d]);
                    }
                    jobs.back().scores.push_back(v);
                    return v;
                };
                a.onJob = [&](const Learn::Job& j) {
                    auto& aj = dynamic_cast<const Learn::AdversarialJob&>(j);
                    jobs.push_back({aj.getRoots(), aj.getPosOfStudiedRoot(), {}});
                    auto alive = vertexSet(g);
                    for (auto r : jobs.back().roots)
                        VP_CHECK(alive.count(r), "removed-player",
                                 "a vertex which is not in the graph takes part "
                                 "in an evaluation");
                    w.job(jobs.back().roots);
                };
                a.afterJob = [&] { w.done(); };
                // results of the previous evaluation of the policies
                struct Previous
                {
                    Vertex v; // null once removed
                    double score;
                };
                std::vector<Previous> previous;
                bool anyChampion = true;
                size_t kept = 0;
                auto check = [&](gg::Results& r, std::vector<Vertex> roots) {
                    VP_CHECK(r.size() == roots.size(), "results",
                             "%zu results for %zu roots", r.size(), roots.size());
                    std::vector<std::vector<std::vector<Vertex>>> teamsOf;
                    std::vector<Previous> now;
                    for (auto v : roots) {
                        double sum = 0;
                        size_t n = 0;
                        std::vector<std::vector<std::vector<Vertex>>> others(
                            c.players);
                        for (auto& j : jobs) {
                            VP_CHECK(j.roots.size() == c.players, "players",
                                     "%zu players instead of %zu", j.roots.size(),
                                     c.players);
                            VP_CHECK(j.scores.size() == c.perJob, "episodes",
                                     "%zu scores of a job instead of %zu",
                                     j.scores.size(), c.perJob);
                            for (size_t i = 0; i < c.players; i++) {
                                if (j.roots[i] != v ||
                                    (j.pos >= 0 && (int)i != j.pos))
                                    continue;
                                for (auto& sc : j.scores) {
                                    sum += sc[i];
                                    n++;
                                }
                                auto o = j.roots;
                                o.erase(o.begin() + i);
                                others[i].push_back(o);
                            }
                        }
                        VP_CHECK(n >= c.perPolicy, "too-few",
                                 "a root is evaluated %zu times instead of %zu",
                                 n, c.perPolicy);
                        VP_CHECK(n < c.perPolicy + c.players * c.perJob,
                                 "too-many",
                                 "a root is evaluated %zu times for at least %zu",
                                 n, c.perPolicy);
                        for (auto& o : others)
                            std::sort(o.begin(), o.end());
                        for (size_t i = 1; i < c.players; i++)
                            VP_CHECK(others[i] == others[0], "positions",
                                     "a root does not play at every position "
                                     "with the same opponents");
                        teamsOf.push_back(others[0]);
                        auto it = std::find_if(
                            r.begin(), r.end(),
                            [&](auto& x) { return x.second == v; });
                        VP_CHECK(it != r.end(), "results", "a root has no result");
                        VP_CHECK(near(it->first->getResult(), sum / (double)n) &&
                                     it->first->getNbEvaluation() == n,
                                 "score",
                                 "a root has the result %g (%zu) instead of %g "
                                 "(%zu), its mean score", it->first->getResult(),
                                 it->first->getNbEvaluation(), sum / (double)n, n);
                        now.push_back({v, it->first->getResult()});
                        // opponents
                        for (auto& o : others[0])
                            for (auto x : o) {
                                if (anyChampion) {
                                    VP_CHECK(std::count(roots.begin(), roots.end(), x) ||
                                                 std::any_of(previous.begin(), previous.end(),
                                                             [&](auto& y) { return y.v == x; }),
                                             "champion", "an opponent is no root");
                                    continue;
                                }
                                auto px = std::find_if(
                                    previous.begin(), previous.end(),
                                    [&](auto& y) { return y.v == x; });
                                VP_CHECK(px != previous.end(), "champion",
                                         "an opponent was not evaluated before");
                                size_t better = 0;
                                for (auto& y : previous)
                                    better += y.score > px->score;
                                VP_CHECK(better < kept, "champion",
                                         "an opponent had %zu better roots in the "
                                         "previous evaluation, of which %zu are "
                                         "champions", better, kept);
                            }
                    }
                    for (auto& t : teamsOf)
                        VP_CHECK(t == teamsOf[0], "opponents",
                                 "roots do not play against the same opponents");
                    previous = now;
                    anyChampion = false;
                    kept = roots.size() - (size_t)std::floor(c.ratio * (double)roots.size());
                };
                // only champions which are still in the graph can be opponents;
                // without any, the agent starts from any roots
                auto prune = [&] {
                    auto alive = vertexSet(g);
                    bool certain = false;
                    for (auto& x : previous) {
                        size_t notWorse = 0;
                        for (auto& y : previous)
                            notWorse += y.score >= x.score;
                        if (x.v && !alive.count(x.v))
                            x.v = nullptr;
                        certain |= x.v && notWorse <= kept;
                    }
                    if (!certain)
                        anyChampion = true;
                };
                Mon mon(a);
                mon.onPopulate = [&] {
                    jobs.clear();
                };
                mon.onEvaluate = [&](gg::Results& r) {
                    check(r, g.getRootVertices());
                };
                mon.onDecimate = [&] {
                    prune();
                    jobs.clear();
                    w.begin(LearningMode::VALIDATION, w.gen);
                };
                mon.onValidate = [&](gg::Results& r) {
                    check(r, g.getRootVertices());
                };
                init(3);
                uint64_t gen = 0;
                for (int i = 0; i < gens; i++) {
                    int op = ops && i ? ch.pick(ops) : 0;
                    vp::describe(std::string("TVIK"[op] + std::string(" ")));
                    switch (op) {
                    case 0: {
                        auto rs = g.getRootVertices();
                        if (std::none_of(rs.begin(), rs.end(), isTeam)) {
                            previous.clear();
                            anyChampion = true;
                        }
                        w.begin(LearningMode::TRAINING, gen);
                        a.trainOneGeneration(gen++);
                        prune();
                        break;
                    }
                    case 1: {
                        w.begin(LearningMode::TESTING, gen);
                        jobs.clear();
                        auto r = a.evaluateAllRoots(gen, LearningMode::TESTING);
                        check(r, g.getRootVertices());
                        break;
                    }
                    case 2:
                        init(3 + i);
                        previous.clear();
                        anyChampion = true;
                        break;
                    case 3:
                        if (!a.getBestRoot().first ||
                            !vertexSet(g).count(a.getBestRoot().first))
                            break;
                        a.keepBestPolicy();
                        prune();
                        break;
                    }
                    vp::count("operations");
                    vp::distinct("states", vp::digest(gg::graphText(g)));
                }
            },
            {.maxDev = dev, .splitDepth = 3});
    }
} // namespace

void vp_main()
{
    bool T = vp::opt.thorough();
    using LA = Learn::LearningAgent;
    using PA = Learn::ParallelLearningAgent;
    using CLA = Learn::ClassificationLearningAgent<LA>;
    using CPA = Learn::ClassificationLearningAgent<PA>;
    if (vp::opt.prop == "C20") {
        algebra20();
        wide20();
        train20();
        for (int m : {0, 1, 2, 3})
            protocol20<LA, Env>("LearningAgent", 1, m, -1, 1);
        for (int m : {0, 1, 2}) {
            protocol20<PA, Env>("ParallelLearningAgent", 1, m, -1, 1);
            protocol20<LA, Env>("LearningAgent", 2, m, -1, 0);
        }
        protocol20<PA, Env>("ParallelLearningAgent", 2, 2, T ? -1 : 4, 0);
        for (size_t m : {0, 1, 2, 4, 100})
            previous20<LA, Env>("LearningAgent", 1 + m / 2 % 2, m, T ? 4 : 3, 1);
        previous20<PA, Env>("ParallelLearningAgent", 2, 3, 3, 0);
        for (size_t m : {3, 6, 100})
            previous20<CLA, ClassEnv>("ClassificationLearningAgent", 2, m, 3, 0);
        previous20<CPA, ClassEnv>("ClassificationParallelLearningAgent", 1, 3, T ? 4 : 3, 1);
        protocol20<CLA, ClassEnv>("ClassificationLearningAgent", 1, 2, -1, 1);
        protocol20<CPA, ClassEnv>("ClassificationParallelLearningAgent", 2, 2, T ? 4 : 3, 1);
        protocol20<LA, Env>("LearningAgent", 3, T ? 4 : 3, T ? 4 : 2, 1);
        protocol20<PA, Env>("ParallelLearningAgent", 3, 4, T ? 4 : 2, 1);
        protocol20<LA, Env>("LearningAgent", 7, 11, 1, 3);
        protocol20<PA, Env>("ParallelLearningAgent", 12, 5, 1, 4);
        protocol20<LA, Env>("LearningAgent", 1, 70, 1, 1);
        protocol20<LA, Env>("LearningAgent", 1, T ? 1000 : 300, 1, 0);
        protocol20<PA, Env>("ParallelLearningAgent", 300, 1, 0, 0);
        protocol20<CLA, ClassEnv>("ClassificationLearningAgent", 6, 9, 1, 1);
        if (T)
            protocol20<LA, Env>("LearningAgent", 2, 3, -1, 0);
    }
    else if (vp::opt.prop == "C21") {
        environment21(2, T ? 6 : 5);
        environment21(3, T ? 5 : 4);
        environment21(4, T ? 4 : 3);
        environment21(10, 14, T ? 2 : 1);
        environment21(23, 30, 1);
        agent21<CLA>("LearningAgent", 9, 4, 12, 4, 1);
        agent21<CPA>("ParallelLearningAgent", 12, 2, 25, 3, 1);
        agent21<CLA>("LearningAgent", 2, 1, 3, 2);
        agent21<CLA>("LearningAgent", 2, 2, 2, 2);
        agent21<CPA>("ParallelLearningAgent", 3, 1, 2, 2);
        agent21<CPA>("ParallelLearningAgent", 2, 1, 2, 3);
        std::vector<double> rs{0, 0.25, 0.34, 0.5, 0.75, 1.0};
        decimation21<CLA>("LearningAgent", 2, 3, 0, every({0, 1, 0.5}, 2), rs);
        decimation21<CLA>("LearningAgent", 2, 4, 0, every({0, 1}, 2), rs);
        decimation21<CLA>("LearningAgent", 2, 4, 1, every({0, 1}, 2), {0, 0.2, 0.4, 0.6, 1.0});
        decimation21<CPA>("ParallelLearningAgent", 2, 5, 0, every({0, 1}, 2), {0, 0.2, 0.4, 0.6});
        decimation21<CPA>("ParallelLearningAgent", 2, 3, 2, every({0, 1}, 2), {0, 0.2, 0.4, 0.6});
        decimation21<CLA>("LearningAgent", 2, 6, 0, every({0, 1}, 2), T ? std::vector<double>{0, 0.17, 0.34, 0.5} : std::vector<double>{0.34});
        decimation21<CLA>("LearningAgent", 3, 4, 0, every({0, 1}, 3), {0.25, 0.5});
        decimation21<CLA>("LearningAgent", 2, 5, 0, every({0, 1, 0.5}, 2), {0.2});
        decimation21<CLA>("LearningAgent", 2, T ? 10 : 9, 0, {{0, 1}, {1, 0}, {0.75, 0.5}, {0.25, 0.25}}, {T ? 0.2 : 0.12});
        decimation21<CLA>("LearningAgent", 3, 7, 0, {{0.9, 0, 0}, {0, 0.9, 0.1}, {0, 0, 0.9}, {0.5, 0.5, 0.5}, {1, 1, 0}}, {0.15});
        if (T)
            decimation21<CLA>("LearningAgent", 2, 4, 0, every({0, 1, 0.5, 0.25}, 2), {0, 0.25, 0.5});
        refused21();
    }
    else {
        std::vector<Config22> cs, large;
        for (size_t players : {1, 2, 3})
            for (auto pj : std::vector<std::pair<size_t, size_t>>{{1, 1}, {2, 1}, {3, 1}, {3, 2}, {5, 1}, {7, 2}})
                for (double ratio : {0.0, 0.25, 0.5, 0.75, 1.0}) {
                    if (!T && players != 2 && ratio != 0.5)
                        continue;
                    (T || pj.first <= 2 ? cs : large).push_back({players, pj.first, pj.second, 3 + (pj.first % 2), ratio, 0, NEVER, 1, pj.second == 2});
                }
        adversarial22("configurations", cs, T ? 4 : 3, 1, 0);
        if (!large.empty())
            adversarial22("larger configurations", large, 4, 0, 0);
        std::vector<Config22> wide;
        for (size_t players : {4, 5})
            for (auto pj : std::vector<std::pair<size_t, size_t>>{{1, 1}, {9, 2}, {20, 3}})
                for (size_t n : {4, 13})
                    wide.push_back({players, pj.first, pj.second, n, n == 4 ? 0.5 : 0.3, (int)players - 4, n == 4 ? LIFO : FIFO, 1, pj.first == 9});
        adversarial22("many players", wide, 4, T ? 1 : 0, 0);
        std::vector<Config22> rounding;
        for (size_t n : {2, 3, 5, 7, 10})
            for (int r = 0; r <= 20; r++)
                rounding.push_back({2, 1, 1, n, r / 20.0, 0, NEVER, 1, r % 2 == 1});
        adversarial22("ratios", rounding, 3, 0, 0);
        std::vector<Config22> ac;
        for (double ratio : {0.25, 0.5, 0.75, 1.0})
            for (int acts : {1, 2, 3})
                for (Reuse m : {NEVER, LIFO})
                    for (int th : {1, 0})
                        ac.push_back({2, 2, 1, 4, ratio, acts, m, th, acts == 2});
        adversarial22("root actions", ac, 4, 0, 0);
        std::vector<Config22> h;
        for (double ratio : {0.25, 0.5})
            for (Reuse m : {NEVER, LIFO, FIFO})
                h.push_back({2, 2, 1, 4, ratio, ratio == 0.5 ? 1 : 0, m, 1, m == FIFO});
        adversarial22("histories", h, T ? 7 : 5, T ? 1 : 0, 4);
        vp::bound("adversarial", "1-5 players, 1-20 evaluations per policy, 1-3 per job, 21 ratios, 2-13 roots, 0-3 root actions; histories of training, evaluation, initialisation and selection");
    }
}
