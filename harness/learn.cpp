// C19 selection and bookkeeping of the policies during training
// C20 protocol of an evaluation and combination of results
// C21 classification, C22 adversarial evaluation
#include "learn.h"
using namespace ln;
using vp::Chooser;
using vp::fmt;

namespace {
    struct Rec
    {
        double v;
        size_t n;
    };
    Rec combine(const Rec& a, const Rec& b)
    {
        if (a.n + b.n == 0)
            return a;
        return {(a.v * (double)a.n + b.v * (double)b.n) / (double)(a.n + b.n),
                a.n + b.n};
    }
    void freshPool(Reuse r)
    {
        for (size_t n = 0; n < 512; n++) {
            for (void* p : freed(n))
                ::operator delete(p);
            freed(n).clear();
        }
        reuse = r;
    }

    // Notes which root is being evaluated
    template <class Base> struct Probe : Base
    {
        mutable Vertex current = nullptr;
        std::function<void(const Learn::Job&)> onJob;
        using Base::Base;
        std::shared_ptr<Learn::EvaluationResult> evaluateJob(
            TPG::TPGExecutionEngine& tee, const Learn::Job& job, uint64_t g,
            LearningMode m, Learn::LearningEnvironment& le) const override
        {
            current = job.getRoot();
            if (onJob)
                onJob(job);
            auto r = Base::evaluateJob(tee, job, g, m, le);
            current = nullptr;
            return r;
        }
    };

    // ------------------------------------------------------------ C19
    struct Config19
    {
        size_t nbRoots;
        double ratio;
        int rootActions;
        size_t maxEval;
        Reuse mode;
        bool validation;
        uint64_t seed;
        bool force = false;
    };
    template <class Base> struct World19
    {
        Config19 c;
        Chooser& ch;
        std::function<double(int)> draw; // index of the draw -> score
        std::unique_ptr<gg::ISet> is = gg::basicSet();
        Script s;
        Env le;
        Learn::LearningParameters p;
        Factory factory;
        Probe<Base> a;
        Mon mon;
        std::map<Vertex, Rec> records; // what the agent has to remember
        Vertex best = nullptr;
        Rec bestRec{0, 0};
        // current evaluation
        std::map<Vertex, std::vector<double>> seen;
        int nbDraws = 0;
        std::vector<Vertex> before;
        std::set<Vertex> verticesBefore;
        std::map<Vertex, Rec> got;
        std::string afterDecimate;
        uint64_t gen = 0;

        World19(const Config19& cf, Chooser& chooser,
                std::function<double(int)> d)
            : c(cf), ch(chooser), draw(d), le(2, s),
              p(params(cf.nbRoots, cf.ratio)), a(le, is->set, tune(), factory),
              mon(a)
        {
            s.score = [this] {
                double v = draw(nbDraws++);
                seen[a.current].push_back(v);
                vp::count("episodes");
                return v;
            };
            mon.onPopulate = [this] { populated(); };
            mon.onEvaluate = [this](gg::Results& r) {
                evaluated(r, LearningMode::TRAINING);
            };
            mon.onDecimate = [this] { decimated(); };
            mon.onValidate = [this](gg::Results& r) { validated(r); };
            init(c.seed);
        }
        const Learn::LearningParameters& tune()
        {
            p.maxNbEvaluationPerPolicy = c.maxEval;
            p.doValidation = c.validation;
            p.mutation.tpg.forceProgramBehaviorChangeOnMutation = c.force;
            return p;
        }
        TPG::TPGGraph& g()
        {
            return *a.getTPGGraph();
        }
        std::string name(Vertex v)
        {
            gg::GraphNames n;
            gg::graphText(g(), &n);
            auto it = n.v.find(v);
            return it == n.v.end() ? "(removed)" : "v" + std::to_string(it->second);
        }
        void forget()
        {
            records.clear();
            best = nullptr;
        }
        void init(uint64_t seed)
        {
            a.init(seed);
            for (int i = 0; i < c.rootActions; i++)
                g().addNewAction(i % 2);
            forget();
            VP_CHECK(a.getArchive().getNbRecordings() == 0, "init-archive",
                     "the archive holds %zu recordings after an initialisation",
                     a.getArchive().getNbRecordings());
            checkState("after an initialisation");
        }
        // what was kept of removed vertices must not be found again
        void dropDead()
        {
            auto alive = vertexSet(g());
            for (auto it = records.begin(); it != records.end();)
                it = alive.count(it->first) ? std::next(it)
                                            : records.erase(it);
        }
        void checkState(const char* when)
        {
            for (auto v : g().getVertices()) {
                std::shared_ptr<Learn::EvaluationResult> prev;
                bool skip = a.isRootEvalSkipped(*v, prev);
                auto it = records.find(v);
                if (it == records.end()) {
                    VP_CHECK(!prev && !skip, "record-of-other-policy",
                             "%s, %s has the record %s although it was not "
                             "evaluated", when, name(v).c_str(),
                             prev ? gg::resultText(*prev).c_str() : "(none)");
                    continue;
                }
                VP_CHECK(prev != nullptr, "record-lost",
                         "%s, the record of %s is lost", when,
                         name(v).c_str());
                VP_CHECK(near(prev->getResult(), it->second.v) &&
                             prev->getNbEvaluation() == it->second.n,
                         "record-wrong",
                         "%s, the record of %s is %g (%zu evaluations) instead "
                         "of %g (%zu)", when, name(v).c_str(),
                         prev->getResult(), prev->getNbEvaluation(),
                         it->second.v, it->second.n);
                VP_CHECK(skip == (it->second.n >= c.maxEval), "skip-rule",
                         "%s, %s with %zu evaluations of at most %zu is %s",
                         when, name(v).c_str(), it->second.n, c.maxEval,
                         skip ? "skipped" : "not skipped");
            }
            auto& b = a.getBestRoot();
            VP_CHECK(b.first == best, "best-root",
                     "%s, the best root is %s instead of %s", when,
                     b.first ? name(b.first).c_str() : "(none)",
                     best ? name(best).c_str() : "(none)");
            if (best)
                VP_CHECK(b.second && near(b.second->getResult(), bestRec.v) &&
                             b.second->getNbEvaluation() == bestRec.n,
                         "best-record",
                         "%s, the best root has the record %s instead of %g "
                         "(%zu)", when,
                         b.second ? gg::resultText(*b.second).c_str() : "(none)",
                         bestRec.v, bestRec.n);
            else
                VP_CHECK(b.second == nullptr, "best-record",
                         "%s, there is a best record without best root", when);
            vp::count("operations");
        }
        void populated()
        {
            dropDead();
            before = g().getRootVertices();
            verticesBefore = vertexSet(g());
            VP_CHECK(before.size() >= c.nbRoots, "populate",
                     "%zu roots instead of %zu", before.size(), c.nbRoots);
            for (auto v : before) {
                std::shared_ptr<Learn::EvaluationResult> prev;
                a.isRootEvalSkipped(*v, prev);
                VP_CHECK(!!prev == !!records.count(v),
                         records.count(v) ? "record-lost"
                                          : "record-of-other-policy",
                         "after the population of generation %zu, %s %s", gen,
                         name(v).c_str(),
                         prev ? "has the record of another policy"
                              : "has lost its record");
            }
            seen.clear();
        }
        // What an evaluation of the current roots has to return
        void evaluated(gg::Results& r, LearningMode m)
        {
            got.clear();
            auto roots = g().getRootVertices();
            VP_CHECK(r.size() == roots.size(), "results",
                     "%zu results for %zu roots", r.size(), roots.size());
            double last = -1e300;
            for (auto& x : r) {
                VP_CHECK(std::count(roots.begin(), roots.end(), x.second) == 1 &&
                             !got.count(x.second),
                         "results", "a result for %s which is %s",
                         name(x.second).c_str(),
                         got.count(x.second) ? "already there" : "no root");
                VP_CHECK(x.first->getResult() >= last, "results-order",
                         "results are not sorted");
                last = x.first->getResult();
                got[x.second] = {x.first->getResult(),
                                 x.first->getNbEvaluation()};
            }
            for (auto v : roots) {
                Rec want{0, 0};
                bool train = m == LearningMode::TRAINING;
                auto it = records.find(v);
                if (train && it != records.end() && it->second.n >= c.maxEval) {
                    want = it->second;
                    VP_CHECK(!seen.count(v), "evaluated-again",
                             "%s is evaluated again after %zu evaluations of "
                             "at most %zu", name(v).c_str(), it->second.n,
                             c.maxEval);
                }
                else {
                    VP_CHECK(seen.count(v) &&
                                 seen[v].size() ==
                                     p.nbIterationsPerPolicyEvaluation,
                             "not-evaluated",
                             "%s is evaluated %zu times instead of %zu",
                             name(v).c_str(),
                             seen.count(v) ? seen[v].size() : 0,
                             (size_t)p.nbIterationsPerPolicyEvaluation);
                    for (double d : seen[v])
                        want.v += d;
                    want.n = seen[v].size();
                    want.v /= (double)want.n;
                    if (train && it != records.end())
                        want = combine(want, it->second);
                }
                VP_CHECK(near(got[v].v, want.v) && got[v].n == want.n, "score",
                         "%s obtains %g (%zu evaluations) instead of %g (%zu)",
                         name(v).c_str(), got[v].v, got[v].n, want.v, want.n);
            }
        }
        void decimated()
        {
            double top = -1e300;
            for (auto& x : got)
                top = std::max(top, x.second.v);
            VP_CHECK(near(a.getBestScoreLastGen(), top), "best-score",
                     "the best score of the generation is %g instead of %g",
                     a.getBestScoreLastGen(), top);
            auto alive = vertexSet(g());
            size_t teams = 0, removed = 0;
            double worstKept = 1e300, bestRemoved = -1e300;
            for (auto v : verticesBefore)
                if (!alive.count(v)) {
                    VP_CHECK(got.count(v), "removed-inner-vertex",
                             "a vertex which was no root disappeared");
                }
            VP_CHECK(std::includes(verticesBefore.begin(), verticesBefore.end(),
                                   alive.begin(), alive.end()),
                     "new-vertex", "a vertex appeared during the decimation");
            for (auto v : before) {
                bool dead = !alive.count(v);
                // a removed vertex may not be inspected
                bool team = dead || isTeam(v);
                if (dead)
                    VP_CHECK(teamsBefore.count(v), "removed-action",
                             "a root action was removed");
                if (!team)
                    continue;
                teams++;
                if (dead) {
                    removed++;
                    bestRemoved = std::max(bestRemoved, got[v].v);
                }
                else
                    worstKept = std::min(worstKept, got[v].v);
            }
            size_t want = std::min(
                (size_t)std::floor(c.ratio * (double)c.nbRoots), teams);
            VP_CHECK(removed == want, "number-removed",
                     "%zu of %zu root teams are removed instead of %zu",
                     removed, teams, want);
            VP_CHECK(removed == 0 || removed == teams ||
                         bestRemoved <= worstKept,
                     "removed-better",
                     "a root which scored %g is removed while one which scored "
                     "%g is kept", bestRemoved, worstKept);
            // records of the survivors
            for (auto v : before)
                if (alive.count(v)) {
                    records[v] = got[v];
                    if (v == best)
                        bestRec = got[v];
                }
                else
                    records.erase(v);
            // best root
            double m = -1e300;
            for (auto v : before)
                if (alive.count(v))
                    m = std::max(m, got[v].v);
            bool none = removed == before.size();
            auto& b = a.getBestRoot();
            if (none) {
                if (best && !alive.count(best))
                    VP_CHECK(b.first == nullptr || b.first == best,
                             "best-root", "no root is left and another vertex "
                             "becomes the best root");
                best = b.first;
                if (best)
                    bestRec = {b.second->getResult(),
                               b.second->getNbEvaluation()};
            }
            else if (best == nullptr || bestRec.v < m || !alive.count(best)) {
                VP_CHECK(b.first && alive.count(b.first) && got.count(b.first),
                         "best-root", "the best root is %s",
                         b.first ? name(b.first).c_str() : "missing");
                VP_CHECK(got[b.first].v == m, "best-root",
                         "the best root scored %g while another one scored %g",
                         got[b.first].v, m);
                best = b.first;
                bestRec = got[best];
            }
            checkState("after a generation");
            afterDecimate = text();
            seen.clear();
        }
        std::set<Vertex> teamsBefore;
        std::string text()
        {
            gg::GraphNames n;
            std::string t = gg::graphText(g(), &n);
            return t + archText(a.getArchive(), n);
        }
        void validated(gg::Results& r)
        {
            evaluated(r, LearningMode::VALIDATION);
            checkState("after a validation");
            VP_CHECK(text() == afterDecimate, "validation-changes",
                     "a validation changes the graph or the archive");
        }
        void train()
        {
            mon.onPopulate = [this] {
                populated();
                teamsBefore.clear();
                for (auto v : before)
                    if (isTeam(v))
                        teamsBefore.insert(v);
            };
            // without any root team left, the population starts anew
            auto roots = g().getRootVertices();
            if (std::none_of(roots.begin(), roots.end(), isTeam))
                forget();
            a.trainOneGeneration(gen++);
            checkState("at the end of a generation");
        }
        void evaluate(LearningMode m)
        {
            dropDead();
            std::string t = m == LearningMode::TRAINING ? "" : text();
            seen.clear();
            auto r = a.evaluateAllRoots(gen, m);
            evaluated(r, m);
            checkState("after an evaluation");
            if (m != LearningMode::TRAINING)
                VP_CHECK(t == text(), "evaluation-changes",
                         "an evaluation which is not for training changes the "
                         "graph or the archive");
        }
        void keepBest()
        {
            if (!best || !vertexSet(g()).count(best))
                return;
            auto want = reachable(best);
            a.keepBestPolicy();
            auto roots = g().getRootVertices();
            VP_CHECK(roots.size() == 1 && roots[0] == best, "keep-best",
                     "%zu roots are kept%s", roots.size(),
                     std::count(roots.begin(), roots.end(), best)
                         ? ""
                         : ", the best root is not among them");
            VP_CHECK(vertexSet(g()) == want, "keep-best",
                     "%zu vertices are kept instead of %zu",
                     vertexSet(g()).size(), want.size());
            dropDead();
            checkState("after keeping the best policy");
        }
        uint64_t state()
        {
            uint64_t h = vp::digest(text());
            for (auto& r : records)
                h = vp::mix(h, vp::digest(name(r.first) + gg::num(r.second.v)));
            return h;
        }
    };

    const double SCORES[] = {-1, 2, -3};

    template <class Base> void scores19(const char* agent, bool T)
    {
        std::vector<Config19> cs;
        for (size_t n : {3, 4})
            for (double r : {0.0, 0.25, 0.5, 0.75, 1.0})
                for (int acts : {0, 1}) {
                    if (n == 4 && acts && !T)
                        continue;
                    cs.push_back({n, r, acts, acts ? 2ul : 1000ul,
                                  acts ? LIFO : NEVER, r == 0.5, 3 + n});
                }
        vp::explore(
            fmt("scores %s", agent),
            [&](Chooser& ch) {
                auto c = cs[ch.pick((int)cs.size())];
                freshPool(c.mode);
                size_t n = c.nbRoots + c.rootActions;
                World19<Base> w(c, ch, [&](int i) {
                    // every score of the first generation, two values for the
                    // second one, fixed ones afterwards
                    if (i < (int)n)
                        return SCORES[ch.pick(3)];
                    if (i < 2 * (int)n)
                        return SCORES[ch.pick(2)];
                    return SCORES[(i * 7 + i / 3) % 3];
                });
                for (int g = 0; g < 3; g++)
                    w.train();
                vp::distinct("states", w.state());
            },
            {.splitDepth = 4});
        vp::bound(fmt("selection (%s)", agent),
                  "3 generations; every score of {-3,-1,2} per root in the "
                  "first one, of {-1,2} in the second one; 3-4 roots, ratio of "
                  "deleted roots 0 to 1, with and without root actions");
    }
    // many roots, few scores which differ from a pattern
    template <class Base>
    void many19(const char* agent, std::vector<size_t> roots, int dev)
    {
        std::vector<Config19> cs;
        for (size_t n : roots)
            for (double r : {0.34, 0.9})
                for (int acts : {0, 2})
                    cs.push_back({n, r, acts, acts ? 3ul : 1000ul,
                                  acts ? LIFO : FIFO, r == 0.34, 5 + n});
        vp::explore(
            fmt("many roots %s", agent),
            [&](Chooser& ch) {
                auto c = cs[ch.pick((int)cs.size())];
                freshPool(c.mode);
                int pat = ch.pick(4);
                const double other[] = {0, -100, 100, 0.5, 3};
                World19<Base> w(c, ch, [&](int i) {
                    double d[] = {(double)i, -(double)i, 1.0,
                                  (double)(i * 7 % 5)};
                    int x = ch.pickDev(5, 0);
                    return x ? other[x] : d[pat];
                });
                for (int g = 0; g < 3; g++)
                    w.train();
                vp::distinct("states", w.state());
            },
            {.maxDev = dev, .splitDepth = 3});
        vp::bound(fmt("many roots (%s)", agent),
                  fmt("3 generations of %s roots, ratio of deleted roots "
                      "0.34 and 0.9, 4 patterns of scores with at most %d "
                      "changed, with and without root actions",
                      roots.size() > 1 ? "9 and 12" : "12", dev));
    }
    template <class W>
    void operation(W& w, const Config19& c, int op, int i)
    {
        switch (op) {
        case 0:
            w.train();
            break;
        case 1:
            w.evaluate(LearningMode::TRAINING);
            break;
        case 2:
            w.evaluate(i % 2 ? LearningMode::VALIDATION
                             : LearningMode::TESTING);
            break;
        case 3:
            w.keepBest();
            break;
        case 4:
            w.a.forgetPreviousResults();
            w.forget();
            w.checkState("after forgetting the results");
            break;
        case 5:
            w.init(c.seed + i);
            break;
        }
    }
    // long trainings, few other operations
    template <class Base> void long19(const char* agent, int depth, int dev)
    {
        std::vector<Config19> cs;
        for (double r : {0.25, 0.5, 1.0})
            for (Reuse m : {LIFO, FIFO, NEVER})
                cs.push_back({5, r, r == 0.5 ? 1 : 0, m == LIFO ? 3ul : 1000ul,
                              m, m == FIFO, 17, m == NEVER});
        vp::explore(
            fmt("long %s", agent),
            [&](Chooser& ch) {
                auto c = cs[ch.pick((int)cs.size())];
                freshPool(c.mode);
                World19<Base> w(c, ch, [&](int i) {
                    return SCORES[(i * 7 + i / 3) % 3] * (i / 20 % 3);
                });
                for (int i = 0; i < depth; i++) {
                    int op = ch.pickDev(6, 0);
                    vp::describe("TEVKFI"[op] + std::string(" "));
                    operation(w, c, op, i);
                    vp::distinct("states", w.state());
                }
            },
            {.maxDev = dev, .splitDepth = 3});
        vp::bound(fmt("long trainings (%s)", agent),
                  fmt("%d operations, all trainings but at most %d of the "
                      "others, anywhere", depth, dev));
    }
    template <class Base> void histories19(const char* agent, int depth, int dev)
    {
        std::vector<Config19> cs;
        for (double r : {0.25, 0.5, 1.0})
            for (Reuse m : {LIFO, FIFO, NEVER})
                cs.push_back({4, r, r == 0.5 ? 1 : 0, m == LIFO ? 1ul : 2ul, m,
                              m == FIFO, 11, m == NEVER});
        vp::explore(
            fmt("histories %s", agent),
            [&](Chooser& ch) {
                auto c = cs[ch.pick((int)cs.size())];
                freshPool(c.mode);
                World19<Base> w(c, ch, [&](int i) {
                    int d = (i * 7 + i / 3) % 3;
                    return SCORES[ch.pickDev(3, d)];
                });
                for (int i = 0; i < depth; i++) {
                    int op = i == 0 ? 0 : ch.pick(6);
                    vp::describe("TEVKFI"[op] + std::string(" "));
                    operation(w, c, op, i);
                    vp::distinct("states", w.state());
                }
            },
            {.maxDev = dev, .splitDepth = 4});
        vp::bound(fmt("histories (%s)", agent),
                  fmt("%d operations of {train, evaluate for training, evaluate "
                      "otherwise, keep the best policy, forget the results, "
                      "initialise}, up to %d scores changed, 3 ways of using "
                      "addresses again", depth, dev));
    }
    // A validation after each generation changes nothing to the training
    template <class Base> void twins19(const char* agent)
    {
        vp::explore(
            fmt("validation %s", agent),
            [&](Chooser& ch) {
                Config19 c{4, 0.5, ch.pick(2), 2, NEVER, false,
                           (uint64_t)ch.pick(4)};
                c.force = ch.pick(2);
                int salt = ch.pick(3);
                std::string t[2];
                for (int k : {0, 1}) {
                    freshPool(NEVER);
                    c.validation = k;
                    World19<Base>* pw = nullptr;
                    int trained = 0;
                    bool validating = false;
                    World19<Base> w(c, ch, [&](int) {
                        if (validating)
                            return 100.0;
                        trained++;
                        return SCORES[(trained * 5 + trained / 4 + salt) % 3];
                    });
                    pw = &w;
                    auto d = w.mon.onDecimate;
                    w.mon.onDecimate = [&, d] {
                        d();
                        validating = true;
                    };
                    w.mon.onEnd = [&] { validating = false; };
                    for (int i = 0; i < 4; i++) {
                        pw->train();
                        t[k] += pw->text();
                    }
                    t[k] += std::to_string(w.a.getRNG().getUnsignedInt64(
                        0, UINT64_MAX));
                }
                VP_CHECK(t[0] == t[1], "validation-changes",
                         "training gives another result with a validation "
                         "after each generation");
                vp::distinct("states", vp::digest(t[0]));
            },
            {.splitDepth = 2});
    }
} // namespace

void vp_main()
{
    bool T = vp::opt.thorough();
    if (vp::opt.prop == "C19") {
        scores19<Learn::LearningAgent>("LearningAgent", T);
        scores19<Learn::ParallelLearningAgent>("ParallelLearningAgent", T);
        histories19<Learn::LearningAgent>("LearningAgent", T ? 5 : 4, 1);
        histories19<Learn::ParallelLearningAgent>("ParallelLearningAgent",
                                                  T ? 5 : 4, 1);
        many19<Learn::LearningAgent>("LearningAgent", {9, 12}, T ? 2 : 1);
        many19<Learn::ParallelLearningAgent>("ParallelLearningAgent",
                                             {12}, 1);
        long19<Learn::LearningAgent>("LearningAgent", T ? 20 : 7, 2);
        long19<Learn::ParallelLearningAgent>("ParallelLearningAgent",
                                             T ? 20 : 9, 1);
        twins19<Learn::LearningAgent>("LearningAgent");
        twins19<Learn::ParallelLearningAgent>("ParallelLearningAgent");
    }
}
