// Exhaustive exploration of the schedules of a body (see sched.h):
//  - explorePB: all schedules with at most K preemptions
//  - exploreDPOR: all schedules (no preemption bound) up to equivalence, by
//    dynamic partial order reduction with sleep sets
#ifndef SCHED_EXPLORE_H
#define SCHED_EXPLORE_H
#include "../harness/vp.h"
#include "sched.h"
#include <algorithm>
#include <map>
#include <memory>

namespace sched {
    // What has to hold at the end of every schedule.
    struct Scenario
    {
        std::string name;
        std::function<void()> setup;  // run once per process, before forking
        Body body;                    // the concurrent part; canonical result
        std::function<std::string()> reference; // expected result
        Config cfg;
        bool checkResult = true;
        bool checkSync = true; // races, deadlocks, crashes are violations
    };
    // Where races are no violation by themselves the racing accesses become
    // scheduling points of the next explorations of the scenario, so that
    // their effects on the result are explored too.
    inline bool learnRaces(Config& cfg, const Record& r)
    {
        bool grown = false;
        for (int i = 0; i < r.nraces; i++)
            for (uint64_t pc : {r.races[i].pc1, r.races[i].pc2})
                if (r.races[i].kind == 0 && cfg.racePcs.size() < 64 &&
                    std::find(cfg.racePcs.begin(), cfg.racePcs.end(), pc) ==
                        cfg.racePcs.end()) {
                    cfg.racePcs.push_back(pc);
                    grown = true;
                }
        return grown;
    }
    inline void judge(const Scenario& s, Record& r, const std::string& ref)
    {
        vp::count("schedules");
        vp::count("sync_operations", r.syncs);
        vp::count("memory_accesses_checked", r.accesses);
        vp::count("scheduling_decisions", r.nsteps);
        vp::maximum("threads_max", r.nthreads);
        vp::maximum("steps_max", r.nsteps);
        if (r.status == SLEEPSET) {
            vp::count("sleep_set_blocked");
            return;
        }
        vp::distinct("distinct_traces",
                     vp::mix(vp::digest(s.name), traceDigest(r)));
        if (r.status == REPLAY_MISMATCH)
            vp::fail("schedule-replay-mismatch",
                     "the same schedule prefix does not give the same "
                     "enabled threads");
        if (r.status == STEPLIMIT)
            vp::fail("livelock", "no end after " +
                                     std::to_string(r.nsteps) +
                                     " synchronisation operations\n" +
                                     scheduleText(r));
        if (s.checkSync) {
            if (r.status == DEADLOCK)
                vp::fail("deadlock", "all threads are blocked: " +
                                         scheduleText(r));
            if (r.nraces)
                vp::fail(raceKey(r.races[0]),
                         raceText(r.races[0]) + "\nschedule: " +
                             scheduleText(r));
        }
        if (r.status == HANG)
            vp::fail("hang", "the execution does not terminate\nschedule: " +
                                 scheduleText(r));
        if (r.status == CRASH)
            vp::fail("crash", "signal " + std::to_string(r.signal) +
                                  "\nschedule: " + scheduleText(r));
        if (r.status == DEADLOCK)
            vp::fail("deadlock", scheduleText(r));
        std::string res(r.result, r.resultLen);
        if (r.status == EXCEPTION)
            vp::fail("exception", "unexpected exception: " + res +
                                      "\nschedule: " + scheduleText(r));
        if (s.checkResult && res != ref) {
            size_t i = 0;
            while (i < res.size() && i < ref.size() && res[i] == ref[i])
                i++;
            size_t b = i > 200 ? i - 200 : 0;
            vp::fail("result:" + s.name,
                     "the result differs from the single threaded run "
                     "from byte " +
                         std::to_string(i) + "\n expected ..." +
                         ref.substr(b, 500) + "\n obtained ..." +
                         res.substr(b, 500) + "\nschedule: " +
                         scheduleText(r));
        }
        vp::count("results_compared", s.checkResult ? 1 : 0);
    }

    struct Prepared
    {
        bool ready = false;
        std::string ref;
        Config cfg; // of the scenario, with the learned races
        void prepare(const Scenario& s)
        {
            if (ready)
                return;
            ready = true;
            if (s.setup)
                s.setup();
            if (s.reference) {
                ref = runPlain(s.reference);
                if (ref.rfind("error:", 0) == 0)
                    vp::fail("reference:" + s.name,
                             "the single threaded run fails: " + ref);
            }
            cfg = s.cfg;
            if (!s.checkSync)
                for (int i = 0; i < 4; i++)
                    if (!learnRaces(cfg, run(s.body, {}, cfg)))
                        break;
            vp::maximum("racing_accesses_as_points", cfg.racePcs.size());
        }
    };

    // Explores all schedules of several scenarios of the same kind, the first
    // decision being the scenario. They are made when needed only.
    using Scenarios = std::vector<std::function<Scenario()>>;
    inline void explorePBAll(const std::string& name, const Scenarios& all,
                             int preemptions, int splitDepth, bool grid)
    {
        struct Current
        {
            int index = -1;
            Scenario s;
            Prepared prep;
            std::vector<Step> last;
        };
        auto cur = std::make_shared<std::unique_ptr<Current>>();
        vp::ExploreOptions o;
        o.maxDev = preemptions;
        o.splitDepth = splitDepth;
        o.maxViolations = 3;
        vp::explore(
            "pb" + std::to_string(preemptions) + "-" + name,
            [&](vp::Chooser& c) {
                int which = grid ? c.pick((int)all.size()) : 0;
                if (!*cur || (*cur)->index != which) {
                    cur->reset(new Current);
                    (*cur)->index = which;
                    (*cur)->s = all[which]();
                    vp::count("scenarios");
                }
                const Scenario& s = (*cur)->s;
                Prepared* prep = &(*cur)->prep;
                prep->prepare(s);
                // the prefix, translated to thread ids by a first record
                auto& prev = (*cur)->last;
                std::vector<int> pfx;
                // index of the first decision of the schedule
                const size_t first = grid && all.size() > 1 ? 1 : 0;
                size_t k = first;
                if (c.replaying) {
                    // find the prefix step by step
                    for (;;) {
                        Record& r = run(s.body, pfx, prep->cfg);
                        size_t j = 0, node = first;
                        std::vector<int> np;
                        bool ext = false;
                        for (j = 0; j < (size_t)r.nsteps; j++) {
                            const Step& st = r.steps[j];
                            int alt = st.alts[0];
                            if (st.nalt > 1) {
                                if (node < c.nodes.size())
                                    alt = st.alts[c.nodes[node].choice %
                                                  st.nalt];
                                node++;
                            }
                            np.push_back(alt);
                            if (alt != st.tid) {
                                ext = true;
                                break;
                            }
                        }
                        if (!ext)
                            break;
                        pfx = np;
                    }
                }
                else {
                    for (size_t j = 0; j < prev.size() && k < c.nodes.size();
                         j++) {
                        if (prev[j].nalt > 1)
                            pfx.push_back(
                                prev[j].alts[c.nodes[k++].choice]);
                        else
                            pfx.push_back(prev[j].alts[0]);
                    }
                }
                Record& r = run(s.body, pfx, prep->cfg);
                prev.assign(r.steps, r.steps + r.nsteps);
                for (int j = 0; j < r.nsteps; j++) {
                    const Step& st = r.steps[j];
                    if (st.nalt < 2)
                        continue;
                    int ch = st.preempt ? c.pickDev(st.nalt, 0)
                                        : c.pick(st.nalt);
                    if (st.alts[ch] != st.tid)
                        vp::fail("schedule-replay-mismatch",
                                 "explorer and runtime disagree");
                }
                judge(s, r, prep->ref);
                if (c.deviations())
                    vp::sample(s.name + ": " + scheduleText(r).substr(0, 400));
            },
            o);
    }
    inline void explorePB(const Scenario& s, int preemptions,
                          int splitDepth = 8)
    {
        explorePBAll(s.name, {[s] { return s; }}, preemptions, splitDepth,
                     false);
    }

    // Flanagan-Godefroid DPOR + sleep sets. One process.
    struct Dpor
    {
        struct Node
        {
            uint16_t enabledMask = 0, backtrack = 0, done = 0, sleep = 0;
            int tid = -1;
        };
        const Scenario& s;
        std::string ref;
        uint64_t limit;
        uint64_t runs = 0, blocked = 0;
        bool complete = true;
        Config base;
        bool racesLearnt = false;
        Dpor(const Scenario& sc, std::string rf, uint64_t lim,
             const Config& cf)
            : s(sc), ref(std::move(rf)), limit(lim), base(cf)
        {
        }
        std::vector<Node> stack;

        void analyse(const Record& r)
        {
            int n = r.nsteps;
            // happens-before clocks over the steps: cv[i][t] = last step of t
            // (index+1) that happens before or equals step i
            std::vector<std::array<int, MAXT>> cv(n);
            std::array<int, MAXT> lastOf;
            lastOf.fill(0);
            std::vector<std::array<int, MAXT>> thr(MAXT);
            for (auto& a : thr)
                a.fill(0);
            for (int i = 0; i < n; i++) {
                const Step& st = r.steps[i];
                int p = st.tid;
                // races of the operation about to be executed
                addBacktracks(r, i, p, thr[p], st.pending[p]);
                std::array<int, MAXT> c = thr[p];
                for (int j = i - 1; j >= 0; j--) {
                    const Step& sj = r.steps[j];
                    if (c[sj.tid] >= j + 1)
                        continue;
                    if (dependent(sj, st))
                        for (int t = 0; t < MAXT; t++)
                            c[t] = std::max(c[t], cv[j][t]);
                }
                c[p] = i + 1;
                cv[i] = c;
                thr[p] = c;
            }
            // operations still pending at the end (deadlock)
            if (r.status == DEADLOCK && n > 0) {
                const Step& st = r.steps[n]; // record being built
                for (int t = 0; t < MAXT; t++)
                    if (st.alive >> t & 1)
                        addBacktracks(r, n, t, thr[t], st.pending[t]);
            }
        }
        void addBacktracks(const Record& r, int i, int p,
                           const std::array<int, MAXT>& c, const Op& op)
        {
            if (op.kind != LOCK && op.kind != ATOMIC && op.kind != COND &&
                op.kind != TIMED && op.kind != YIELD)
                return;
            for (int j = i - 1; j >= 0; j--) {
                const Step& sj = r.steps[j];
                if (sj.tid == p)
                    continue;
                if (c[sj.tid] >= j + 1)
                    continue; // happens before
                const Op& oj = sj.pending[sj.tid];
                bool race;
                if (op.kind == YIELD || oj.kind == YIELD)
                    race = true;
                else
                    race = (oj.kind == LOCK || oj.kind == ATOMIC ||
                            oj.kind == COND || oj.kind == TIMED) &&
                           oj.obj == op.obj &&
                           !(oj.kind == ATOMIC && op.kind == ATOMIC &&
                             !oj.rw && !op.rw);
                if (!race)
                    continue;
                Node& nd = stack[j];
                if (nd.enabledMask >> p & 1)
                    nd.backtrack |= 1 << p;
                else
                    nd.backtrack |= nd.enabledMask;
                return;
            }
        }
        void explore()
        {
            std::vector<int> pfx;
            uint16_t sleepAt = 0;
            for (;;) {
                Config cfg = base;
                cfg.useSleep = true;
                cfg.sleep = sleepAt;
                Record& r = run(s.body, pfx, cfg);
                runs++;
                if (!s.checkSync && learnRaces(base, r)) {
                    // start again with more points
                    judge(s, r, ref);
                    pfx.clear();
                    stack.clear();
                    sleepAt = 0;
                    continue;
                }
                // extend the stack
                size_t keep = pfx.size();
                stack.resize(std::min(stack.size(), keep));
                for (int i = (int)stack.size(); i < r.nsteps; i++) {
                    Node nd;
                    const Step& st = r.steps[i];
                    for (int k = 0; k < st.nalt; k++)
                        nd.enabledMask |= 1 << st.alts[k];
                    nd.tid = st.tid;
                    nd.backtrack = 1 << st.tid;
                    nd.done = 1 << st.tid;
                    stack.push_back(nd);
                }
                if (pfx.size())
                    stack[pfx.size() - 1].tid = pfx.back();
                // sleep sets of the nodes after the prefix
                for (int i = (int)keep; i < r.nsteps; i++) {
                    uint16_t sl = 0;
                    if (i > 0) {
                        const Step& sp = r.steps[i - 1];
                        Node& pn = stack[i - 1];
                        uint16_t cand =
                            (pn.sleep | (pn.done & ~(1 << sp.tid)));
                        for (int t = 0; t < MAXT; t++)
                            if ((cand >> t & 1) &&
                                !opDependsOnStep(r.steps[i].pending[t], t,
                                                 sp))
                                sl |= 1 << t;
                    }
                    stack[i].sleep = sl;
                }
                analyse(r);
                judge(s, r, ref);
                if (r.status == SLEEPSET)
                    blocked++;
                // next
                int i = (int)stack.size() - 1;
                for (; i >= 0; i--) {
                    uint16_t todo =
                        stack[i].backtrack & ~stack[i].done & ~stack[i].sleep;
                    if (todo) {
                        int t = __builtin_ctz(todo);
                        pfx.clear();
                        for (int j = 0; j < i; j++)
                            pfx.push_back(stack[j].tid);
                        pfx.push_back(t);
                        sleepAt = stack[i].sleep | stack[i].done;
                        stack[i].done |= 1 << t;
                        stack[i].tid = t;
                        stack.resize(i + 1);
                        break;
                    }
                }
                if (i < 0)
                    return;
                if (runs >= limit) {
                    complete = false;
                    return;
                }
            }
        }
    };
    // every scenario is explored by one process, several at a time
    inline void exploreDPOR(const std::string& name,
                            const std::vector<Scenario>& all, uint64_t limit)
    {
        vp::ExploreOptions o;
        o.splitDepth = 1;
        o.hangSeconds = 3000;
        o.maxViolations = 3;
        vp::explore(
            "dpor-" + name,
            [&](vp::Chooser& c) {
                size_t i = c.pick((int)all.size() + 1);
                if (i >= all.size())
                    return;
                const Scenario& s = all[i];
                vp::describe("scenario " + s.name + "; ");
                Prepared prep;
                prep.prepare(s);
                Dpor d(s, prep.ref, limit, prep.cfg);
                d.explore();
                vp::count("dpor_scenarios");
                if (!d.complete)
                    vp::count("dpor_truncated");
                fprintf(stderr, "    dpor %s: %llu schedules (%llu blocked)%s\n",
                        s.name.c_str(), (unsigned long long)d.runs,
                        (unsigned long long)d.blocked,
                        d.complete ? "" : " TRUNCATED");
            },
            o);
    }
} // namespace sched
#endif
