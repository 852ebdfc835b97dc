#include <unordered_map>
#include "vp.h"
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <fstream>
#include <map>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace vp {
    Options opt;
    namespace {
        constexpr int NCTR = 8192, NAME = 96;
        constexpr int NVIOL = 48, KEYLEN = 256, MSGLEN = 6000, REPLEN = 16000;
        constexpr int NSAMPLE = 12, SAMPLELEN = 700;
        constexpr int NSET = 4096;
        constexpr int MAXW = 64;
        constexpr size_t CURLEN = 400000;
        struct Ctr
        {
            std::atomic<uint64_t> v;
            char name[NAME];
            int isMax;
        };
        struct Viol
        {
            char key[KEYLEN], msg[MSGLEN], scen[NAME], rep[REPLEN];
            std::atomic<uint64_t> n;
            int known;
        };
        struct SetDesc
        {
            char name[NAME];
            uint64_t salt;
            std::atomic<uint64_t> n;
        };
        struct Worker
        {
            std::atomic<uint64_t> runs;
            std::atomic<int> npos;
            std::atomic<int> done;
            std::atomic<int> ndesc;
            char desc[4096];
            int32_t cur[CURLEN]; // triples
        };
        struct Shared
        {
            std::atomic<int> lock;
            std::atomic<int> nctr, nviol, nsample, nset;
            Ctr ctr[NCTR];
            Viol viol[NVIOL];
            char sample[NSAMPLE][SAMPLELEN];
            SetDesc set[NSET];
            std::atomic<uint64_t> setOverflow;
            std::atomic<uint64_t> stop;
            Worker w[MAXW];
        };
        Shared* S = nullptr;
        constexpr uint64_t TABBITS = 26;
        constexpr uint64_t TABSIZE = 1ULL << TABBITS;
        std::atomic<uint64_t>* T = nullptr;
        std::vector<std::pair<std::string, std::string>> bounds;
        std::vector<std::string> incomplete;
        std::map<std::string, std::string> exploredJson;
        std::set<std::string> knownKeys;
        double t0;
        Chooser* current = nullptr;
        int myWorker = -1;

        double now()
        {
            timespec ts;
            clock_gettime(CLOCK_MONOTONIC, &ts);
            return ts.tv_sec + ts.tv_nsec * 1e-9;
        }
        struct Lock
        {
            Lock()
            {
                int e = 0, me = (int)getpid();
                double since = 0;
                while (!S->lock.compare_exchange_weak(e, me)) {
                    // a process which died while it held the lock
                    if (since == 0)
                        since = now();
                    if (e > 1 && now() - since > 2 && kill(e, 0) != 0)
                        S->lock.compare_exchange_strong(e, 0);
                    e = 0;
                    sched_yield();
                }
            }
            ~Lock()
            {
                S->lock = 0;
            }
        };
        void init()
        {
            if (S)
                return;
            S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                              MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1,
                              0);
            T = (std::atomic<uint64_t>*)mmap(
                nullptr, TABSIZE * 8, PROT_READ | PROT_WRITE,
                MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (S == MAP_FAILED || T == MAP_FAILED) {
                perror("mmap");
                _exit(2);
            }
            t0 = now();
        }
        Ctr& ctrSlow(const char* name)
        {
            int n = S->nctr.load();
            for (int i = 0; i < n; i++)
                if (!strcmp(S->ctr[i].name, name))
                    return S->ctr[i];
            Lock l;
            n = S->nctr.load();
            for (int i = 0; i < n; i++)
                if (!strcmp(S->ctr[i].name, name))
                    return S->ctr[i];
            if (n >= NCTR)
                abort();
            strncpy(S->ctr[n].name, name, NAME - 1);
            S->nctr = n + 1;
            return S->ctr[n];
        }
        Ctr& ctr(const char* name)
        {
            static std::unordered_map<std::string, Ctr*> known;
            auto& c = known[name];
            if (!c)
                c = &ctrSlow(name);
            return *c;
        }
        SetDesc& setDescSlow(const char* name)
        {
            int n = S->nset.load();
            for (int i = 0; i < n; i++)
                if (!strcmp(S->set[i].name, name))
                    return S->set[i];
            Lock l;
            n = S->nset.load();
            for (int i = 0; i < n; i++)
                if (!strcmp(S->set[i].name, name))
                    return S->set[i];
            if (n >= NSET)
                abort();
            strncpy(S->set[n].name, name, NAME - 1);
            S->set[n].salt = digest(std::string(name)) | 1;
            S->nset = n + 1;
            return S->set[n];
        }
        SetDesc& setDesc(const char* name)
        {
            static std::unordered_map<std::string, SetDesc*> known;
            auto& c = known[name];
            if (!c)
                c = &setDescSlow(name);
            return *c;
        }
        std::string jesc(const std::string& s)
        {
            std::string r;
            for (unsigned char c : s) {
                if (c == '"' || c == '\\') {
                    r += '\\';
                    r += c;
                }
                else if (c == '\n')
                    r += "\\n";
                else if (c < 32 || c > 126) {
                    char b[8];
                    snprintf(b, 8, "\\u%04x", c);
                    r += b;
                }
                else
                    r += c;
            }
            return r;
        }
    } // namespace

    uint64_t digest(const void* p, size_t n, uint64_t h)
    {
        const unsigned char* c = (const unsigned char*)p;
        for (size_t i = 0; i < n; i++) {
            h ^= c[i];
            h *= 1099511628211ULL;
        }
        h ^= h >> 32;
        h *= 0xff51afd7ed558ccdULL;
        h ^= h >> 29;
        return h;
    }
    void count(const char* name, uint64_t n)
    {
        ctr(name).v += n;
    }
    uint64_t counter(const char* name)
    {
        return ctr(name).v;
    }
    void maximum(const char* name, uint64_t v)
    {
        auto& c = ctr(name);
        c.isMax = 1;
        uint64_t o = c.v;
        while (o < v && !c.v.compare_exchange_weak(o, v))
            ;
    }
    bool distinct(const char* set, uint64_t d)
    {
        SetDesc& s = setDesc(set);
        uint64_t h = mix(d, s.salt);
        if (h == 0)
            h = 1;
        uint64_t i = h & (TABSIZE - 1);
        for (int probe = 0; probe < 4096; probe++) {
            uint64_t v = T[i].load(std::memory_order_relaxed);
            if (v == h)
                return false;
            if (v == 0) {
                uint64_t e = 0;
                if (T[i].compare_exchange_strong(e, h)) {
                    s.n++;
                    return true;
                }
                if (e == h)
                    return false;
            }
            i = (i + 1) & (TABSIZE - 1);
        }
        S->setOverflow++;
        return true; // table full: explore again rather than miss
    }
    namespace {
        // A state is recorded as soon as it is reached, before what follows
        // it was explored. That is sound because the worker which records it
        // goes on exploring from it. `contains` does not insert.
        bool contains(const char* set, uint64_t d)
        {
            SetDesc& s = setDesc(set);
            uint64_t h = mix(d, s.salt);
            if (h == 0)
                h = 1;
            uint64_t i = h & (TABSIZE - 1);
            for (int probe = 0; probe < 4096; probe++) {
                uint64_t v = T[i].load(std::memory_order_relaxed);
                if (v == h)
                    return true;
                if (v == 0)
                    return false;
                i = (i + 1) & (TABSIZE - 1);
            }
            return false;
        }
    } // namespace
    uint64_t nbDistinct(const char* set)
    {
        return setDesc(set).n;
    }
    void sample(const std::string& text)
    {
        if (S->nsample >= NSAMPLE)
            return;
        Lock l;
        int n = S->nsample;
        if (n >= NSAMPLE)
            return;
        strncpy(S->sample[n], text.c_str(), SAMPLELEN - 1);
        S->nsample = n + 1;
    }
    void bound(const std::string& name, const std::string& text)
    {
        bounds.push_back({name, text});
    }
    void notExhaustive(const std::string& why)
    {
        incomplete.push_back(why);
    }
    std::string fmt(const char* f, ...)
    {
        char b[MSGLEN];
        va_list ap;
        va_start(ap, f);
        vsnprintf(b, sizeof b, f, ap);
        va_end(ap);
        return b;
    }
    void fail(const std::string& key, const std::string& msg)
    {
        throw Violation{key, msg};
    }
    bool isKnown(const std::string& key)
    {
        return knownKeys.count(key) > 0;
    }
    uint64_t nbViolations()
    {
        uint64_t n = 0;
        for (int i = 0; i < S->nviol; i++)
            n += !S->viol[i].known;
        return n;
    }
    void recordViolation(const std::string& key, const std::string& msg,
                         const std::string& scenario,
                         const std::string& replay)
    {
        Lock l;
        int n = S->nviol;
        for (int i = 0; i < n; i++)
            if (key == S->viol[i].key) {
                S->viol[i].n++;
                return;
            }
        if (n >= NVIOL)
            return;
        Viol& v = S->viol[n];
        strncpy(v.key, key.c_str(), KEYLEN - 1);
        strncpy(v.msg, msg.c_str(), MSGLEN - 1);
        strncpy(v.scen, scenario.c_str(), NAME - 1);
        strncpy(v.rep, replay.c_str(), REPLEN - 1);
        v.n = 1;
        v.known = isKnown(key);
        S->nviol = n + 1;
    }

    // ------------------------------------------------------------------
    std::string Chooser::vectorText() const
    {
        std::string r;
        for (size_t i = 0; i < nodes.size() && i < pos; i++)
            r += fmt("%d/%d/%d ", nodes[i].choice, nodes[i].n, nodes[i].def);
        return r;
    }
    void Chooser::prune()
    {
        throw Pruned{false};
    }
    void Chooser::truncate()
    {
        throw Pruned{true};
    }
    int Chooser::next(int n, int def)
    {
        if (n <= 0) {
            fprintf(stderr, "pick(%d)\n", n);
            abort();
        }
        if (pos >= maxPicks)
            throw Pruned{true};
        if (pos >= nodes.size())
            nodes.push_back({0, n, def, 0});
        Node& nd = nodes[pos];
        if (nd.n != n || nd.def != def) {
            // The code under test did not behave the same way for the
            // same decisions: the exploration would be meaningless.
            throw Violation{
                "nondeterministic-replay",
                fmt("decision %zu offered %d alternatives and now %d: the "
                    "same decisions do not give the same execution",
                    pos, nd.n, n)};
        }
        if (worker >= 0 && (pos + 1) * 3 < CURLEN) {
            int32_t* c = S->w[worker].cur;
            c[3 * pos] = nd.choice;
            c[3 * pos + 1] = n;
            c[3 * pos + 2] = def;
            S->w[worker].npos = (int)pos + 1;
        }
        nd.cost = (def >= 0 && nd.choice > 0) ? 1 : 0;
        cost += nd.cost;
        pos++;
        if (!replaying && !claimed && (int)pos == splitDepth) {
            uint64_t h = 77;
            for (size_t i = 0; i < pos; i++)
                h = mix(h, nodes[i].choice * 131071ULL + nodes[i].n);
            if (freshFrom > pos) {
                // same subtree as the previous run: already ours
            }
            else if (!claim(claimSet.c_str(), h))
                throw Pruned{false};
            claimed = true;
        }
        if (def < 0)
            return nd.choice;
        // enumeration order: def, then the others in cyclic order
        return (def + nd.choice) % n;
    }
    int Chooser::pick(int n)
    {
        if (n == 1)
            return 0;
        return next(n, -1);
    }
    int Chooser::pickDev(int n, int def)
    {
        if (n == 1)
            return 0;
        return next(n, def);
    }
    void Chooser::visit(const char* set, uint64_t state, int remaining,
                        int maxRemaining)
    {
        if (replaying || !fresh())
            return;
        if (splitDepth > 0 && (int)pos < splitDepth)
            return;
        for (int r = remaining; r <= maxRemaining; r++)
            if (contains(set, mix(state, 1000 + r))) {
                count("state_matches");
                throw Pruned{false};
            }
        if (!distinct(set, mix(state, 1000 + remaining)))
            throw Pruned{false};
    }
    void describe(const std::string& s)
    {
        if (current) {
            current->describe += s;
            if (myWorker >= 0) {
                Worker& w = S->w[myWorker];
                int n = w.ndesc;
                int l = (int)s.size();
                if (n + l < (int)sizeof w.desc - 1) {
                    memcpy(w.desc + n, s.data(), l);
                    w.desc[n + l] = 0;
                    w.ndesc = n + l;
                }
            }
        }
    }

    namespace {
        // Runs once. 0: ok, 1: pruned, 2: truncated, 3: violation
        int runOnce(const Scenario& sc, Chooser& c, Violation& v)
        {
            c.pos = 0;
            c.cost = 0;
            c.claimed = c.splitDepth <= 0;
            c.describe.clear();
            current = &c;
            if (myWorker >= 0) {
                S->w[myWorker].ndesc = 0;
                S->w[myWorker].desc[0] = 0;
                S->w[myWorker].npos = 0;
            }
            int r = 0;
            try {
                sc(c);
            }
            catch (Pruned& p) {
                r = p.truncated ? 2 : 1;
            }
            catch (Violation& x) {
                v = x;
                r = 3;
            }
            catch (std::exception& e) {
                v = {std::string("unexpected-exception"),
                     std::string("unexpected exception: ") + e.what()};
                r = 3;
            }
            current = nullptr;
            return r;
        }
        bool advance(Chooser& c)
        {
            c.nodes.resize(c.pos);
            while (!c.nodes.empty()) {
                Chooser::Node& nd = c.nodes.back();
                int used = 0;
                for (size_t i = 0; i + 1 < c.nodes.size(); i++)
                    used += c.nodes[i].cost;
                if (nd.choice + 1 < nd.n &&
                    (nd.def < 0 || used + 1 <= c.maxDev)) {
                    nd.choice++;
                    nd.cost = nd.def >= 0 ? 1 : 0;
                    c.freshFrom = c.nodes.size();
                    return true;
                }
                c.nodes.pop_back();
            }
            return false;
        }
        void workerLoop(const std::string& name, const Scenario& sc,
                        const ExploreOptions& o, int w,
                        std::vector<Chooser::Node> start, bool startIsCrash,
                        double deadline)
        {
            myWorker = w;
            Chooser c;
            c.maxDev = o.maxDev;
            c.maxPicks = o.maxPicks;
            c.splitDepth = o.splitDepth;
            c.claimSet = "claim:" + name;
            c.worker = w;
            c.nodes = start;
            Ctr &runs = ctr(("runs:" + name).c_str()),
                &pruned = ctr(("pruned:" + name).c_str()),
                &trunc = ctr(("truncated:" + name).c_str());
            Ctr& steps = ctr("decisions");
            if (startIsCrash) {
                c.pos = c.nodes.size();
                if (!advance(c))
                    return;
            }
            uint64_t iter = 0;
            for (;;) {
                Violation v;
                int r = runOnce(sc, c, v);
                S->w[w].runs++;
                bool mine = c.claimed;
                if (!mine && r != 1) {
                    // a run shorter than the split depth
                    uint64_t h = 99;
                    for (size_t i = 0; i < c.pos; i++)
                        h = mix(h, c.nodes[i].choice * 131071ULL +
                                       c.nodes[i].n);
                    mine = claim(c.claimSet.c_str(), h);
                }
                if (mine) {
                    if (r == 1)
                        pruned.v++;
                    else
                        runs.v++;
                    if (r == 2)
                        trunc.v++;
                    steps.v += c.pos;
                    if (r == 3) {
                        recordViolation(v.key,
                                        v.msg + (c.describe.empty()
                                                     ? ""
                                                     : "\nhistory: " +
                                                           c.describe),
                                        name, c.vectorText());
                        if (nbViolations() >= (uint64_t)o.maxViolations)
                            S->stop = 1;
                    }
                }
                if (S->stop)
                    return;
                if (deadline > 0 && (++iter & 15) == 0 && now() > deadline) {
                    S->stop = 2;
                    return;
                }
                if (!advance(c))
                    return;
            }
        }
    } // namespace

    bool explore(const std::string& name, const Scenario& sc,
                 const ExploreOptions& o)
    {
        if (!opt.replayFile.empty()) {
            std::ifstream f(opt.replayFile);
            std::string line, scen, vec;
            while (std::getline(f, line)) {
                if (line.rfind("scenario ", 0) == 0)
                    scen = line.substr(9);
                if (line.rfind("vector ", 0) == 0)
                    vec = line.substr(7);
            }
            if (scen != name)
                return true;
            Chooser c;
            c.replaying = true;
            c.maxDev = 1 << 30;
            std::istringstream is(vec);
            std::string tok;
            while (is >> tok) {
                Chooser::Node nd{0, 0, 0, 0};
                if (sscanf(tok.c_str(), "%d/%d/%d", &nd.choice, &nd.n,
                           &nd.def) == 3)
                    c.nodes.push_back(nd);
            }
            Violation v;
            int r = runOnce(sc, c, v);
            printf("replay of %s: %s\n%s\n%s\n", name.c_str(),
                   r == 3 ? "VIOLATION" : "no violation", v.key.c_str(),
                   v.msg.c_str());
            if (!c.describe.empty())
                printf("history: %s\n", c.describe.c_str());
            if (r == 3)
                recordViolation(v.key, v.msg, name, vec);
            return true;
        }
        if (S->stop == 1)
            return false;
        double start = now();
        double deadline = opt.budget > 0 ? t0 + opt.budget : 0;
        fflush(stdout);
        fflush(stderr);
        S->stop = 0;
        int W = opt.jobs;
        std::vector<pid_t> pid(W, 0);
        std::vector<double> lastChange(W, now());
        std::vector<uint64_t> lastRuns(W, 0);
        auto spawn = [&](int w, std::vector<Chooser::Node> st, bool crash) {
            S->w[w].done = 0;
            pid_t p = fork();
            if (p == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                workerLoop(name, sc, o, w, st, crash, deadline);
                S->w[w].done = 1;
                fflush(stdout);
                _exit(0);
            }
            pid[w] = p;
            lastChange[w] = now();
            lastRuns[w] = S->w[w].runs;
        };
        for (int w = 0; w < W; w++)
            spawn(w, {}, false);
        int alive = W;
        uint64_t crashes = 0;
        while (alive > 0) {
            int st;
            pid_t p = waitpid(-1, &st, WNOHANG);
            if (p > 0) {
                int w = -1;
                for (int i = 0; i < W; i++)
                    if (pid[i] == p)
                        w = i;
                if (w < 0)
                    continue;
                if (S->w[w].done) {
                    pid[w] = 0;
                    alive--;
                    continue;
                }
                // died: the current run crashed the code under test
                bool hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU;
                if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
                    fprintf(stderr, "worker killed (out of memory?)\n");
                    incomplete.push_back("a worker was killed in " + name);
                    pid[w] = 0;
                    alive--;
                    continue;
                }
                Chooser c;
                int n = S->w[w].npos;
                for (int i = 0; i < n; i++)
                    c.nodes.push_back({S->w[w].cur[3 * i],
                                       S->w[w].cur[3 * i + 1],
                                       S->w[w].cur[3 * i + 2], 0});
                for (auto& nd : c.nodes)
                    nd.cost = (nd.def >= 0 && nd.choice > 0);
                c.pos = n;
                std::string how =
                    hang ? std::string("did not terminate")
                         : WIFSIGNALED(st)
                               ? fmt("died with signal %d", WTERMSIG(st))
                               : fmt("aborted (exit status %d)",
                                     WEXITSTATUS(st));
                recordViolation(hang ? "hang" : "crash",
                                "the code under test " + how +
                                    "\nhistory: " + S->w[w].desc,
                                name, c.vectorText());
                crashes++;
                if (nbViolations() >= (uint64_t)o.maxViolations ||
                    crashes > 20)
                    S->stop = 1;
                if (S->stop) {
                    pid[w] = 0;
                    alive--;
                }
                else
                    spawn(w, c.nodes, true);
                continue;
            }
            for (int w = 0; w < W; w++) {
                if (!pid[w])
                    continue;
                uint64_t r = S->w[w].runs;
                if (r != lastRuns[w]) {
                    lastRuns[w] = r;
                    lastChange[w] = now();
                }
                else if (now() - lastChange[w] > o.hangSeconds) {
                    kill(pid[w], SIGXCPU);
                    lastChange[w] = now();
                }
                else if (deadline > 0 && now() > deadline + 30) {
                    S->stop = 2;
                    kill(pid[w], SIGKILL);
                }
            }
            usleep(2000);
        }
        bool complete = S->stop == 0;
        if (S->stop == 2)
            incomplete.push_back(name + ": time budget reached");
        uint64_t stop = S->stop;
        if (stop == 2)
            S->stop = 0;
        exploredJson[name] =
            fmt("{\"runs\": %llu, \"pruned\": %llu, \"truncated\": %llu, "
                "\"max_deviations\": %d, \"complete\": %s, \"wall_s\": %.1f}",
                (unsigned long long)counter(("runs:" + name).c_str()),
                (unsigned long long)counter(("pruned:" + name).c_str()),
                (unsigned long long)counter(("truncated:" + name).c_str()),
                o.maxDev, complete ? "true" : "false", now() - start);
        fprintf(stderr, "  %-28s %s\n", name.c_str(),
                exploredJson[name].c_str());
        return complete;
    }

    bool forEach(const std::string& name, int n,
                 const std::function<void(int)>& f)
    {
        ExploreOptions o;
        o.splitDepth = 1;
        return explore(
            name, [&](Chooser& c) {
                int i = c.pick(n + 1);
                if (i < n)
                    f(i);
            },
            o);
    }

    namespace {
        void writeResult()
        {
            FILE* f = fopen(opt.out.c_str(), "w");
            if (!f) {
                perror(opt.out.c_str());
                _exit(2);
            }
            fprintf(f, "{\n \"wall_s\": %.2f,\n \"counters\": {", now() - t0);
            bool first = true;
            uint64_t runs = 0;
            for (int i = 0; i < S->nctr; i++) {
                std::string n = S->ctr[i].name;
                if (n.rfind("runs:", 0) == 0)
                    runs += S->ctr[i].v;
                if (n.find(':') != std::string::npos)
                    continue;
                fprintf(f, "%s\n  \"%s\": %llu", first ? "" : ",",
                        jesc(n).c_str(), (unsigned long long)S->ctr[i].v);
                first = false;
            }
            fprintf(f, "\n },\n \"runs\": %llu,\n \"distinct\": {",
                    (unsigned long long)runs);
            first = true;
            for (int i = 0; i < S->nset; i++) {
                std::string n = S->set[i].name;
                if (n.rfind("claim:", 0) == 0)
                    continue;
                fprintf(f, "%s\n  \"%s\": %llu", first ? "" : ",",
                        jesc(n).c_str(), (unsigned long long)S->set[i].n);
                first = false;
            }
            fprintf(f, "\n },\n \"explorations\": {");
            first = true;
            for (auto& e : exploredJson) {
                fprintf(f, "%s\n  \"%s\": %s", first ? "" : ",",
                        jesc(e.first).c_str(), e.second.c_str());
                first = false;
            }
            fprintf(f, "\n },\n \"bounds\": {");
            first = true;
            for (auto& e : bounds) {
                fprintf(f, "%s\n  \"%s\": \"%s\"", first ? "" : ",",
                        jesc(e.first).c_str(), jesc(e.second).c_str());
                first = false;
            }
            fprintf(f, "\n },\n \"incomplete\": [");
            if (S->setOverflow)
                incomplete.push_back("state table full");
            for (size_t i = 0; i < incomplete.size(); i++)
                fprintf(f, "%s\"%s\"", i ? ", " : "",
                        jesc(incomplete[i]).c_str());
            fprintf(f, "],\n \"samples\": [");
            for (int i = 0; i < S->nsample; i++)
                fprintf(f, "%s\n  \"%s\"", i ? "," : "",
                        jesc(S->sample[i]).c_str());
            fprintf(f, "\n ],\n \"violations\": [");
            for (int i = 0; i < S->nviol; i++) {
                Viol& v = S->viol[i];
                std::string path =
                    opt.replayDir + fmt("/%s-%d.txt", opt.prop.c_str(), i);
                FILE* r = fopen(path.c_str(), "w");
                if (r) {
                    fprintf(r, "property %s\nscenario %s\nkey %s\nvector %s\n",
                            opt.prop.c_str(), v.scen, v.key, v.rep);
                    fprintf(r, "message %s\n", v.msg);
                    fclose(r);
                }
                fprintf(f,
                        "%s\n  {\"key\": \"%s\", \"known\": %s, \"count\": "
                        "%llu, \"scenario\": \"%s\", \"replay\": \"%s\", "
                        "\"msg\": \"%s\"}",
                        i ? "," : "", jesc(v.key).c_str(),
                        v.known ? "true" : "false", (unsigned long long)v.n,
                        jesc(v.scen).c_str(), jesc(path).c_str(),
                        jesc(v.msg).c_str());
            }
            fprintf(f, "\n ]\n}\n");
            fclose(f);
        }
    } // namespace
} // namespace vp

int main(int argc, char** argv)
{
    vp::init();
    auto& o = vp::opt;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--prop")
            o.prop = v;
        else if (a == "--tier")
            o.tier = v;
        else if (a == "--out")
            o.out = v;
        else if (a == "--replay")
            o.replayFile = v;
        else if (a == "--replay-dir")
            o.replayDir = v;
        else if (a == "--seed")
            o.seed = strtoull(v.c_str(), 0, 10);
        else if (a == "--jobs")
            o.jobs = atoi(v.c_str());
        else if (a == "--budget")
            o.budget = atof(v.c_str());
        else if (a == "--known")
            vp::knownKeys.insert(v);
    }
    if (o.jobs < 1)
        o.jobs = 1;
    if (o.jobs > vp::MAXW)
        o.jobs = vp::MAXW;
    if (o.out.empty())
        o.out = "/dev/null";
    vp_main();
    vp::writeResult();
    return vp::nbViolations() ? 1 : 0;
}
