// Runtime: see sched.h. This file is never instrumented.
#include "sched.h"
#include <atomic>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" char __executable_start, etext;
extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);
extern "C" size_t malloc_usable_size(void*);
extern "C" char __libc_single_threaded;

using namespace sched;

namespace {
    bool active = false; // controlled mode (in the child only)
    Record* R = nullptr;
    Config cfg;
    const int* prefix = nullptr;
    int nprefix = 0;
    int liveThreads = 0;
    uint16_t sleepSet = 0;
    bool sleepOn = false;

    struct Clock
    {
        uint32_t c[MAXT];
    };
    void join(Clock& a, const Clock& b)
    {
        for (int i = 0; i < MAXT; i++)
            if (b.c[i] > a.c[i])
                a.c[i] = b.c[i];
    }
    struct Thread
    {
        bool used, finished, waitingCond, signalled;
        pthread_t real;
        Op pending;
        void* condAddr;
        std::atomic<int> sem;
        Clock vc, finalVc;
        void* (*fn)(void*);
        void* arg;
        bool detached;
    } T[MAXT];
    int nT = 0;
    thread_local int me = 0;

    struct SyncObj
    {
        uintptr_t addr;
        int owner; // -1: free
        int depth;
        Clock vc;
    };
    constexpr int MAXOBJ = 4096;
    SyncObj objs[MAXOBJ];
    int nobj = 0;
    constexpr int OHASH = 16384;
    uint16_t ohash[OHASH]; // index+1

    int objOf(void* a)
    {
        uintptr_t u = (uintptr_t)a;
        uint32_t h = (uint32_t)((u >> 2) * 2654435761u) & (OHASH - 1);
        while (ohash[h]) {
            if (objs[ohash[h] - 1].addr == u)
                return ohash[h] - 1;
            h = (h + 1) & (OHASH - 1);
        }
        if (nobj >= MAXOBJ) {
            // reuse the last one: only loses precision
            return MAXOBJ - 1;
        }
        objs[nobj].addr = u;
        if (R && nobj < 1024)
            R->objAddr[nobj] = u;
        objs[nobj].owner = -1;
        objs[nobj].depth = 0;
        memset(&objs[nobj].vc, 0, sizeof(Clock));
        ohash[h] = nobj + 1;
        return nobj++;
    }

    // ---------------------------------------------------------- shadow
    // Code addresses are kept relative to this program; the few outside it
    // (other libraries) by their number in a table.
    uint64_t farPc[256];
    int nfar = 0;
    int32_t packPc(uint64_t pc)
    {
        int64_t d = (int64_t)(pc - (uint64_t)(uintptr_t)&packPc);
        if (d > INT32_MIN / 2 && d < INT32_MAX)
            return (int32_t)d;
        for (int i = 0; i < nfar; i++)
            if (farPc[i] == pc)
                return INT32_MIN + i;
        if (nfar == 256)
            return INT32_MIN;
        farPc[nfar] = pc;
        return INT32_MIN + nfar++;
    }
    uint64_t unpackPc(int32_t d)
    {
        if (d < INT32_MIN / 2)
            return farPc[d - INT32_MIN];
        return (uint64_t)(uintptr_t)&packPc + (int64_t)d;
    }
    struct Cell
    {
        uint32_t wClk[MAXT], rClk[MAXT];
        uint8_t wMask[MAXT], rMask[MAXT];
        int32_t wPc[MAXT], rPc[MAXT]; // see packPc
        uint8_t freed;
        uint8_t freedBy;
        uint64_t freedPc;
    };
    // cells are grouped by 128 bytes of application memory; both levels keep
    // neighbours together, page faults dominate the cost of an execution
    constexpr size_t BCELL = 16;
    constexpr size_t NBLOCK = 1 << 16;
    constexpr size_t NENTRY = 1 << 17;
    struct Entry
    {
        uint64_t key; // block number + 1
        uint32_t idx;
    };
    Entry* entries = nullptr;
    Cell* cells = nullptr;
    size_t nblocks = 0;
    Cell* cell(uint64_t key, bool create)
    {
        uint64_t bk = key / BCELL;
        size_t h = ((((bk >> 4) * 0x9e3779b97f4a7c15ULL) >> 40) * 16 +
                    (bk & 15)) &
                   (NENTRY - 1);
        while (entries[h].key) {
            if (entries[h].key == bk + 1)
                return &cells[entries[h].idx * BCELL + key % BCELL];
            h = (h + 1) & (NENTRY - 1);
        }
        if (!create || nblocks >= NBLOCK)
            return nullptr;
        entries[h].key = bk + 1;
        entries[h].idx = (uint32_t)nblocks++;
        return &cells[entries[h].idx * BCELL + key % BCELL];
    }
    void clearShadow(uintptr_t a, size_t n)
    {
        if (!cells || !n)
            return;
        uintptr_t e = a + n;
        if (n > (1 << 20)) {
            // large: scan the table instead
            for (size_t i = 0; i < NENTRY; i++)
                if (entries[i].key)
                    for (size_t j = 0; j < BCELL; j++) {
                        uint64_t k = (entries[i].key - 1) * BCELL + j;
                        if ((k << 3) >= a && (k << 3) < e)
                            memset((void*)&cells[entries[i].idx * BCELL + j],
                                   0, sizeof(Cell));
                    }
            return;
        }
        for (uintptr_t k = a >> 3; k <= (e - 1) >> 3; k++) {
            Cell* c = cell(k, false);
            if (c)
                memset((void*)c, 0, sizeof(Cell));
        }
    }
    void report(uint8_t kind, uint64_t pc1, uint64_t pc2, int t1, int t2,
                int w1, int w2, uint64_t addr)
    {
        for (int i = 0; i < R->nraces; i++)
            if ((R->races[i].pc1 == pc1 && R->races[i].pc2 == pc2) ||
                (R->races[i].pc1 == pc2 && R->races[i].pc2 == pc1))
                return;
        if (R->nraces >= 8)
            return;
        Race& r = R->races[R->nraces++];
        r = {pc1, pc2, (uint8_t)t1, (uint8_t)t2, (uint8_t)w1, (uint8_t)w2,
             kind, addr};
    }
    const uint64_t* racePcs = nullptr;
    int nracePcs = 0;
    void racePoint();
    void access(void* p, size_t n, bool w, void* pc)
    {
        if (!active || n == 0)
            return;
        if (liveThreads <= 1 && !cells)
            return;
        R->accesses++;
        if (nracePcs && liveThreads > 1)
            for (int i = 0; i < nracePcs; i++)
                if (racePcs[i] == (uint64_t)pc) {
                    racePoint();
                    break;
                }
        uintptr_t a = (uintptr_t)p, e = a + n;
        Thread& t = T[me];
        uint32_t now = t.vc.c[me];
        for (uintptr_t k = a >> 3; k <= (e - 1) >> 3; k++) {
            uintptr_t lo = k << 3;
            uint8_t m = 0xff;
            if (a > lo)
                m &= 0xff << (a - lo);
            if (e < lo + 8)
                m &= 0xff >> (lo + 8 - e);
            Cell* c = cell(k, true);
            if (!c)
                return;
            if (c->freed & m) {
                report(1, c->freedPc, (uint64_t)pc, c->freedBy, me, 1, w, lo);
                continue;
            }
            for (int u = 0; u < nT; u++) {
                if (u == me)
                    continue;
                if ((c->wMask[u] & m) && c->wClk[u] > t.vc.c[u])
                    report(0, unpackPc(c->wPc[u]), (uint64_t)pc, u, me, 1, w, a);
                if (w && (c->rMask[u] & m) && c->rClk[u] > t.vc.c[u])
                    report(0, unpackPc(c->rPc[u]), (uint64_t)pc, u, me, 0, w, a);
            }
            if (w) {
                if (c->wClk[me] == now)
                    c->wMask[me] |= m;
                else {
                    c->wClk[me] = now;
                    c->wMask[me] = m;
                }
                c->wPc[me] = packPc((uint64_t)pc);
            }
            else {
                if (c->rClk[me] == now)
                    c->rMask[me] |= m;
                else {
                    c->rClk[me] = now;
                    c->rMask[me] = m;
                }
                c->rPc[me] = packPc((uint64_t)pc);
            }
        }
    }
    void markFreed(void* p, size_t n, void* pc)
    {
        if (!active || !cells || n == 0)
            return;
        // a free is a write as far as races are concerned
        access(p, n, true, pc);
        for (uintptr_t k = (uintptr_t)p >> 3;
             k <= ((uintptr_t)p + n - 1) >> 3; k++) {
            Cell* c = cell(k, true);
            if (c) {
                c->freed = 0xff;
                c->freedBy = me;
                c->freedPc = (uint64_t)pc;
            }
        }
    }

    // ---------------------------------------------------------- scheduler
    void semWait(Thread& t)
    {
        while (true) {
            int v = t.sem.load();
            if (v > 0) {
                t.sem--;
                return;
            }
            syscall(SYS_futex, (int*)&t.sem, FUTEX_WAIT, 0, nullptr, nullptr,
                    0);
        }
    }
    void semPost(Thread& t)
    {
        t.sem++;
        syscall(SYS_futex, (int*)&t.sem, FUTEX_WAKE, 1, nullptr, nullptr, 0);
    }
    [[noreturn]] void endChild(int status)
    {
        R->status = status;
        _exit(0);
    }
    void touch(int obj)
    {
        if (R->nsteps == 0)
            return;
        Step& s = R->steps[R->nsteps - 1];
        for (int i = 0; i < s.ntouch; i++)
            if (s.touch[i] == obj)
                return;
        if (s.ntouch < MAXTOUCH)
            s.touch[s.ntouch++] = (uint16_t)obj;
    }
    bool enabled(int t)
    {
        Thread& th = T[t];
        if (!th.used || th.finished)
            return false;
        if (th.waitingCond)
            return th.pending.kind == TIMED
                       ? (objs[th.pending.obj].owner < 0)
                       : false;
        switch (th.pending.kind) {
        case LOCK:
        case COND:
        case TIMED:
            return objs[th.pending.obj].owner < 0;
        case JOIN:
            return T[th.pending.obj].finished;
        default:
            return true;
        }
    }
    // Picks the next thread; the calling thread is at a scheduling point (its
    // pending operation is set) or has finished. Returns when it is its turn.
    void schedule(bool finishing, bool yielding)
    {
        if (sleepOn && R->nsteps > 0 && R->nsteps > nprefix - 1) {
            // the last step is complete: wake up the threads whose pending
            // operation depends on it
            const Step& s = R->steps[R->nsteps - 1];
            for (int t = 0; t < nT; t++)
                if ((sleepSet >> t & 1) &&
                    (t == s.tid || opDependsOnStep(T[t].pending, t, s)))
                    sleepSet &= ~(1 << t);
        }
        Step& s = R->steps[R->nsteps];
        if (R->nsteps + 1 >= cfg.maxSteps)
            endChild(STEPLIMIT);
        memset(&s, 0, sizeof s);
        s.cur = (uint8_t)me;
        bool curEnabled = !finishing && enabled(me);
        int n = 0;
        if (curEnabled && !yielding)
            s.alts[n++] = (uint8_t)me;
        for (int t = 0; t < nT; t++)
            if (t != me && enabled(t))
                s.alts[n++] = (uint8_t)t;
        if (curEnabled && yielding)
            s.alts[n++] = (uint8_t)me;
        s.nalt = (uint8_t)n;
        s.preempt = curEnabled && !yielding;
        for (int t = 0; t < nT; t++) {
            s.pending[t] = T[t].pending;
            if (T[t].used && !T[t].finished)
                s.alive |= 1 << t;
        }
        if (n == 0)
            endChild(DEADLOCK);
        int next;
        if (R->nsteps < nprefix) {
            next = prefix[R->nsteps];
            bool found = false;
            for (int i = 0; i < n; i++)
                found |= s.alts[i] == next;
            if (!found)
                endChild(REPLAY_MISMATCH);
        }
        else {
            next = -1;
            for (int i = 0; i < n && next < 0; i++)
                if (!sleepOn || !(sleepSet >> s.alts[i] & 1))
                    next = s.alts[i];
            if (next < 0)
                endChild(SLEEPSET);
        }
        s.tid = (uint8_t)next;
        R->nsteps++;
        if (sleepOn && R->nsteps == nprefix)
            sleepSet = cfg.sleep;
        if (next == me && !finishing)
            return;
        int self = me;
        semPost(T[next]);
        if (!finishing)
            semWait(T[self]);
    }
    void acquireObj(int o)
    {
        join(T[me].vc, objs[o].vc);
        touch(o);
    }
    void releaseObj(int o)
    {
        join(objs[o].vc, T[me].vc);
        T[me].vc.c[me]++;
        touch(o);
    }
    char raceObj;
    void racePoint()
    {
        int o = objOf(&raceObj);
        T[me].pending = {ATOMIC, 1, (uint16_t)o};
        schedule(false, false);
        touch(o);
    }
    bool fromExe(void* pc)
    {
        return (char*)pc >= &__executable_start && (char*)pc < &etext;
    }
    void lockMutex(void* m, bool point)
    {
        int o = objOf(m);
        R->syncs++;
        if (objs[o].owner == me) { // recursive mutexes
            objs[o].depth++;
            return;
        }
        T[me].pending = {LOCK, 1, (uint16_t)o};
        if (point && liveThreads > 1)
            schedule(false, false);
        else if (objs[o].owner >= 0)
            schedule(false, false);
        objs[o].owner = me;
        objs[o].depth = 1;
        acquireObj(o);
    }
    void unlockMutex(void* m)
    {
        int o = objOf(m);
        R->syncs++;
        if (objs[o].owner != me)
            return;
        if (--objs[o].depth > 0)
            return;
        objs[o].owner = -1;
        releaseObj(o);
    }
    // destructors of thread_local objects: run under control before the end of
    // the thread
    struct Dtor
    {
        void (*fn)(void*);
        void* obj;
    };
    thread_local Dtor dtors[256];
    thread_local int ndtors = 0;
    void* trampoline(void* a)
    {
        Thread& t = *(Thread*)a;
        me = (int)(&t - T);
        semWait(t);
        // the stack may have been used by a previous thread
        pthread_attr_t at;
        if (pthread_getattr_np(pthread_self(), &at) == 0) {
            void* sp;
            size_t sz;
            pthread_attr_getstack(&at, &sp, &sz);
            clearShadow((uintptr_t)sp, sz);
            pthread_attr_destroy(&at);
        }
        void* r = t.fn(t.arg);
        while (ndtors > 0) {
            ndtors--;
            dtors[ndtors].fn(dtors[ndtors].obj);
        }
        t.finished = true;
        t.finalVc = t.vc;
        liveThreads--;
        R->steps[R->nsteps - 1].finished = 1;
        schedule(true, false);
        return r;
    }
    template <class F> F real(const char* n)
    {
        return (F)dlsym(RTLD_NEXT, n);
    }
    void startShadow()
    {
        if (cells)
            return;
        auto get = [](size_t n) {
            return mmap(nullptr, n, PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        };
        entries = (Entry*)get(NENTRY * sizeof(Entry));
        cells = (Cell*)get(NBLOCK * BCELL * sizeof(Cell));
    }
} // namespace

// ================================================================ pthread
extern "C" {
int pthread_create(pthread_t* th, const pthread_attr_t* at,
                   void* (*fn)(void*), void* arg)
{
    static auto r = real<int (*)(pthread_t*, const pthread_attr_t*,
                                 void* (*)(void*), void*)>("pthread_create");
    if (!active)
        return r(th, at, fn, arg);
    if (nT >= MAXT) {
        fprintf(stderr, "sched: too many threads\n");
        abort();
    }
    startShadow();
    Thread& t = T[nT];
    memset((void*)&t, 0, sizeof t);
    t.used = true;
    t.fn = fn;
    t.arg = arg;
    t.pending = {START, 0, (uint16_t)nT};
    t.vc = T[me].vc;
    t.vc.c[nT] = 1;
    T[me].vc.c[me]++;
    if (R->nsteps > 0)
        R->steps[R->nsteps - 1].created |= 1 << nT;
    nT++;
    liveThreads++;
    R->nthreads = nT;
    int e = r(&t.real, at, trampoline, &t);
    *th = t.real;
    return e;
}
// only the threads of explored executions: the main one leaves by _exit
int __cxa_thread_atexit(void (*fn)(void*), void* obj, void*)
{
    if (active && me != 0 && ndtors < 256)
        dtors[ndtors++] = {fn, obj};
    return 0;
}
static int tidOf(pthread_t p)
{
    for (int i = 1; i < nT; i++)
        if (T[i].used && T[i].real == p)
            return i;
    return -1;
}
int pthread_join(pthread_t th, void** ret)
{
    static auto r = real<int (*)(pthread_t, void**)>("pthread_join");
    if (!active)
        return r(th, ret);
    int u = tidOf(th);
    if (u < 0)
        return ESRCH;
    T[me].pending = {JOIN, 0, (uint16_t)u};
    if (!T[u].finished || liveThreads > 1)
        schedule(false, false);
    join(T[me].vc, T[u].finalVc);
    int e = r(th, ret);
    T[u].used = false;
    return e;
}
int pthread_detach(pthread_t th)
{
    static auto r = real<int (*)(pthread_t)>("pthread_detach");
    return r(th);
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
    if (!active)
        return r(m);
    lockMutex(m, fromExe(__builtin_return_address(0)));
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
    if (!active)
        return r(m);
    int o = objOf(m);
    T[me].pending = {ATOMIC, 1, (uint16_t)o};
    if (liveThreads > 1)
        schedule(false, false);
    touch(o);
    if (objs[o].owner >= 0 && objs[o].owner != me)
        return EBUSY;
    objs[o].owner = me;
    objs[o].depth++;
    acquireObj(o);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
    if (!active)
        return r(m);
    unlockMutex(m);
    return 0;
}
// read-write locks are modelled as plain mutexes (fewer behaviours, hence no
// false alarm; sound for exclusive use)
int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock");
    if (!active)
        return r(m);
    lockMutex(m, true);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock");
    if (!active)
        return r(m);
    lockMutex(m, true);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock");
    if (!active)
        return r(m);
    unlockMutex(m);
    return 0;
}
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
{
    int o = objOf(m);
    unlockMutex(m);
    Thread& t = T[me];
    t.waitingCond = true;
    t.signalled = false;
    t.condAddr = c;
    t.pending = {(uint8_t)(timed ? TIMED : COND), 1, (uint16_t)o};
    schedule(false, false);
    bool timedOut = t.waitingCond;
    t.waitingCond = false;
    objs[o].owner = me;
    objs[o].depth = 1;
    acquireObj(o);
    acquireObj(objOf(c));
    return timedOut ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    static auto r =
        real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
    if (!active)
        return r(c, m);
    return condWait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m,
                           const struct timespec* ts)
{
    static auto r =
        real<int (*)(pthread_cond_t*, pthread_mutex_t*, const timespec*)>(
            "pthread_cond_timedwait");
    if (!active)
        return r(c, m, ts);
    return condWait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k,
                           const struct timespec* ts)
{
    static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t,
                                 const timespec*)>("pthread_cond_clockwait");
    if (!active)
        return r(c, m, k, ts);
    return condWait(c, m, true);
}
static int condWake(pthread_cond_t* c, bool all)
{
    releaseObj(objOf(c));
    for (int t = 0; t < nT; t++)
        if (T[t].used && T[t].waitingCond && T[t].condAddr == c) {
            T[t].waitingCond = false;
            if (!all)
                break;
        }
    return 0;
}
int pthread_cond_signal(pthread_cond_t* c)
{
    static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
    if (!active)
        return r(c);
    return condWake(c, false);
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
    if (!active)
        return r(c);
    return condWake(c, true);
}
int pthread_once(pthread_once_t* o, void (*f)(void))
{
    static auto r =
        real<int (*)(pthread_once_t*, void (*)(void))>("pthread_once");
    if (!active)
        return r(o, f);
    int e = r(o, f);
    int ob = objOf(o);
    join(T[me].vc, objs[ob].vc);
    join(objs[ob].vc, T[me].vc);
    T[me].vc.c[me]++;
    return e;
}
int sched_yield(void)
{
    if (!active) {
        syscall(SYS_sched_yield);
        return 0;
    }
    T[me].pending = {YIELD, 0, 0};
    if (liveThreads > 1)
        schedule(false, true);
    return 0;
}
int nanosleep(const struct timespec* a, struct timespec* b)
{
    static auto r =
        real<int (*)(const timespec*, timespec*)>("nanosleep");
    if (!active)
        return r(a, b);
    return sched_yield();
}
int clock_nanosleep(clockid_t k, int fl, const struct timespec* a,
                    struct timespec* b)
{
    static auto r = real<int (*)(clockid_t, int, const timespec*, timespec*)>(
        "clock_nanosleep");
    if (!active)
        return r(k, fl, a, b);
    return sched_yield();
}
int usleep(useconds_t u)
{
    static auto r = real<int (*)(useconds_t)>("usleep");
    if (!active)
        return r(u);
    return sched_yield();
}
// function-local statics
int __cxa_guard_acquire(uint64_t* g)
{
    unsigned char* b = (unsigned char*)g;
    if (b[0]) {
        if (active)
            join(T[me].vc, objs[objOf(g)].vc);
        return 0;
    }
    while (b[1]) {
        if (!active)
            abort();
        T[me].pending = {YIELD, 0, 0};
        schedule(false, true);
        if (b[0]) {
            join(T[me].vc, objs[objOf(g)].vc);
            return 0;
        }
    }
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(uint64_t* g)
{
    unsigned char* b = (unsigned char*)g;
    b[0] = 1;
    b[1] = 0;
    if (active) {
        int o = objOf(g);
        join(objs[o].vc, T[me].vc);
        T[me].vc.c[me]++;
    }
}
void __cxa_guard_abort(uint64_t* g)
{
    ((unsigned char*)g)[1] = 0;
}

// ================================================================ malloc
void* malloc(size_t n)
{
    void* p = __libc_malloc(n);
    if (active && cells && p)
        clearShadow((uintptr_t)p, malloc_usable_size(p));
    return p;
}
void* calloc(size_t a, size_t b)
{
    void* p = __libc_calloc(a, b);
    if (active && cells && p)
        clearShadow((uintptr_t)p, malloc_usable_size(p));
    return p;
}
void free(void* p)
{
    if (!p)
        return;
    if (active && !cfg.reuse) {
        // freed blocks are never reused inside an explored execution, so that
        // no behaviour depends on the allocator and accesses after the free
        // are seen
        if (cells)
            markFreed(p, malloc_usable_size(p), __builtin_return_address(0));
        return;
    }
    __libc_free(p);
}
void* realloc(void* p, size_t n)
{
    if (active && p && !cfg.reuse) {
        void* q = malloc(n);
        size_t o = malloc_usable_size(p);
        memcpy(q, p, o < n ? o : n);
        free(p);
        return q;
    }
    return __libc_realloc(p, n);
}
void* memalign(size_t a, size_t n)
{
    return __libc_memalign(a, n);
}
void* aligned_alloc(size_t a, size_t n)
{
    return __libc_memalign(a, n);
}
int posix_memalign(void** p, size_t a, size_t n)
{
    *p = __libc_memalign(a, n);
    return *p ? 0 : ENOMEM;
}
} // extern "C"
// operator new / delete come through here to get meaningful call sites
void* operator new(size_t n)
{
    void* p = malloc(n ? n : 1);
    if (!p)
        abort();
    return p;
}
void* operator new[](size_t n)
{
    void* p = malloc(n ? n : 1);
    if (!p)
        abort();
    return p;
}
#define DEL                                                                    \
    if (p) {                                                                   \
        if (active && !cfg.reuse) {                                            \
            if (cells)                                                         \
                markFreed(p, malloc_usable_size(p),                            \
                          __builtin_return_address(0));                        \
        }                                                                      \
        else                                                                   \
            __libc_free(p);                                                    \
    }
void operator delete(void* p) noexcept
{
    DEL
}
void operator delete[](void* p) noexcept
{
    DEL
}
void operator delete(void* p, size_t) noexcept
{
    DEL
}
void operator delete[](void* p, size_t) noexcept
{
    DEL
}

// ================================================================ tsan ABI
extern "C" {
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n)                                                                  \
    void __tsan_read##n(void* p)                                               \
    {                                                                          \
        access(p, n, false, PC);                                               \
    }                                                                          \
    void __tsan_write##n(void* p)                                              \
    {                                                                          \
        access(p, n, true, PC);                                                \
    }                                                                          \
    void __tsan_unaligned_read##n(void* p)                                     \
    {                                                                          \
        access(p, n, false, PC);                                               \
    }                                                                          \
    void __tsan_unaligned_write##n(void* p)                                    \
    {                                                                          \
        access(p, n, true, PC);                                                \
    }                                                                          \
    void __tsan_read_write##n(void* p)                                         \
    {                                                                          \
        access(p, n, false, PC);                                               \
        access(p, n, true, PC);                                                \
    }                                                                          \
    void __tsan_unaligned_read_write##n(void* p)                               \
    {                                                                          \
        access(p, n, false, PC);                                               \
        access(p, n, true, PC);                                                \
    }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void* p, size_t n)
{
    access(p, n, false, PC);
}
void __tsan_write_range(void* p, size_t n)
{
    access(p, n, true, PC);
}
void __tsan_vptr_update(void** p, void* v)
{
    if (*p != v)
        access(p, 8, true, PC);
}
void __tsan_vptr_read(void** p)
{
    access(p, 8, false, PC);
}
void* __tsan_memcpy(void* d, const void* s, size_t n)
{
    access((void*)s, n, false, PC);
    access(d, n, true, PC);
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n)
{
    access((void*)s, n, false, PC);
    access(d, n, true, PC);
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int v, size_t n)
{
    access(d, n, true, PC);
    return memset(d, v, n);
}
static void atomicPoint(volatile void* a, int rw, int bytes, int mo, void* pc)
{
    if (!active)
        return;
    if (liveThreads <= 1 && !cells)
        return;
    int o = objOf((void*)a);
    if (cfg.atomicPoints && bytes == 8 && liveThreads > 1) {
        T[me].pending = {ATOMIC, (uint8_t)rw, (uint16_t)o};
        schedule(false, false);
        touch(o);
    }
    R->syncs++;
    // memory orders: relaxed operations create no happens-before
    bool acq = mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME ||
               mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
    bool rel = mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL ||
               mo == __ATOMIC_SEQ_CST;
    if (acq)
        join(T[me].vc, objs[o].vc);
    if (rel && rw) {
        join(objs[o].vc, T[me].vc);
        T[me].vc.c[me]++;
    }
    // an atomic access only races with plain ones
    Cell* c = cells ? cell((uintptr_t)a >> 3, false) : nullptr;
    if (c) {
        uint8_t m = (uint8_t)(((1u << bytes) - 1) << ((uintptr_t)a & 7));
        if (bytes == 8)
            m = 0xff;
        if (c->freed & m)
            report(1, c->freedPc, (uint64_t)pc, c->freedBy, me, 1, rw,
                   (uintptr_t)a);
        for (int u = 0; u < nT; u++) {
            if (u == me)
                continue;
            if ((c->wMask[u] & m) && c->wClk[u] > T[me].vc.c[u])
                report(0, unpackPc(c->wPc[u]), (uint64_t)pc, u, me, 1, rw,
                       (uintptr_t)a);
            if (rw && (c->rMask[u] & m) && c->rClk[u] > T[me].vc.c[u])
                report(0, unpackPc(c->rPc[u]), (uint64_t)pc, u, me, 0, rw,
                       (uintptr_t)a);
        }
    }
}
#define AT(bits, type)                                                         \
    type __tsan_atomic##bits##_load(const volatile type* a, int mo)            \
    {                                                                          \
        atomicPoint((volatile void*)a, 0, bits / 8, mo, PC);                   \
        return *a;                                                             \
    }                                                                          \
    void __tsan_atomic##bits##_store(volatile type* a, type v, int mo)         \
    {                                                                          \
        atomicPoint(a, 1, bits / 8, mo, PC);                                   \
        *a = v;                                                                \
    }                                                                          \
    type __tsan_atomic##bits##_exchange(volatile type* a, type v, int mo)      \
    {                                                                          \
        atomicPoint(a, 1, bits / 8, mo, PC);                                   \
        type o = *a;                                                           \
        *a = v;                                                                \
        return o;                                                              \
    }                                                                          \
    type __tsan_atomic##bits##_fetch_add(volatile type* a, type v, int mo)     \
    {                                                                          \
        atomicPoint(a, 1, bits / 8, mo, PC);                                   \
        type o = *a;                                                           \
        *a = o + v;                                                            \
        return o;                                                              \
    }                                                                          \
    type __tsan_atomic##bits##_fetch_sub(volatile type* a, type v, int mo)     \
    {                                                                          \
        atomicPoint(a, 1, bits / 8, mo, PC);                                   \
        type o = *a;                                                           \
        *a = o - v;                                                            \
        return o;                                                              \
    }                                                                          \
    type __tsan_atomic##bits##_fetch_and(volatile type* a, type v, int mo)     \
    {                                                                          \
        atomicPoint(a, 1, bits / 8, mo, PC);                                   \
        type o = *a;                                                           \
        *a = o & v;                                                            \
        return o;                                                              \
    }                                                                          \
    type __tsan_atomic##bits##_fetch_or(volatile type* a, type v, int mo)      \
    {                                                                          \
        atomicPoint(a, 1, bits / 8, mo, PC);                                   \
        type o = *a;                                                           \
        *a = o | v;                                                            \
        return o;                                                              \
    }                                                                          \
    type __tsan_atomic##bits##_fetch_xor(volatile type* a, type v, int mo)     \
    {                                                                          \
        atomicPoint(a, 1, bits / 8, mo, PC);                                   \
        type o = *a;                                                           \
        *a = o ^ v;                                                            \
        return o;                                                              \
    }                                                                          \
    int __tsan_atomic##bits##_compare_exchange_strong(                         \
        volatile type* a, type* c, type v, int mo, int fmo)                    \
    {                                                                          \
        atomicPoint(a, 1, bits / 8, mo, PC);                                   \
        if (*a == *c) {                                                        \
            *a = v;                                                            \
            return 1;                                                          \
        }                                                                      \
        *c = *a;                                                               \
        return 0;                                                              \
    }                                                                          \
    int __tsan_atomic##bits##_compare_exchange_weak(                           \
        volatile type* a, type* c, type v, int mo, int fmo)                    \
    {                                                                          \
        atomicPoint(a, 1, bits / 8, mo, PC);                                   \
        if (*a == *c) {                                                        \
            *a = v;                                                            \
            return 1;                                                          \
        }                                                                      \
        *c = *a;                                                               \
        return 0;                                                              \
    }                                                                          \
    type __tsan_atomic##bits##_compare_exchange_val(volatile type* a, type c,  \
                                                    type v, int mo, int fmo)   \
    {                                                                          \
        atomicPoint(a, 1, bits / 8, mo, PC);                                   \
        type o = *a;                                                           \
        if (o == c)                                                            \
            *a = v;                                                            \
        return o;                                                              \
    }
AT(8, uint8_t)
AT(16, uint16_t)
AT(32, uint32_t)
AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

// ================================================================ driver
namespace sched {
    static Record* shared()
    {
        static Record* r = nullptr;
        static pid_t owner = 0;
        if (!r || owner != getpid()) {
            r = (Record*)mmap(nullptr, sizeof(Record), PROT_READ | PROT_WRITE,
                              MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1,
                              0);
            owner = getpid();
        }
        return r;
    }
    Record& run(const Body& body, const std::vector<int>& pfx,
                const Config& c)
    {
        Record* r = shared();
        r->status = CRASH;
        r->nsteps = 0;
        r->nraces = 0;
        r->nthreads = 1;
        r->resultLen = 0;
        r->accesses = r->syncs = 0;
        r->info[0] = 0;
        r->signal = 0;
        fflush(stdout);
        fflush(stderr);
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL})
                signal(s, SIG_DFL);
            alarm(c.timeout);
            R = r;
            cfg = c;
            prefix = pfx.data();
            nprefix = (int)pfx.size();
            racePcs = c.racePcs.data();
            nracePcs = (int)c.racePcs.size();
            sleepOn = c.useSleep;
            sleepSet = 0;
            nT = 1;
            liveThreads = 1;
            memset((void*)&T[0], 0, sizeof(Thread));
            T[0].used = true;
            T[0].vc.c[0] = 1;
            me = 0;
            __libc_single_threaded = 0;
            int st = OK;
            std::string res;
            active = true;
            try {
                res = body();
            }
            catch (std::exception& e) {
                st = EXCEPTION;
                active = false;
                res = e.what();
            }
            active = false;
            if (res.size() >= sizeof r->result)
                res.resize(sizeof r->result - 1);
            memcpy(r->result, res.data(), res.size());
            r->resultLen = (int)res.size();
            r->status = st;
            _exit(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        if (WIFSIGNALED(st)) {
            r->signal = WTERMSIG(st);
            r->status = r->signal == SIGALRM ? HANG : CRASH;
        }
        return *r;
    }
    std::string runPlain(const Body& body)
    {
        // a controlled run in which no decision is offered to anybody: used
        // for single-threaded references
        Record& r = run(body, {}, Config());
        if (r.status != OK)
            return "error: status " + std::to_string(r.status) + " signal " +
                   std::to_string(r.signal) + " " +
                   std::string(r.result, r.resultLen);
        return std::string(r.result, r.resultLen);
    }
    std::string symbolize(uint64_t pc)
    {
        char exe[512];
        ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
        exe[n > 0 ? n : 0] = 0;
        char cmd[1024];
        snprintf(cmd, sizeof cmd,
                 "addr2line -e '%s' -f -C -i 0x%llx 2>/dev/null", exe,
                 (unsigned long long)pc - 1);
        FILE* f = popen(cmd, "r");
        if (!f)
            return "?";
        // function / file:line pairs, innermost first: keep the first one in
        // gegelati
        char fn[2000], loc[2000];
        std::string best;
        while (fgets(fn, sizeof fn, f) && fgets(loc, sizeof loc, f)) {
            std::string s = fn, l = loc;
            s = s.substr(0, s.find('\n'));
            l = l.substr(0, l.find('\n'));
            if (best.empty() || l.find("gegelati") != std::string::npos ||
                l.find("/harness/") != std::string::npos) {
                best = s.substr(0, s.find('(')) + " " +
                       l.substr(l.rfind('/') == std::string::npos
                                    ? 0
                                    : l.rfind('/') + 1);
                if (l.find("gegelati") != std::string::npos)
                    break;
            }
        }
        pclose(f);
        return best;
    }
    std::string raceKey(const Race& r)
    {
        std::string a = symbolize(r.pc1), b = symbolize(r.pc2);
        a = a.substr(0, a.rfind(' '));
        b = b.substr(0, b.rfind(' '));
        if (b < a)
            std::swap(a, b);
        std::string k = (r.kind ? "use-after-free:" : "race:") + a + "|" + b;
        for (auto& ch : k)
            if (ch == ' ')
                ch = '_';
        return k.substr(0, 200);
    }
    std::string raceText(const Race& r)
    {
        return std::string(r.kind ? "use after free: freed" : "data race:") +
               (r.w1 ? " write" : " read") + " by thread " +
               std::to_string(r.t1) + " in " + symbolize(r.pc1) + " and" +
               (r.w2 ? " write" : " read") + " by thread " +
               std::to_string(r.t2) + " in " + symbolize(r.pc2);
    }
    std::string scheduleText(const Record& r)
    {
        static const char* k[] = {"-",      "start", "lock", "join",
                                  "atomic", "yield", "wait", "timedwait"};
        std::string s;
        for (int i = 0; i < r.nsteps && i < 300; i++) {
            const Step& st = r.steps[i];
            s += "T" + std::to_string(st.tid) + ":" +
                 k[st.pending[st.tid].kind] +
                 std::to_string(st.pending[st.tid].obj) + " ";
        }
        return s;
    }
    bool opDependsOnStep(const Op& op, int tid, const Step& s)
    {
        if (s.tid == tid)
            return true;
        switch (op.kind) {
        case LOCK:
        case COND:
        case TIMED:
        case ATOMIC:
            for (int i = 0; i < s.ntouch; i++)
                if (s.touch[i] == op.obj) {
                    if (op.kind == ATOMIC && !op.rw &&
                        s.pending[s.tid].kind == ATOMIC &&
                        s.pending[s.tid].obj == op.obj &&
                        !s.pending[s.tid].rw && s.ntouch == 1)
                        return false; // two reads
                    return true;
                }
            return false;
        case JOIN:
            return s.finished && s.tid == op.obj;
        case YIELD:
            return true;
        case START:
            return (s.created >> op.obj) & 1;
        default:
            return false;
        }
    }
    bool dependent(const Step& a, const Step& b)
    {
        if (a.tid == b.tid)
            return true;
        if (opDependsOnStep(b.pending[b.tid], b.tid, a) ||
            opDependsOnStep(a.pending[a.tid], a.tid, b))
            return true;
        for (int i = 0; i < a.ntouch; i++)
            for (int j = 0; j < b.ntouch; j++)
                if (a.touch[i] == b.touch[j])
                    return true;
        return false;
    }
    // Digest of the Mazurkiewicz trace: per thread and per object orders
    uint64_t traceDigest(const Record& r)
    {
        uint64_t perObj[1024];
        uint64_t h = 0;
        memset(perObj, 0, sizeof perObj);
        uint32_t nth[MAXT] = {0};
        for (int i = 0; i < r.nsteps; i++) {
            const Step& s = r.steps[i];
            nth[s.tid]++;
            for (int j = 0; j < s.ntouch; j++) {
                uint64_t& o = perObj[s.touch[j] & 1023];
                o = (o ^ (s.tid * 1000003ULL + nth[s.tid])) *
                    0x9e3779b97f4a7c15ULL;
                o ^= o >> 29;
            }
        }
        for (int i = 0; i < 1024; i++) {
            if (!perObj[i])
                continue;
            uint64_t x = (perObj[i] + r.objAddr[i]) * 0xff51afd7ed558ccdULL;
            h += x ^ (x >> 31);
        }
        return h;
    }
} // namespace sched
