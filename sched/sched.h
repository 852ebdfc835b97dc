// Controlled scheduler + happens-before race detector for the real code.
//
// The library and the harness are compiled with clang's -fsanitize=thread
// instrumentation but linked with this runtime instead of TSan's: every memory
// access, atomic, allocation and pthread call of the code under test comes
// here. Inside runBody() exactly one thread runs at a time and the thread which
// goes on after each synchronisation operation is a recorded decision.
#ifndef SCHED_H
#define SCHED_H
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sched {
    constexpr int MAXT = 16;
    constexpr int MAXSTEPS = 6000;
    constexpr int MAXTOUCH = 12;
    enum OpKind : uint8_t
    {
        NONE,
        START,
        LOCK,
        JOIN,
        ATOMIC,
        YIELD,
        COND,
        TIMED
    };
    struct Op
    {
        uint8_t kind;
        uint8_t rw; // ATOMIC: 1 when it writes
        uint16_t obj; // mutex / thread / atomic number
    };
    struct Step
    {
        uint8_t tid;      // thread which executed this step
        uint8_t cur;      // thread which ran before
        uint8_t nalt;     // alternatives, alts[0] is the default
        uint8_t alts[MAXT];
        uint8_t preempt;  // leaving alts[0] is a preemption
        uint8_t finished; // the thread ended in this step
        uint16_t created;  // mask of threads created in this step
        uint8_t ntouch;
        uint16_t touch[MAXTOUCH]; // synchronisation objects touched
        Op pending[MAXT]; // pending operation of every thread before the step
        uint16_t alive;    // mask
    };
    enum Status
    {
        OK,
        DEADLOCK,
        SLEEPSET,
        STEPLIMIT,
        CRASH,
        HANG,
        EXCEPTION,
        REPLAY_MISMATCH
    };
    struct Race
    {
        uint64_t pc1, pc2;
        uint8_t t1, t2, w1, w2, kind; // kind 0: race, 1: use after free
        uint64_t addr;
    };
    struct Record
    {
        int status;
        int signal;
        int nsteps;
        int nthreads; // created in total (with main)
        Step steps[MAXSTEPS];
        int nraces;
        Race races[8];
        uint64_t accesses; // instrumented accesses checked
        uint64_t syncs;
        int resultLen;
        char result[1 << 20];
        char info[4096];
        uint64_t objAddr[1024];
    };
    struct Config
    {
        bool atomicPoints = false; // 64-bit atomics are scheduling points
        bool useSleep = false;
        uint16_t sleep = 0; // sleep set at the last decision of the prefix
        int maxSteps = MAXSTEPS;
        int timeout = 30; // seconds
        bool reuse = false; // let malloc reuse freed blocks
        // code addresses of racing accesses: scheduling points too
        std::vector<uint64_t> racePcs;
    };
    using Body = std::function<std::string()>;
    // Forks, runs body in the child following prefix (thread ids), and then
    // the default policy. The record stays valid until the next call.
    Record& run(const Body& body, const std::vector<int>& prefix,
                const Config& cfg);
    std::string symbolize(uint64_t pc);
    // symbolized place of a race: "race:<function>|<function>"
    std::string raceKey(const Race& r);
    std::string raceText(const Race& r);
    std::string scheduleText(const Record& r);
    // Same execution without control, in a forked child: (used for the
    // sequential references). Returns the result or an "error:..." text.
    std::string runPlain(const Body& body);
    // Body may leave a text for the records
    bool dependent(const Step& a, const Step& b);
    bool opDependsOnStep(const Op& op, int tid, const Step& s);
    uint64_t traceDigest(const Record& r);
} // namespace sched
#endif
