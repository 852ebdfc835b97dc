// Bounded-exhaustive explorer used by every sequential check.
//
// A scenario is an ordinary function that asks a Chooser for every
// nondeterministic decision (an input, the next operation of a history, the
// outcome of a random draw of the code under test...). explore() runs the
// scenario once for every possible vector of answers (depth first, stateless
// re-execution), possibly bounded by a number of deviations from a default
// answer and cut at states which were already visited.
#ifndef VP_H
#define VP_H
#include <cstdarg>
#include <cstdint>
#include <cstring>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace vp {
    struct Options
    {
        std::string prop, tier = "quick", out, replayFile, replayDir, known;
        uint64_t seed = 1;
        int jobs = 8;
        double budget = 0; // seconds; 0: none
        bool thorough() const
        {
            return tier == "thorough";
        }
    };
    extern Options opt;

    // ---- measured quantities (shared between the worker processes) ----
    void count(const char* name, uint64_t n = 1);
    uint64_t counter(const char* name);
    void maximum(const char* name, uint64_t v);
    // Adds a digest to a named set of distinct things. True if it was new.
    bool distinct(const char* set, uint64_t digest);
    uint64_t nbDistinct(const char* set);
    void sample(const std::string& text); // keeps the first few
    void bound(const std::string& name, const std::string& text);
    void notExhaustive(const std::string& why);
    // Claims digest in the named set: same as distinct (alias for readability)
    inline bool claim(const char* set, uint64_t d)
    {
        return distinct(set, d);
    }

    inline uint64_t mix(uint64_t h, uint64_t v)
    {
        h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdULL;
        h ^= h >> 33;
        return h;
    }
    uint64_t digest(const void* p, size_t n, uint64_t h = 1469598103934665603ULL);
    inline uint64_t digest(const std::string& s)
    {
        return digest(s.data(), s.size());
    }

    // ---- verdicts ----
    struct Violation
    {
        std::string key, msg;
    };
    struct Pruned
    {
        bool truncated;
    };
    // Reports a violation and abandons the current run. key names what fails
    // (it is what known_findings.txt refers to).
    [[noreturn]] void fail(const std::string& key, const std::string& msg);
    std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
    inline void check(bool ok, const char* key, const std::string& msg)
    {
        if (!ok)
            fail(key, msg);
    }
#define VP_CHECK(cond, key, ...)                                               \
    do {                                                                       \
        if (!(cond))                                                           \
            vp::fail(key, vp::fmt(__VA_ARGS__));                               \
    } while (0)

    // Records a violation found outside of explore() (replay: free text)
    void recordViolation(const std::string& key, const std::string& msg,
                         const std::string& scenario,
                         const std::string& replay);
    uint64_t nbViolations();
    bool isKnown(const std::string& key);

    class Chooser
    {
      public:
        struct Node
        {
            int choice; // index in enumeration order
            int n;
            int def;  // default answer; -1: free choice
            int cost; // cost of the current choice
        };
        // Free choice: every answer in [0,n) is explored.
        int pick(int n);
        // Bounded choice: def is free, any other answer costs one deviation.
        int pickDev(int n, int def);
        // Abandon this run: what follows was (or will be) explored elsewhere
        [[noreturn]] void prune();
        // Abandon this run because of a depth bound (counted as truncated)
        [[noreturn]] void truncate();
        // True when the last decision taken is new, that is when the current
        // state was not traversed by the previous run of this worker.
        bool fresh() const
        {
            return pos >= freshFrom;
        }
        // State-based pruning: abandons the run if this state (with at least
        // as many remaining steps) was already visited. To be called only
        // right after a pick.
        void visit(const char* set, uint64_t state, int remaining,
                   int maxRemaining);
        size_t nbPicks() const
        {
            return pos;
        }
        int deviations() const
        {
            return cost;
        }
        std::string vectorText() const;
        // A hash of decisions so far
        std::vector<Node> nodes;
        size_t pos = 0, freshFrom = 0;
        int cost = 0, maxDev = 0;
        size_t maxPicks = 100000;
        bool replaying = false;
        int splitDepth = 0;
        bool claimed = false;
        std::string claimSet;
        int worker = -1;
        std::string describe; // scenario may append a human readable history
      private:
        int next(int n, int def);
    };
    using Scenario = std::function<void(Chooser&)>;
    struct ExploreOptions
    {
        int maxDev = 0;        // deviations allowed for pickDev
        int splitDepth = 3;    // picks used to distribute work
        size_t maxPicks = 100000;
        double hangSeconds = 60; // one run longer than that: a hang
        int maxViolations = 6;
        bool crashIsViolation = true;
    };
    // Explores all the runs of a scenario. Returns true when complete.
    bool explore(const std::string& name, const Scenario& scenario,
                 const ExploreOptions& o = ExploreOptions());
    // Appends to the human readable description of the current run
    void describe(const std::string& s);
    // Runs f(i) for each i in [0,n) in a pool of forked processes; violations
    // are recorded as usual (scenario name, replay "i").
    bool forEach(const std::string& name, int n,
                 const std::function<void(int)>& f);
} // namespace vp

void vp_main(); // defined by each harness
#endif
