// The random draws of the code under test become decisions of the explorer:
// the three drawing methods of the generator are replaced at link time.
#ifndef DRAWS_H
#define DRAWS_H
#include "gg.h"
#include "vp.h"

namespace draws {
    struct Policy
    {
        vp::Chooser* c = nullptr;
        bool bounded = false;      // deviations from a default, else free
        int programDraws = 1;      // 0: fixed pseudo-random, 1: explored
        int inProgram = 0;         // inside the initialisation/mutation of a program
        uint64_t n = 0;            // draws so far
        uint64_t doubles = 0;      // real draws so far (explored ones)
        uint64_t maxDoubles = 1000; // from then on a real draw is 0
        uint64_t maxExplored = 100000; // from then on: default answers
        uint64_t explored = 0;
        uint64_t limit = ~0ULL; // the run is abandoned after that many draws
        uint64_t salt = 0;
        std::vector<double> fractions; // real draws: these parts of the range
        double lastDouble = -1;
        // every draw, for messages
        std::string log;
        uint64_t hash()
        {
            return vp::mix(vp::mix(0x1234567 + salt, n), n * 77);
        }
        int choose(int k, int def);
    };
    extern Policy* pol;
    struct Scope
    {
        Policy p;
        Scope(vp::Chooser& c)
        {
            p.c = &c;
            pol = &p;
        }
        ~Scope()
        {
            pol = nullptr;
        }
    };
} // namespace draws
#endif
