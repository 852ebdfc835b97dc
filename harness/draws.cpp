#include "draws.h"
#include <mutator/programMutator.h>

namespace draws {
    Policy* pol = nullptr;
    int Policy::choose(int k, int def)
    {
        if (k == 1)
            return 0;
        if ((programDraws == 0 && inProgram) || explored >= maxExplored)
            return def;
        explored++;
        return bounded ? c->pickDev(k, def) : c->pick(k);
    }
} // namespace draws
using draws::pol;

extern "C" {
uint64_t __real__ZN7Mutator3RNG16getUnsignedInt64Emm(Mutator::RNG*, uint64_t,
                                                      uint64_t)
    __attribute__((weak));
int32_t __real__ZN7Mutator3RNG8getInt32Eii(Mutator::RNG*, int32_t, int32_t)
    __attribute__((weak));
double __real__ZN7Mutator3RNG9getDoubleEdd(Mutator::RNG*, double, double)
    __attribute__((weak));

uint64_t __wrap__ZN7Mutator3RNG16getUnsignedInt64Emm(Mutator::RNG* r,
                                                      uint64_t a, uint64_t b)
{
    if (!pol)
        return __real__ZN7Mutator3RNG16getUnsignedInt64Emm(r, a, b);
    if (pol->n++ > pol->limit)
        pol->c->truncate();
    vp::count("draws");
    if (a > b)
        vp::fail("empty-draw",
                 vp::fmt("an integer is drawn in the empty range [%llu,%llu]",
                         (unsigned long long)a, (unsigned long long)b));
    uint64_t w = b - a;
    if (a == 0 && b == UINT64_MAX) {
        // seeds; also what an underflowed range looks like
        return pol->hash();
    }
    if (w < 64) {
        int n = (int)w + 1;
        int k = pol->choose(n, (int)(pol->hash() % n));
        pol->log += vp::fmt("%llu/%d ", (unsigned long long)(a + k), n);
        return a + k;
    }
    uint64_t alt[] = {a, a + 1, a + w / 2, b - 1, b};
    return alt[pol->choose(5, (int)(pol->hash() % 5))];
}
int32_t __wrap__ZN7Mutator3RNG8getInt32Eii(Mutator::RNG* r, int32_t a, int32_t b)
{
    if (!pol)
        return __real__ZN7Mutator3RNG8getInt32Eii(r, a, b);
    if (pol->n++ > pol->limit)
        pol->c->truncate();
    vp::count("draws");
    if (a > b)
        vp::fail("empty-draw",
                 vp::fmt("an integer is drawn in the empty range [%d,%d]", a, b));
    int64_t w = (int64_t)b - a;
    if (w < 8)
        return a + pol->choose((int)w + 1, (int)(pol->hash() % (w + 1)));
    int32_t alt[] = {a, (int32_t)(a + w / 2), b};
    return alt[pol->choose(3, (int)(pol->hash() % 3))];
}
double __wrap__ZN7Mutator3RNG9getDoubleEdd(Mutator::RNG* r, double a, double b)
{
    if (!pol)
        return __real__ZN7Mutator3RNG9getDoubleEdd(r, a, b);
    if (pol->n++ > pol->limit)
        pol->c->truncate();
    vp::count("draws");
    if (pol->doubles >= pol->maxDoubles)
        return a;
    pol->doubles++;
    if (!pol->fractions.empty()) {
        int k = pol->choose((int)pol->fractions.size(), 0);
        return pol->lastDouble = a + (b - a) * pol->fractions[k];
    }
    int k = pol->choose(2, (int)(pol->hash() & 1));
    pol->log += k ? "hi " : "lo ";
    return k ? std::nextafter(b, a) : a;
}

// programs: only to know that a draw belongs to a program
void __real__ZN7Mutator14ProgramMutator17initRandomProgramERN7Program7ProgramERKNS_18MutationParametersERNS_3RNGE(
    Program::Program&, const Mutator::MutationParameters&, Mutator::RNG&)
    __attribute__((weak));
bool __real__ZN7Mutator14ProgramMutator13mutateProgramERN7Program7ProgramERKNS_18MutationParametersERNS_3RNGE(
    Program::Program&, const Mutator::MutationParameters&, Mutator::RNG&)
    __attribute__((weak));
void __wrap__ZN7Mutator14ProgramMutator17initRandomProgramERN7Program7ProgramERKNS_18MutationParametersERNS_3RNGE(
    Program::Program& p, const Mutator::MutationParameters& m, Mutator::RNG& r)
{
    if (pol)
        pol->inProgram++;
    struct Out
    {
        ~Out()
        {
            if (pol)
                pol->inProgram--;
        }
    } out;
    __real__ZN7Mutator14ProgramMutator17initRandomProgramERN7Program7ProgramERKNS_18MutationParametersERNS_3RNGE(
        p, m, r);
}
bool __wrap__ZN7Mutator14ProgramMutator13mutateProgramERN7Program7ProgramERKNS_18MutationParametersERNS_3RNGE(
    Program::Program& p, const Mutator::MutationParameters& m, Mutator::RNG& r)
{
    if (pol)
        pol->inProgram++;
    struct Out
    {
        ~Out()
        {
            if (pol)
                pol->inProgram--;
        }
    } out;
    return __real__ZN7Mutator14ProgramMutator13mutateProgramERN7Program7ProgramERKNS_18MutationParametersERNS_3RNGE(
        p, m, r);
}
}
