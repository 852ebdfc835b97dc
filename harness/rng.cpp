// C26: random draws.
#include "gg.h"
#include "vp.h"
#include <mutator/deterministicRandom.h>
#include <mutator/rng.h>
#include <sstream>
using vp::Chooser;
using vp::fmt;

namespace {
    // ---- the distribution over a small generator: every output of the
    // generator, every range
    struct Exhausted
    {
    };
    template <class U> struct Tiny
    {
        using result_type = U;
        U value = 0;
        bool used = false;
        static constexpr U min()
        {
            return 0;
        }
        static constexpr U max()
        {
            return (U)-1;
        }
        U operator()()
        {
            if (used)
                throw Exhausted();
            used = true;
            return value;
        }
    };
    template <class T, class U> void range(T lo, T hi)
    {
        const uint64_t total = (uint64_t)(U)-1 + 1;
        uint64_t n = (uint64_t)((int64_t)hi - (int64_t)lo) + 1;
        std::vector<uint32_t> hits(n);
        uint64_t rejected = 0;
        Mutator::uniform_int_distribution<T> d(lo, hi);
        for (uint64_t x = 0; x < total; x++) {
            Tiny<U> e;
            e.value = (U)x;
            try {
                T r = d(e);
                if (r < lo || r > hi)
                    vp::fail("draw-bounds",
                             fmt("%lld drawn in [%lld,%lld]", (long long)r,
                                 (long long)lo, (long long)hi));
                hits[(int64_t)r - (int64_t)lo]++;
            }
            catch (Exhausted&) {
                rejected++;
            }
        }
        for (uint64_t k = 0; k < n; k++)
            if (hits[k] != hits[0])
                vp::fail("draw-bias",
                         fmt("in [%lld,%lld], %lld is drawn for %u outputs of "
                             "the generator and %lld for %u",
                             (long long)lo, (long long)hi,
                             (long long)lo, hits[0],
                             (long long)lo + (long long)k, hits[k]));
        VP_CHECK(hits[0] > 0, "draw-unreachable",
                 "[%lld,%lld]: nothing is drawn", (long long)lo, (long long)hi);
        VP_CHECK(rejected < n, "draw-waste", "[%lld,%lld]: %d outputs rejected",
                 (long long)lo, (long long)hi, (int)rejected);
        vp::count("generator_outputs", total);
        vp::distinct("ranges", vp::mix(vp::mix((uint64_t)lo, (uint64_t)hi),
                                       sizeof(U) * 2 + std::is_signed<T>::value));
    }
    void tiny()
    {
        vp::explore("bytes", [](Chooser& c) {
            bool sign = c.pick(2);
            int lo = c.pick(256);
            for (int hi = lo; hi < 256; hi++) {
                if (sign)
                    range<int8_t, uint8_t>((int8_t)(lo - 128), (int8_t)(hi - 128));
                else
                    range<uint8_t, uint8_t>((uint8_t)lo, (uint8_t)hi);
            }
        }, {.splitDepth = 2});
        vp::bound("8-bit generator", "every range of signed and unsigned bytes, every output of the generator");
        int w = vp::opt.thorough() ? 4000 : 200;
        vp::explore("words", [&](Chooser& c) {
            bool sign = c.pick(2);
            int k = c.pick(2 * w);
            int n = k < w ? k + 1 : 65536 - (k - w);
            for (int at : {0, (65536 - n) / 2, 65536 - n}) {
                if (sign)
                    range<int16_t, uint16_t>((int16_t)(at - 32768), (int16_t)(at + n - 1 - 32768));
                else
                    range<uint16_t, uint16_t>((uint16_t)at, (uint16_t)(at + n - 1));
                if (n == 65536)
                    break;
            }
        }, {.splitDepth = 2});
        vp::bound("16-bit generator", fmt("the %d smallest and largest ranges, every output", w));
    }

    // ---- the generator of the library, on chosen outputs of its engine
    uint64_t untemper(uint64_t y)
    {
        y ^= y >> 43;
        uint64_t t = y;
        t = y ^ ((t << 37) & 0xfff7eee000000000ULL);
        y = t;
        t = y;
        for (int i = 0; i < 4; i++)
            t = y ^ ((t << 17) & 0x71d67fffeda60000ULL);
        y = t;
        t = y;
        for (int i = 0; i < 3; i++)
            t = y ^ ((t >> 29) & 0x5555555555555555ULL);
        return t;
    }
    struct Forced : public Mutator::RNG
    {
        Forced(uint64_t s = 0) : RNG(s)
        {
        }
        void force(const std::vector<uint64_t>& outputs)
        {
            std::stringstream s;
            for (size_t i = 0; i < 312; i++)
                s << (i < outputs.size() ? untemper(outputs[i]) : 0) << " ";
            s << 0;
            s >> *engine;
        }
        uint64_t raw()
        {
            return (*engine)();
        }
    };
    // what is drawn in n = hi-lo+1 values from an output (false: rejected)
    bool reference(uint64_t x, uint64_t n, uint64_t& r)
    {
        if (n == 0) {
            r = x;
            return true;
        }
        unsigned __int128 total = (unsigned __int128)1 << 64;
        if ((unsigned __int128)(x / n + 1) * n > total)
            return false;
        r = x % n;
        return true;
    }
    double canonical(uint64_t x)
    {
        double d = (double)x / 18446744073709551616.0;
        return d >= 1.0 ? std::nextafter(1.0, 0.0) : d;
    }
    const std::vector<std::pair<uint64_t, uint64_t>> R64{
        {0, 0}, {0, 1}, {0, 2}, {3, 9}, {7, 7}, {0, 15}, {1, 1000003},
        {0, UINT64_MAX}, {1, UINT64_MAX}, {0, UINT64_MAX - 1},
        {UINT64_MAX - 2, UINT64_MAX}, {0, 1ULL << 63}, {0, (1ULL << 63) - 1},
        {5, (1ULL << 32) + 5}, {0, 0xfffffffeULL}};
    const std::vector<std::pair<int32_t, int32_t>> R32{
        {0, 0}, {0, 1}, {-1, 1}, {-10, 10}, {-100, -97}, {5, 12},
        {INT32_MIN, INT32_MAX}, {INT32_MIN, 0}, {0, INT32_MAX}, {-1, INT32_MAX},
        {INT32_MIN, INT32_MIN + 2}, {INT32_MAX - 1, INT32_MAX}};
    const std::vector<std::pair<double, double>> RD{
        {0, 1}, {-1, 1}, {2, 2}, {-5, -4}, {0, 1e300}, {1e10, 1e10 + 1}, {0, 0.25}};

    void engine()
    {
        vp::explore("outputs", [](Chooser& c) {
            Forced f;
            auto outs = [&](uint64_t n) {
                // around the limits of the mapping
                std::vector<uint64_t> v{0, 1, 2, UINT64_MAX, UINT64_MAX - 1,
                                        1ULL << 63, (1ULL << 63) - 1, 0xffffffffULL,
                                        0x123456789abcdefULL};
                if (n) {
                    uint64_t last = n * (uint64_t)((((unsigned __int128)1) << 64) / n);
                    for (uint64_t d : {-2, -1, 0, 1, 2})
                        for (uint64_t x : {last + d, n + d, n * 2 + d})
                            v.push_back(x);
                }
                return v;
            };
            int kind = c.pick(3);
            if (kind < 2) {
                uint64_t lo, hi;
                int64_t slo = 0;
                if (kind == 0) {
                    auto& r = R64[c.pick((int)R64.size())];
                    lo = r.first, hi = r.second;
                }
                else {
                    auto& r = R32[c.pick((int)R32.size())];
                    slo = r.first;
                    lo = 0, hi = (uint64_t)((int64_t)r.second - r.first);
                }
                uint64_t n = hi - lo + 1;
                auto v = outs(n);
                uint64_t x = v[c.pick((int)v.size())], y = v[c.pick((int)v.size())];
                std::vector<uint64_t> o{x, y, 0};
                f.force(o);
                VP_CHECK(f.raw() == x && f.raw() == y, "harness", "cannot force the engine");
                f.force(o);
                uint64_t want = 0;
                size_t used = 0;
                while (!reference(o[used++], n, want))
                    ;
                if (kind == 0) {
                    uint64_t g = f.getUnsignedInt64(lo, hi);
                    VP_CHECK(g >= lo && g <= hi, "draw-bounds", "%llu drawn in [%llu,%llu]",
                             (unsigned long long)g, (unsigned long long)lo, (unsigned long long)hi);
                    VP_CHECK(g == lo + want, "draw-mapping",
                             "%llu drawn in [%llu,%llu] instead of %llu", (unsigned long long)g,
                             (unsigned long long)lo, (unsigned long long)hi, (unsigned long long)(lo + want));
                }
                else {
                    int64_t g = f.getInt32((int32_t)slo, (int32_t)(slo + (int64_t)hi));
                    // the full range takes the low bits
                    int64_t w = hi == 0xffffffffULL ? slo + (int64_t)(x & 0xffffffffULL) : slo + (int64_t)want;
                    if (hi == 0xffffffffULL)
                        used = 1;
                    VP_CHECK(g == w, "draw-mapping", "%lld drawn in [%lld,%lld] instead of %lld",
                             (long long)g, (long long)slo, (long long)(slo + (int64_t)hi), (long long)w);
                }
                if (n == 1)
                    used = 0; // nothing to draw
                // and no more than needed of the engine
                uint64_t next = f.raw();
                VP_CHECK(used >= 3 || next == o[used], "draw-consumption",
                         "a draw does not use the expected number of outputs");
            }
            else {
                auto& r = RD[c.pick((int)RD.size())];
                auto v = outs(0);
                v.push_back(UINT64_MAX - 511), v.push_back(UINT64_MAX - 1024), v.push_back(UINT64_MAX - 2048);
                uint64_t x = v[c.pick((int)v.size())];
                f.force({x, 77});
                double g = f.getDouble(r.first, r.second);
                double want = canonical(x) * (r.second - r.first) + r.first;
                VP_CHECK(g == want && g >= r.first && g <= r.second, "draw-real",
                         "%.17g drawn in [%g,%g[ instead of %.17g", g, r.first, r.second, want);
                if (r.first == 0 && r.second == 1)
                    VP_CHECK(g < 1.0, "draw-real", "1 drawn in [0,1[");
                VP_CHECK(f.raw() == 77, "draw-consumption", "a real draw uses several outputs");
            }
            vp::count("draws");
        }, {.splitDepth = 2});
        vp::bound("64-bit generator", "15 unsigned, 12 signed and 7 real ranges; outputs of the engine at all the limits of the mapping");
    }
    void histories()
    {
        int depth = vp::opt.thorough() ? 7 : 5;
        vp::explore("histories", [&](Chooser& c) {
            const uint64_t seeds[] = {0, 1, 0xfedcba9876543210ULL};
            uint64_t s0 = seeds[c.pick(3)];
            std::vector<std::unique_ptr<Mutator::RNG>> g;
            std::vector<std::mt19937_64> m;
            g.emplace_back(new Mutator::RNG(s0));
            m.emplace_back(s0);
            for (int k = 0; k < depth; k++) {
                int op = c.pick(6);
                size_t w = g.size() > 1 ? c.pick(2) : 0;
                if (op == 0) {
                    uint64_t x, r;
                    do
                        x = m[w]();
                    while (!reference(x, 1000, r));
                    uint64_t d = g[w]->getUnsignedInt64(5, 1004);
                    vp::describe(fmt("draw %zu; ", w));
                    VP_CHECK(d == r + 5, "draw-history", "a draw depends on something else than the seed and the number of draws");
                }
                else if (op == 1) {
                    uint64_t x = m[w]();
                    double d = g[w]->getDouble(0, 4);
                    vp::describe(fmt("real %zu; ", w));
                    VP_CHECK(d == canonical(x) * 4, "draw-history", "a real draw depends on something else than the seed and the number of draws");
                }
                else if (op == 2) {
                    uint64_t x = m[w]();
                    uint64_t r;
                    if (!reference(x, 21, r))
                        abort();
                    vp::describe(fmt("signed %zu; ", w));
                    VP_CHECK(g[w]->getInt32(-10, 10) == (int)r - 10, "draw-history", "a signed draw depends on something else than the seed and the number of draws");
                }
                else if (op == 3 || op == 4) {
                    vp::describe(fmt("seed %zu; ", w));
                    g[w]->setSeed(seeds[op - 2]);
                    m[w].seed(seeds[op - 2]);
                }
                else {
                    if (g.size() > 1)
                        c.prune();
                    vp::describe("copy; ");
                    g.emplace_back(new Mutator::RNG(*g[0]));
                    m.push_back(m[0]);
                }
                vp::count("draws");
            }
        }, {.splitDepth = 3});
        vp::bound("histories", fmt("%d draws, seedings and copies of a generator", depth));
    }
} // namespace
void vp_main()
{
    tiny();
    engine();
    histories();
}
