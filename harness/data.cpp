// C13: archive; C14: data handlers; C15: hashes and copies of data.
#include "draws.h"
#include "world.h"
#include <thread>
using vp::Chooser;
using vp::fmt;

namespace {
    // ================================================================ C13
    // A data handler whose copies are counted.
    int alive = 0;
    class Counted : public Data::PrimitiveTypeArray<double>
    {
      public:
        Counted(size_t n) : PrimitiveTypeArray<double>(n)
        {
            alive++;
        }
        Counted(const Counted& o) : PrimitiveTypeArray<double>(o)
        {
            alive++;
        }
        ~Counted()
        {
            alive--;
        }
        Data::DataHandler* clone() const override
        {
            return new Counted(*this);
        }
    };
    struct Rec
    {
        int prog;
        uint64_t hash;
        double result;
    };
    struct ArchiveModel
    {
        size_t max;
        double prob;
        std::deque<Rec> recs;
        std::map<uint64_t, std::string> data;
        void add(int p, uint64_t h, const std::string& d, double r)
        {
            data.emplace(h, d);
            recs.push_back({p, h, r});
            while (recs.size() > max) {
                Rec f = recs.front();
                recs.pop_front();
                bool used = false;
                for (auto& x : recs)
                    used = used || x.hash == f.hash;
                if (!used)
                    data.erase(f.hash);
            }
        }
        // is the behaviour described by m that of no archived program
        bool unique(const std::map<size_t, double>& m, double tau)
        {
            std::set<int> progs;
            for (auto& r : recs)
                progs.insert(r.prog);
            for (int p : progs) {
                int match = 0, differ = 0;
                for (auto& r : recs)
                    if (r.prog == p && m.count(r.hash)) {
                        double x = m.at(r.hash);
                        if (x == r.result || std::abs(x - r.result) <= tau)
                            match++;
                        else
                            differ++;
                    }
                if (match && !differ)
                    return false;
            }
            return true;
        }
    };
    // two programs, each of which can be freed and replaced by a new one at
    // the same address
    struct Programs
    {
        struct alignas(wd::P) Slot
        {
            unsigned char bytes[sizeof(wd::P)];
        } slots[2];
        const Environment& env;
        int born = 0;
        int current[2]; // which program is in a slot now
        Programs(const Environment& e) : env(e)
        {
            for (int i : {0, 1})
                make(i);
        }
        ~Programs()
        {
            for (int i : {0, 1})
                destroy(at(i));
        }
        static void destroy(wd::P* p)
        {
            using T = wd::P;
            p->~T();
        }
        void make(int i)
        {
            new (slots[i].bytes) wd::P(env);
            current[i] = born++;
        }
        void renew(int i)
        {
            destroy(at(i));
            make(i);
        }
        wd::P* at(int i)
        {
            return (wd::P*)slots[i].bytes;
        }
    };
    void archive13(size_t max, double prob, int depth, bool two, int nbRes,
                   bool renewed = false)
    {
        static wd::World& w = wd::world("small");
        const double results[] = {1.0, 1.5, -INFINITY, NAN};
        vp::explore(
            fmt("archive-max%zu-prob%g%s%s", max, prob, two ? "-two" : "",
                renewed ? "-renewed" : ""),
            [&](Chooser& c) {
                draws::Scope s(c);
                s.p.fractions = {0.25, 0.75};
                alive = 0;
                {
                    Programs progs(*w.env);
                    std::map<int, int> slotOf{{0, 0}, {1, 1}};
                    Counted a(2), b(1);
                    std::vector<std::reference_wrapper<const Data::DataHandler>>
                        h{a};
                    if (two)
                        h.push_back(b);
                    std::set<uint64_t> hashes;
                    std::map<uint64_t, int> dataOf;
                    Archive ar(max, prob);
                    ArchiveModel m{max, prob};
                    for (int step = 0; step < depth; step++) {
                        int op = c.pick(step ? renewed ? 3 : 2 : 1);
                        if (op == 2) {
                            int p = c.pick(2);
                            vp::describe(fmt("another program in the place of "
                                             "p%d; ", p));
                            progs.renew(p);
                            slotOf[progs.current[p]] = p;
                        }
                        else if (op == 0) {
                            int p = c.pick(2), d = c.pick(3),
                                r = c.pick(nbRes);
                            bool forced = prob < 1.0 && c.pick(2);
                            a.setDataAt(typeid(double), 0, d == 1 ? 4 : 0);
                            a.setDataAt(typeid(double), 1, d == 2 ? 4 : 0);
                            b.setDataAt(typeid(double), 0, d);
                            uint64_t hash = Archive::getCombinedHash(h);
                            hashes.insert(hash);
                            dataOf[hash] = d;
                            std::string txt = gg::handlerText(a) + "|" +
                                              (two ? gg::handlerText(b) + "|"
                                                   : "");
                            vp::describe(fmt("add p%d data%d %g%s; ", p, d,
                                             results[r], forced ? " forced" : ""));
                            s.p.lastDouble = -1;
                            ar.addRecording(progs.at(p), h, results[r],
                                            forced);
                            bool drawn = s.p.lastDouble >= 0;
                            VP_CHECK(drawn || forced || prob >= 1.0,
                                     "archive-probability",
                                     "no draw with probability %g", prob);
                            if (forced || prob >= 1.0 || (drawn && s.p.lastDouble <= prob))
                                m.add(progs.current[p], hash, txt, results[r]);
                        }
                        else {
                            vp::describe("clear; ");
                            ar.clear();
                            m.recs.clear();
                            m.data.clear();
                        }
                        // modify the sources after they were archived
                        a.setDataAt(typeid(double), 0, 99);
                        b.setDataAt(typeid(double), 0, -99);
                        VP_CHECK(ar.getNbRecordings() == m.recs.size(),
                                 "archive-recordings", "%zu recordings instead of %zu",
                                 ar.getNbRecordings(), m.recs.size());
                        uint64_t st = vp::mix(max, (uint64_t)(prob * 4));
                        // programs numbered in their order of appearance
                        std::map<int, int> seenAs{{progs.current[0], 0},
                                                  {progs.current[1], 1}};
                        for (size_t i = 0; i < m.recs.size(); i++) {
                            auto& r = ar.at(i);
                            VP_CHECK(r.prog == progs.at(slotOf.at(m.recs[i].prog)) &&
                                         r.dataHash == m.recs[i].hash &&
                                         gg::bits(r.result) == gg::bits(m.recs[i].result),
                                     "archive-order", "recording %zu is wrong", i);
                            int as = seenAs.emplace(m.recs[i].prog, (int)seenAs.size()).first->second;
                            st = vp::mix(st, dataOf[r.dataHash] * 8 + as);
                            st = vp::mix(st, slotOf.at(m.recs[i].prog));
                            st = vp::mix(st, vp::digest(gg::bits(r.result)));
                        }
                        bool thrown = false;
                        try {
                            ar.at(m.recs.size());
                        }
                        catch (std::out_of_range&) {
                            thrown = true;
                        }
                        VP_CHECK(thrown, "archive-at", "at(%zu) is accepted",
                                 m.recs.size());
                        VP_CHECK(ar.getNbDataHandlers() == m.data.size() &&
                                     ar.getDataHandlers().size() == m.data.size(),
                                 "archive-data", "%zu sets of data instead of %zu",
                                 ar.getNbDataHandlers(), m.data.size());
                        for (auto& d : ar.getDataHandlers()) {
                            auto it = m.data.find(d.first);
                            std::string t;
                            for (auto x : d.second)
                                t += gg::handlerText(x) + "|";
                            VP_CHECK(it != m.data.end() && it->second == t,
                                     "archive-content",
                                     "archived data %s instead of %s", t.c_str(),
                                     it == m.data.end() ? "nothing" : it->second.c_str());
                            // the copy still has the hash it is filed under
                            VP_CHECK(Archive::getCombinedHash(d.second) == d.first,
                                     "archive-hash", "archived data %s do not have "
                                     "the hash of their entry", t.c_str());
                        }
                        for (auto x : hashes)
                            VP_CHECK(ar.hasDataHandlers(x) == (m.data.count(x) > 0),
                                     "archive-has", "hasDataHandlers is wrong");
                        int want = 2 + (int)m.data.size() * (two ? 2 : 1);
                        VP_CHECK(alive == want, "archive-memory",
                                 "%d data handlers are alive instead of %d", alive, want);
                        // equivalence queries: every assignment of results
                        if (c.fresh()) {
                            std::vector<uint64_t> hs(hashes.begin(), hashes.end());
                            hs.push_back(12345);
                            const double vals[] = {1.0, 1.25, -INFINITY};
                            // absent or one of these values
                            const size_t nv = nbRes > 2 ? 4 : 3;
                            size_t tot = 1;
                            for (size_t i = 0; i < hs.size(); i++)
                                tot *= nv;
                            for (size_t x = 0; x < tot; x++) {
                                std::map<size_t, double> q;
                                size_t y = x;
                                for (auto hh : hs) {
                                    if (y % nv)
                                        q[hh] = vals[y % nv - 1];
                                    y /= nv;
                                }
                                for (double tau : {1e-4, 0.25}) {
                                    bool u = ar.areProgramResultsUnique(q, tau);
                                    vp::count("queries");
                                    if (u != m.unique(q, tau))
                                        vp::fail("archive-unique",
                                                 fmt("results are declared %s, query %zu tau %g",
                                                     u ? "unique" : "already known", x, tau));
                                }
                            }
                        }
                        vp::count("operations");
                        st = vp::mix(st, (hashes.size() << 3) + two);
                        for (auto x : hashes)
                            st ^= vp::mix(7, dataOf[x]);
                        vp::distinct("archive_states", st);
                        if (c.fresh())
                            c.visit("archive-visited", st, depth - 1 - step, depth);
                    }
                }
                VP_CHECK(alive == 0, "archive-memory",
                         "%d data handlers are still alive after the archive", alive);
            },
            {.splitDepth = 4});
        vp::bound(fmt("archive of %zu, probability %g%s", max, prob, renewed ? ", programs replaced" : ""),
                  fmt("%d operations (2 programs%s, 3 data, %d results, clear)%s", depth,
                      renewed ? ", freed and replaced at the same address" : "", nbRes,
                      two ? ", two data sources" : ""));
    }

    // long histories of a large archive, which follow a pattern with some
    // deviations
    void archiveLong13(size_t max, int len, int nbData, int run, int dev)
    {
        static wd::World& w = wd::world("small");
        vp::explore(
            fmt("archive-long-max%zu-data%d-runs%d", max, nbData, run),
            [&](Chooser& c) {
                draws::Scope s(c);
                alive = 0;
                {
                    std::vector<std::unique_ptr<wd::P>> progs;
                    for (int i = 0; i < 6; i++)
                        progs.emplace_back(new wd::P(*w.env));
                    Counted a(12);
                    Archive ar(max, 1.0);
                    ArchiveModel m{max, 1.0};
                    std::vector<std::reference_wrapper<const Data::DataHandler>> h{a};
                    std::map<uint64_t, int> dataOf;
                    for (int step = 0; step < len; step++) {
                        // default, other program, other data, other result, clear
                        int what = c.pickDev(5, 0);
                        int p = step / run % 5, d = step % nbData;
                        double r = (double)(step % 4) - 1.5;
                        if (what == 1)
                            p = 5;
                        if (what == 2)
                            d = (d + 1) % nbData;
                        if (what == 3)
                            r = NAN;
                        if (what)
                            vp::describe(fmt("step %d: deviation %d; ", step, what));
                        if (what == 4) {
                            ar.clear();
                            m.recs.clear();
                            m.data.clear();
                        }
                        else {
                            for (int i = 0; i < 12; i++)
                                a.setDataAt(typeid(double), i, i == d ? 1 + d : 0);
                            uint64_t hash = Archive::getCombinedHash(h);
                            auto it = dataOf.emplace(hash, d);
                            VP_CHECK(it.first->second == d, "archive-hash-collision",
                                     "two data have the same hash");
                            std::string txt = gg::handlerText(a) + "|";
                            ar.addRecording(progs[p].get(), h, r, false);
                            m.add(p, hash, txt, r);
                            a.setDataAt(typeid(double), step % 12, 99);
                        }
                        vp::count("operations");
                        VP_CHECK(ar.getNbRecordings() == m.recs.size(),
                                 "archive-recordings", "%zu recordings instead of %zu",
                                 ar.getNbRecordings(), m.recs.size());
                        VP_CHECK(ar.getNbDataHandlers() == m.data.size(),
                                 "archive-data", "%zu sets of data instead of %zu",
                                 ar.getNbDataHandlers(), m.data.size());
                        VP_CHECK(alive == 1 + (int)m.data.size(), "archive-memory",
                                 "%d data handlers are alive instead of %d", alive,
                                 1 + (int)m.data.size());
                        for (auto& x : dataOf)
                            VP_CHECK(ar.hasDataHandlers(x.first) == (m.data.count(x.first) > 0),
                                     "archive-has", "hasDataHandlers is wrong");
                    }
                    uint64_t st = max;
                    for (size_t i = 0; i < m.recs.size(); i++) {
                        auto& r = ar.at(i);
                        VP_CHECK(r.prog == progs[m.recs[i].prog].get() &&
                                     r.dataHash == m.recs[i].hash &&
                                     gg::bits(r.result) == gg::bits(m.recs[i].result),
                                 "archive-order", "recording %zu is wrong", i);
                        st = vp::mix(st, m.recs[i].prog * 16 + dataOf[r.dataHash]);
                        st = vp::mix(st, vp::digest(gg::bits(r.result)));
                    }
                    vp::distinct("archive_states", st);
                    for (auto& d : ar.getDataHandlers()) {
                        auto it = m.data.find(d.first);
                        std::string t;
                        for (auto x : d.second)
                            t += gg::handlerText(x) + "|";
                        VP_CHECK(it != m.data.end() && it->second == t, "archive-content",
                                 "archived data %s instead of %s", t.c_str(),
                                 it == m.data.end() ? "nothing" : it->second.c_str());
                    }
                    // the results of each program, whole or in part, with one
                    // of them changed
                    for (int p = 0; p < 6; p++) {
                        std::vector<std::pair<size_t, double>> own;
                        for (auto& r : m.recs)
                            if (r.prog == p)
                                own.push_back({r.hash, r.result});
                        for (size_t skip = 0; skip <= own.size(); skip++)
                            for (size_t other = 0; other <= own.size(); other++)
                                for (double delta : {0.2, 0.3}) {
                                    std::map<size_t, double> q{{12345, 1.0}};
                                    for (size_t i = 0; i < own.size(); i++)
                                        if (i != skip)
                                            q[own[i].first] = own[i].second + (i == other ? delta : 0.0);
                                    bool u = ar.areProgramResultsUnique(q, 0.25);
                                    vp::count("queries");
                                    VP_CHECK(u == m.unique(q, 0.25), "archive-unique",
                                             "results like those of program %d are "
                                             "declared %s", p, u ? "unique" : "already known");
                                }
                    }
                }
                VP_CHECK(alive == 0, "archive-memory",
                         "%d data handlers are still alive after the archive", alive);
            },
            {.maxDev = dev, .splitDepth = 3});
        vp::bound(fmt("archive of %zu, long histories (%d data, runs of %d)", max, nbData, run),
                  fmt("%d additions following a pattern, %d deviations (program, data, result, clear) anywhere", len, dev));
    }

    // ================================================================ C14
    struct TypeCase
    {
        std::string name;
        const std::type_info* t;
        wd::OpType op;
    };
    template <class T> char letter();
    template <> char letter<double>()
    {
        return 'd';
    }
    template <> char letter<int>()
    {
        return 'i';
    }
    template <> char letter<float>()
    {
        return 'f';
    }
    template <> char letter<Data::Constant>()
    {
        return 'c';
    }
    template <> char letter<unsigned char>()
    {
        return 'u';
    }
    template <> char letter<int64_t>()
    {
        return 'l';
    }
    template <class T> void typesOf(std::vector<TypeCase>& v, const char* n)
    {
        char l = letter<T>();
        auto s = [&](const char* x) { return std::string(n) + x; };
        v.push_back({n, &typeid(T), {l, 0, 0}});
        v.push_back({s("[1]"), &typeid(T[1]), {l, 0, 1}});
        v.push_back({s("[2]"), &typeid(T[2]), {l, 0, 2}});
        v.push_back({s("[3]"), &typeid(T[3]), {l, 0, 3}});
        v.push_back({s("[5]"), &typeid(T[5]), {l, 0, 5}});
        v.push_back({s("[12]"), &typeid(T[12]), {l, 0, 12}});
        v.push_back({std::string("const ") + s("[2]"), &typeid(const T[2]), {l, 0, 2}});
        v.push_back({s("[1][2]"), &typeid(T[1][2]), {l, 1, 2}});
        v.push_back({s("[2][1]"), &typeid(T[2][1]), {l, 2, 1}});
        v.push_back({s("[2][2]"), &typeid(T[2][2]), {l, 2, 2}});
        v.push_back({s("[2][3]"), &typeid(T[2][3]), {l, 2, 3}});
        v.push_back({s("[3][2]"), &typeid(T[3][2]), {l, 3, 2}});
        v.push_back({std::string("const ") + s("[2][2]"), &typeid(const T[2][2]), {l, 2, 2}});
    }
    const std::vector<TypeCase>& types()
    {
        static std::vector<TypeCase> v;
        if (v.empty()) {
            typesOf<double>(v, "double");
            typesOf<int>(v, "int");
            typesOf<Data::Constant>(v, "Data::Constant");
            v.push_back({"float", &typeid(float), {'f', 0, 0}});
            v.push_back({"float[2]", &typeid(float[2]), {'f', 0, 2}});
            v.push_back({"unsigned char", &typeid(unsigned char), {'u', 0, 0}});
            v.push_back({"long[2]", &typeid(int64_t[2]), {'l', 0, 2}});
            v.push_back({"double*", &typeid(double*), {'?', 0, 0}});
            v.push_back({"string", &typeid(std::string), {'?', 0, 0}});
            v.push_back({"unsigned int[2]", &typeid(unsigned int[2]), {'?', 0, 2}});
            v.push_back({"double[2][2][2]", &typeid(double[2][2][2]), {'?', 0, 2}});
        }
        return v;
    }
    // types with dimensions of several digits
    template <class T> std::vector<TypeCase> largeTypes(const char* n)
    {
        std::vector<TypeCase> v;
        char l = letter<T>();
        auto s = [&](const char* x) { return std::string(n) + x; };
        v.push_back({n, &typeid(T), {l, 0, 0}});
        v.push_back({s("[1]"), &typeid(T[1]), {l, 0, 1}});
        v.push_back({s("[9]"), &typeid(T[9]), {l, 0, 9}});
        v.push_back({s("[10]"), &typeid(T[10]), {l, 0, 10}});
        v.push_back({s("[11]"), &typeid(T[11]), {l, 0, 11}});
        v.push_back({s("[20]"), &typeid(T[20]), {l, 0, 20}});
        v.push_back({s("[100]"), &typeid(T[100]), {l, 0, 100}});
        v.push_back({s("[123]"), &typeid(T[123]), {l, 0, 123}});
        v.push_back({s("[10][10]"), &typeid(T[10][10]), {l, 10, 10}});
        v.push_back({s("[2][11]"), &typeid(T[2][11]), {l, 2, 11}});
        v.push_back({s("[11][2]"), &typeid(T[11][2]), {l, 11, 2}});
        v.push_back({s("[12][11]"), &typeid(T[12][11]), {l, 12, 11}});
        v.push_back({s("[1][100]"), &typeid(T[1][100]), {l, 1, 100}});
        v.push_back({s("[100][1]"), &typeid(T[100][1]), {l, 100, 1}});
        v.push_back({std::string("const ") + s("[10]"), &typeid(const T[10]), {l, 0, 10}});
        v.push_back({std::string("const ") + s("[11][10]"), &typeid(const T[11][10]), {l, 11, 10}});
        return v;
    }
    const std::vector<std::pair<size_t, size_t>> LARGE{{1, 10}, {10, 1}, {12, 11}, {11, 12}, {1, 123}, {123, 1}, {3, 100}, {7, 8}};
    struct Handler
    {
        std::string name;
        std::unique_ptr<Data::DataHandler> h;
        wd::MSource m;
        const std::type_info* native;
        std::function<void(size_t, double)> write;
        std::function<double(const void*, size_t)> read;
        bool pointer = false, own = false;
        std::shared_ptr<void> keep;
    };
    template <class T> T cast(double v)
    {
        return (T)v;
    }
    template <> Data::Constant cast(double v)
    {
        return Data::Constant{(int32_t)v};
    }
    template <class T> void base(Handler& r, size_t h, size_t w)
    {
        r.m = {letter<T>(), h, w, std::vector<double>(h ? h * w : w)};
        r.native = &typeid(T);
        r.read = [](const void* p, size_t i) { return (double)((const T*)p)[i]; };
    }
    const int NKINDS = 5;
    template <class T> Handler make(int kind, size_t h, size_t w)
    {
        Handler r;
        std::string dims = h ? fmt("%zux%zu", h, w) : fmt("%zu", w);
        if (kind == 0) {
            base<T>(r, 0, w);
            auto* a = new Data::PrimitiveTypeArray<T>(w);
            r.h.reset(a);
            r.own = true;
            r.write = [a](size_t i, double v) { a->setDataAt(typeid(T), i, cast<T>(v)); };
            r.name = "PrimitiveTypeArray " + dims;
        }
        else if (kind == 1) {
            base<T>(r, h, w);
            auto* a = new Data::PrimitiveTypeArray2D<T>(w, h);
            r.h.reset(a);
            r.own = true;
            r.write = [a](size_t i, double v) { a->setDataAt(typeid(T), i, cast<T>(v)); };
            r.name = "PrimitiveTypeArray2D " + dims;
        }
        else if (kind == 2) {
            base<T>(r, 0, w);
            auto v = std::make_shared<std::vector<T>>(w);
            auto* a = new Data::ArrayWrapper<T>(w, v.get());
            r.h.reset(a);
            r.keep = v;
            r.write = [a, v](size_t i, double x) {
                v->at(i) = cast<T>(x);
                a->invalidateCachedHash();
            };
            r.name = "ArrayWrapper " + dims;
        }
        else if (kind == 3) {
            base<T>(r, h, w);
            auto v = std::make_shared<std::vector<T>>(w * h);
            auto* a = new Data::Array2DWrapper<T>(w, h, v.get());
            r.h.reset(a);
            r.keep = v;
            r.write = [a, v](size_t i, double x) {
                v->at(i) = cast<T>(x);
                a->invalidateCachedHash();
            };
            r.name = "Array2DWrapper " + dims;
        }
        else {
            base<T>(r, 0, 1);
            auto v = std::make_shared<T>();
            r.h.reset(new Data::PointerWrapper<T>(v.get()));
            r.keep = v;
            r.pointer = true;
            r.write = [v](size_t, double x) { *v = cast<T>(x); };
            r.name = "PointerWrapper";
        }
        r.name += fmt(" of %c", r.m.elem);
        return r;
    }
    void writeAll(Handler& h, int salt)
    {
        for (size_t a = 0; a < h.m.v.size(); a++) {
            h.m.v[a] = (double)((a * 7 + 3 * salt + 1) % 101);
            h.write(a, h.m.v[a]);
        }
    }
    size_t spaceOf(const Handler& h, const TypeCase& t)
    {
        // a pointer only gives its native type
        if (h.pointer)
            return t.op.elem == h.m.elem && !t.op.w ? 1 : 0;
        return h.m.space(t.op);
    }
    void readAt(Handler& h, const TypeCase& t, size_t a, const std::string& ctx)
    {
        auto want = h.m.addresses(t.op, a);
        Data::UntypedSharedPtr p = h.h->getDataAt(*t.t, a);
        auto get = [&](size_t i) -> double {
            const char* raw = nullptr;
            auto ptr = [&](auto tag) {
                using T = decltype(tag);
                if (!t.op.w)
                    return h.read(p.getSharedPointer<const T>().get(), 0);
                return h.read(p.getSharedPointer<const T[]>().get(), i);
            };
            (void)raw;
            switch (t.op.elem) {
            case 'd':
                return ptr(double());
            case 'i':
                return ptr(int());
            case 'f':
                return ptr(float());
            case 'u':
                return ptr((unsigned char)0);
            case 'l':
                return ptr(int64_t());
            default:
                return ptr(Data::Constant());
            }
        };
        for (size_t i = 0; i < want.size(); i++) {
            double g = get(i);
            if (g != h.m.v[want[i]])
                vp::fail("data-read",
                         fmt("%s: %s at %zu: element %zu is %g instead of %g (%s)",
                             h.name.c_str(), t.name.c_str(), a, i, g,
                             h.m.v[want[i]], ctx.c_str()));
        }
        // asking for another type fails instead of reinterpreting the data
        bool thrown = false;
        try {
            if (h.m.elem == 'd')
                p.getSharedPointer<const int>();
            else
                p.getSharedPointer<const double>();
        }
        catch (std::runtime_error&) {
            thrown = true;
        }
        VP_CHECK(thrown, "data-type-confusion",
                 "%s gives a pointer to another type", h.name.c_str());
        if (t.op.w && !h.pointer) {
            // an array is a copy: it keeps its content
            double first = get(0), old = h.m.v[want[0]];
            h.write(want[0], old + 1);
            VP_CHECK(get(0) == first, "data-array-copy",
                     "%s: a returned array changes with the source", h.name.c_str());
            h.write(want[0], old);
        }
        vp::count("reads");
    }
    void queries(Handler& h, const TypeCase& t, int first)
    {
        size_t n = spaceOf(h, t);
        auto addresses = [&](size_t a) {
            auto got = h.h->getAddressesAccessed(*t.t, a);
            auto want = a < n ? h.m.addresses(t.op, a) : std::vector<size_t>();
            std::string g, w;
            for (auto x : got)
                g += fmt("%zu ", x);
            for (auto x : want)
                w += fmt("%zu ", x);
            vp::distinct("access_patterns", vp::mix(vp::digest(w), n));
            if (got != want)
                vp::fail("data-addresses",
                         fmt("%s: %s at %zu accesses %sinstead of %s", h.name.c_str(),
                             t.name.c_str(), a, g.c_str(), w.c_str()));
        };
        auto space = [&] {
            size_t g = h.h->getAddressSpace(*t.t);
            VP_CHECK(g == n, "data-space", "%s: %zu addresses of %s instead of %zu",
                     h.name.c_str(), g, t.name.c_str(), n);
            bool can = h.h->canHandle(*t.t);
            VP_CHECK(can == (n > 0), "data-can-handle", "%s: canHandle(%s) is %d",
                     h.name.c_str(), t.name.c_str(), can);
        };
        std::vector<std::function<void()>> q{
            space,
            [&] {
                for (size_t a = 0; a < n + 2; a++)
                    addresses(a);
            },
            [&] {
                for (size_t a = 0; a < n; a++)
                    readAt(h, t, a, fmt("query order %d", first));
            },
            [&] {
                for (uint64_t x = 0; n && x < 2 * n + 3; x++) {
                    uint64_t g = h.h->scaleLocation(x, *t.t);
                    VP_CHECK(g == x % n, "data-scale",
                             "%s: location %d of %s scales to %d", h.name.c_str(),
                             (int)x, t.name.c_str(), (int)g);
                }
            }};
        for (size_t i = 0; i < q.size(); i++)
            q[(i + first) % q.size()]();
    }
    // dims: the dimensions of large handlers, or none for all those up to maxDim
    template <class T>
    void access14(const char* tname, int maxDim, const std::vector<TypeCase>& ts = types(),
                  const std::vector<std::pair<size_t, size_t>>& dims = {})
    {
        vp::explore(
            fmt("access-%s%s", tname, dims.empty() ? "" : "-large"),
            [&](Chooser& c) {
                int kind = c.pick(dims.empty() ? NKINDS : 4);
                size_t w = 1, h = 0;
                if (!dims.empty()) {
                    auto& d = dims[c.pick((int)dims.size())];
                    h = kind == 1 || kind == 3 ? d.first : 0;
                    w = h ? d.second : d.first * d.second;
                }
                else {
                    w = kind == 4 ? 1 : 1 + c.pick(maxDim);
                    h = kind == 1 || kind == 3 ? 1 + c.pick(maxDim) : 0;
                }
                auto& t = ts[c.pick((int)ts.size())];
                int first = maxDim > 2 ? c.pick(4) : 2 * c.pick(2);
                // what was asked before to a handler of other dimensions
                int other = kind == 1 || kind == 3 ? c.pick(2) : 0;
                vp::describe(fmt("kind %d h %zu w %zu type %s order %d other %d", kind, h, w, t.name.c_str(), first, other));
                std::exception_ptr ex;
                // the caches of the handlers belong to a thread
                std::thread th([&] {
                    try {
                        Handler x = make<T>(kind, h, w);
                        writeAll(x, 1);
                        if (other) {
                            Handler y = make<T>(kind, w, h);
                            writeAll(y, 2);
                            queries(y, t, first);
                        }
                        queries(x, t, first);
                        size_t la = x.h->getLargestAddressSpace();
                        VP_CHECK(la == x.m.size(), "data-largest",
                                 "%s: largest address space is %zu", x.name.c_str(), la);
                        VP_CHECK(x.h->getNativeType() == *x.native, "data-native",
                                 "%s: wrong native type", x.name.c_str());
                        auto d = x.h->getDimensionsSize();
                        std::vector<size_t> want;
                        if (x.m.h)
                            want.push_back(x.m.h);
                        want.push_back(x.m.w);
                        VP_CHECK(d == want, "data-dimensions", "%s: wrong dimensions",
                                 x.name.c_str());
                        // so does a copy made by clone()
                        Handler z;
                        z.name = "clone of " + x.name;
                        z.m = x.m;
                        z.h.reset(x.h->clone());
                        z.read = x.read;
                        z.pointer = false;
                        z.native = x.native;
                        auto tt = t;
                        if (!(x.pointer && t.op.w)) {
                            z.write = [](size_t, double) {};
                            queries(z, t, first);
                        }
                    }
                    catch (...) {
                        ex = std::current_exception();
                    }
                });
                th.join();
                if (ex)
                    std::rethrow_exception(ex);
                vp::count("handlers");
            },
            {.splitDepth = 2});
    }
    void wrappers14()
    {
        vp::explore("wrappers", [&](Chooser& c) {
            size_t n = 1 + c.pick(3), m = c.pick(5);
            bool two = c.pick(2), null = c.pick(2);
            std::vector<double> v(m), good(two ? n * 2 : n, 3.0);
            bool thrown = false;
            std::unique_ptr<Data::ArrayWrapper<double>> a;
            size_t want = two ? n * 2 : n;
            try {
                a.reset(two ? new Data::Array2DWrapper<double>(n, 2, null ? nullptr : &v)
                            : new Data::ArrayWrapper<double>(n, null ? nullptr : &v));
                if (null)
                    a->setPointer(&v);
            }
            catch (std::domain_error&) {
                thrown = true;
            }
            VP_CHECK(thrown == (m != want), "wrapper-size",
                     "a wrapper of %zu elements %s a vector of %zu", want,
                     thrown ? "refuses" : "accepts", m);
            if (!a)
                return;
            // a refused pointer changes nothing
            a->setPointer(&good);
            std::vector<double> bad(want + 1);
            thrown = false;
            try {
                a->setPointer(&bad);
            }
            catch (std::domain_error&) {
                thrown = true;
            }
            VP_CHECK(thrown, "wrapper-size", "a longer vector is accepted");
            double d = *a->getDataAt(typeid(double), want - 1)
                            .getSharedPointer<const double>();
            VP_CHECK(d == 3.0, "wrapper-pointer", "a refused vector replaced the previous one");
            a->setPointer(nullptr);
            const std::type_info* types[] = {&typeid(double), &typeid(double[1]),
                                             &typeid(double[2])};
            for (auto* t : types) {
                if (a->getAddressSpace(*t) == 0)
                    continue;
                thrown = false;
                try {
                    a->getDataAt(*t, 0);
                }
                catch (std::runtime_error&) {
                    thrown = true;
                }
                VP_CHECK(thrown, "wrapper-null",
                         "reading a null pointer as %s is accepted", t->name());
            }
            vp::count("handlers");
        });
    }

    // ================================================================ C15
    // contents of a handler, as the caller knows them
    struct Hashes
    {
        std::map<std::string, uint64_t> byContent;
        std::map<uint64_t, std::string> byHash;
        void see(size_t id, const std::string& content, uint64_t h,
                 const std::string& who)
        {
            std::string k = fmt("%zu:", id) + content;
            auto a = byContent.emplace(k, h);
            if (a.first->second != h)
                vp::fail("hash-unstable", who + " has two hashes for " + k);
            auto b = byHash.emplace(h, k);
            if (b.first->second != k)
                vp::fail("hash-collision",
                         who + ": same hash for " + k + " and " + b.first->second);
            vp::distinct("contents", vp::digest(k));
            vp::count("hashes");
        }
    };
    std::string content(const std::vector<double>& v)
    {
        std::string s;
        for (double d : v)
            s += gg::bits(d + 0.0) + ",";
        return s;
    }
    // every content over an alphabet has its own hash
    template <class T>
    void distinct15(const char* name, int kind, size_t h, size_t w,
                    const std::vector<double>& alphabet)
    {
        vp::explore(fmt("distinct-%s-kind%d-%zux%zu", name, kind, h, w),
                    [&](Chooser& c) {
                        (void)c;
                        Handler x = make<T>(kind, h, w), y = make<T>(kind, h, w);
                        Hashes hs;
                        size_t n = x.m.v.size(), tot = 1;
                        for (size_t i = 0; i < n; i++)
                            tot *= alphabet.size();
                        for (size_t k = 0; k < tot; k++) {
                            size_t q = k;
                            for (size_t i = 0; i < n; i++) {
                                x.m.v[i] = alphabet[q % alphabet.size()];
                                x.write(i, x.m.v[i]);
                                y.write(i, x.m.v[i]);
                                q /= alphabet.size();
                            }
                            hs.see(x.h->getId(), content(x.m.v), x.h->getHash(), x.name);
                            hs.see(y.h->getId(), content(x.m.v), y.h->getHash(), y.name);
                        }
                    });
        vp::bound("distinct contents", fmt("all contents over %zu values", alphabet.size()));
    }
    // histories of two handlers of a kind
    // long contents which differ from a pattern by one or two elements
    template <class T>
    void long15(const char* name, int kind, size_t h, size_t w,
                const std::vector<double>& alphabet)
    {
        vp::explore(
            fmt("distinct-long-%s-kind%d-%zux%zu", name, kind, h, w),
            [&](Chooser& c) {
                int pattern = c.pick(3);
                Handler x = make<T>(kind, h, w);
                Hashes hs;
                size_t n = x.m.v.size();
                auto put = [&](size_t i, double v) {
                    x.m.v[i] = v;
                    x.write(i, v);
                };
                auto see = [&] {
                    hs.see(x.h->getId(), content(x.m.v), x.h->getHash(), x.name);
                };
                auto base = [&](size_t i) {
                    return pattern == 0 ? 0.0 : pattern == 1 ? (double)i : 1.0;
                };
                for (size_t i = 0; i < n; i++)
                    put(i, base(i));
                see();
                for (size_t i = 0; i < n; i++)
                    for (double v : alphabet) {
                        put(i, v);
                        see();
                        for (size_t j = i + 1; j < n && n <= 40; j++) {
                            put(j, v);
                            see();
                            put(j, base(i));
                            see();
                            put(j, base(j));
                        }
                        put(i, base(i));
                        see();
                    }
            });
        vp::bound(fmt("long contents (%s, kind %d, %zux%zu)", name, kind, h, w),
                  "three patterns with one or two elements changed");
    }
    template <class T> void histories15(const char* name, int kind, int depth)
    {
        bool d2 = kind == 1 || kind == 3;
        size_t w = kind == 4 ? 1 : 2, h = d2 ? 2 : 0;
        vp::explore(
            fmt("histories-%s-kind%d", name, kind),
            [&](Chooser& c) {
                Hashes hs;
                struct Item
                {
                    std::string name;
                    Data::DataHandler* h;
                    size_t id;
                    std::vector<double> v;
                    int own; // index of the handler it is a copy of
                };
                Handler x = make<T>(kind, h, w), y = make<T>(kind, h, w);
                std::vector<std::unique_ptr<Data::DataHandler>> copies;
                std::vector<Item> items{{"x", x.h.get(), x.h->getId(), x.m.v, 0},
                                        {"y", y.h.get(), y.h->getId(), y.m.v, 1}};
                VP_CHECK(items[0].id != items[1].id, "id-shared",
                         "two data handlers have the same identifier");
                std::shared_ptr<std::vector<T>> alt =
                    std::make_shared<std::vector<T>>(x.m.v.size(), cast<T>(5));
                T altP = cast<T>(5);
                size_t n = x.m.v.size();
                bool onAlt = false;
                for (int s = 0; s < depth; s++) {
                    int op = c.pick(11);
                    bool nowhere = items[0].v.empty();
                    if (op < 4) {
                        // write in x or y, at 0 or last
                        Handler& t = op < 2 ? x : y;
                        if (op < 2 && (onAlt || nowhere))
                            c.prune();
                        size_t a = op % 2 ? n - 1 : 0;
                        if (op % 2 && n == 1)
                            c.prune();
                        double v = 1 + c.pick(2);
                        vp::describe(fmt("write %c[%zu]=%g; ", op < 2 ? 'x' : 'y', a, v));
                        t.write(a, v);
                        items[op < 2 ? 0 : 1].v[a] = v;
                    }
                    else if (op == 4) {
                        vp::describe("reset x; ");
                        x.h->resetData();
                        if (nowhere)
                            c.prune();
                        if (x.own)
                            items[0].v.assign(n, 0.0);
                    }
                    else if (op == 5) {
                        vp::describe("hash; ");
                        // only some hashes are asked: see below
                    }
                    else if (op == 6) {
                        if (copies.size() > 1 || nowhere)
                            c.prune();
                        int of = c.pick((int)items.size());
                        vp::describe(fmt("clone %s; ", items[of].name.c_str()));
                        copies.emplace_back(items[of].h->clone());
                        Item i = items[of];
                        i.name += "'";
                        i.h = copies.back().get();
                        VP_CHECK(i.h->getId() == i.id, "clone-id",
                                 "a clone has another identifier");
                        items.push_back(i);
                    }
                    else if (op == 7) {
                        // assignment
                        vp::describe("x = y; ");
                        bool ok = true;
                        if (auto* p = dynamic_cast<Data::PrimitiveTypeArray<T>*>(x.h.get()))
                            *p = *dynamic_cast<Data::PrimitiveTypeArray<T>*>(y.h.get());
                        else if (auto* p = dynamic_cast<Data::PrimitiveTypeArray2D<T>*>(x.h.get()))
                            *p = *dynamic_cast<Data::PrimitiveTypeArray2D<T>*>(y.h.get());
                        else
                            ok = false;
                        if (!ok)
                            c.prune();
                        items[0].v = items[1].v;
                    }
                    else if (op == 8) {
                        // another storage, or the same one again with
                        // another content
                        double v = 5 + c.pick(2);
                        if (x.own)
                            c.prune();
                        vp::describe(fmt("x points elsewhere (%g); ", v));
                        altP = cast<T>(v);
                        alt->assign(n, cast<T>(v));
                        if (auto* p = dynamic_cast<Data::PointerWrapper<T>*>(x.h.get()))
                            p->setPointer(&altP);
                        else if (!x.own)
                            dynamic_cast<Data::ArrayWrapper<T>*>(x.h.get())->setPointer(alt.get());
                        else
                            c.prune();
                        items[0].v.assign(n, v);
                        onAlt = true;
                    }
                    else if (op == 10) {
                        // no storage at all: another content
                        vp::describe("x points nowhere; ");
                        if (auto* p = dynamic_cast<Data::PointerWrapper<T>*>(x.h.get()))
                            p->setPointer(nullptr);
                        else if (!x.own)
                            dynamic_cast<Data::ArrayWrapper<T>*>(x.h.get())->setPointer(nullptr);
                        else
                            c.prune();
                        items[0].v.clear();
                    }
                    else {
                        // write in the first copy
                        if (copies.empty())
                            c.prune();
                        vp::describe("write in the first copy; ");
                        auto* h0 = copies[0].get();
                        if (auto* p = dynamic_cast<Data::PrimitiveTypeArray<T>*>(h0))
                            p->setDataAt(typeid(T), n - 1, cast<T>(7));
                        else if (auto* p = dynamic_cast<Data::PrimitiveTypeArray2D<T>*>(h0))
                            p->setDataAt(typeid(T), n - 1, cast<T>(7));
                        else
                            vp::fail("clone-kind", "a clone cannot be modified");
                        items[2].v[n - 1] = 7;
                    }
                    // which hashes are asked now: a subset, so that stale
                    // caches have the time to appear
                    int who = op == 5 ? 3 : c.pick(3);
                    for (size_t k = 0; k < items.size(); k++) {
                        auto& it = items[k];
                        if (who == 3 || (who == 1 && k == 0) || (who == 2 && k != 0))
                            hs.see(it.id, content(it.v), it.h->getHash(), it.name);
                        // the data themselves
                        for (size_t a = 0; a < it.v.size(); a++) {
                            double g = x.read(it.h->getDataAt(typeid(T), a)
                                                  .template getSharedPointer<const T>()
                                                  .get(),
                                              0);
                            if (g != it.v[a])
                                vp::fail("data-independence",
                                         fmt("%s[%zu] is %g instead of %g",
                                             it.name.c_str(), a, g, it.v[a]));
                        }
                    }
                    vp::count("operations");
                }
                for (auto& it : items)
                    hs.see(it.id, content(it.v), it.h->getHash(), it.name);
            },
            {.splitDepth = 3});
        vp::bound(fmt("histories (%s, kind %d)", name, kind),
                  fmt("%d operations of 11 kinds on two handlers and their copies", depth));
    }
} // namespace

void vp_main()
{
    bool T = vp::opt.thorough();
    if (vp::opt.prop == "C13") {
        for (size_t max : {1, 2, 3, 0})
            archive13(max, 1.0, T ? 7 : 5, false, max == 2 ? 3 : 2);
        archive13(2, 0.5, T ? 6 : 4, false, 2);
        archive13(2, 0.0, T ? 5 : 4, false, 2);
        archive13(4, 1.0, T ? 6 : 4, true, 2);
        archive13(3, 1.0, T ? 7 : 5, false, 2, true);
        archive13(3, 1.0, T ? 4 : 3, true, 4);
        for (int run : {1, 3, 10}) {
            archiveLong13(9, 30, 7, run, T ? 2 : 1);
            archiveLong13(16, 40, 12, run, T ? 2 : 1);
            archiveLong13(40, 50, 5, run, T ? 2 : 1);
        }
    }
    else if (vp::opt.prop == "C14") {
        int d = T ? 6 : 3;
        access14<double>("double", d);
        access14<int>("int", d);
        access14<Data::Constant>("constant", T ? 4 : 3);
        access14<float>("float", T ? 3 : 2);
        access14<unsigned char>("char", T ? 3 : 2);
        access14<int64_t>("long", T ? 3 : 2);
        access14<double>("double", 2, largeTypes<double>("double"), LARGE);
        access14<Data::Constant>("constant", 2, largeTypes<Data::Constant>("Data::Constant"), LARGE);
        wrappers14();
        vp::bound("large handlers", fmt("%zu dimensions of 10 to 300 elements, 16 accessed types of 2 element types, every address", LARGE.size()));
        vp::bound("handlers", fmt("5 kinds of handlers, dimensions up to %dx%d, 6 element types, 47 accessed types, every address, 4 orders of the queries, with and without another handler before", d, d));
    }
    else {
        std::vector<double> a{0, 1, 2, 3, 4, -1, 256, 65536};
        std::vector<double> f{0, 1, 2, 0.5, 4, -1, 1e300, 1e-300};
        for (int k : {0, 1, 2, 3, 4}) {
            bool d2 = k == 1 || k == 3;
            distinct15<double>("double", k, d2 ? 2 : 0, d2 ? 2 : 4, f);
            distinct15<int>("int", k, d2 ? 2 : 0, d2 ? 2 : 4, a);
            distinct15<int64_t>("long", k, d2 ? 1 : 0, 3, a);
        }
        distinct15<Data::Constant>("constant", 0, 0, 4, a);
        distinct15<double>("double", 0, 0, 8, {0, 1, 2, 0.5});
        distinct15<unsigned char>("char", 0, 0, T ? 7 : 6, {0, 1, 2, 3, 4, 5, 6, 255});
        distinct15<int>("int-bits", 2, 0, T ? 18 : 14, {0, 1});
        for (int k : {0, 1, 2, 3}) {
            bool d2 = k == 1 || k == 3;
            long15<double>("double", k, d2 ? 5 : 0, d2 ? 7 : 33, f);
            long15<int>("int", k, d2 ? 1 : 0, d2 ? 17 : 130, a);
        }
        long15<unsigned char>("char", 0, 0, 70, {0, 1, 2, 3, 4, 5, 255});
        long15<Data::Constant>("constant", 0, 0, 40, a);
        for (int k : {0, 1, 2, 3, 4}) {
            histories15<double>("double", k, T ? 5 : k == 0 ? 4 : 3);
            histories15<int>("int", k, T ? 5 : 3);
        }
        histories15<Data::Constant>("constant", 0, T ? 5 : 3);
    }
}
