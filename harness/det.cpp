// C05 the result of a training depends only on its seed and parameters: not on
// the memory allocator, nor on what was done before, nor on observers.
#include "learn.h"
#include <cstdlib>
#include <filesystem>
#include <new>
#include <sys/mman.h>
#include <unistd.h>
using vp::Chooser;
using vp::fmt;

// ------------------------------------------------------------- allocator
// Memory given by `new` within a measured region comes from an arena, whose
// policy tells the addresses and the initial content.
namespace mem {
    enum Policy
    {
        UP,      // never used again, growing addresses
        DOWN,    // never used again, decreasing addresses
        SCATTER, // never used again, addresses in a pseudo random order
        LIFO,    // last freed block first
        FIFO,    // first freed block first
        DECIDE,  // programs: decided by the explorer; others never used again
        NPOLICIES
    };
    const char* NAMES[] = {"up", "down", "scatter", "lifo", "fifo", "decide"};
    const size_t SIZE = 1ull << 36;
    char* base = nullptr;
    bool active = false;
    Policy policy = UP;
    unsigned char fill = 0;
    size_t low = 0, high = SIZE;
    size_t live = 0;
    size_t programBlock = 0;
    size_t lastSize = 0;
    Chooser* ch = nullptr;
    uint64_t scatter = 1;
    // freed blocks by size/16
    const size_t CLASSES = 4096;
    struct Freed
    {
        void** v = nullptr;
        size_t first = 0, n = 0, cap = 0;
    } freed[CLASSES];

    void push(size_t c, void* p)
    {
        Freed& f = freed[c];
        if (f.n == f.cap) {
            f.cap = f.cap ? f.cap * 2 : 64;
            f.v = (void**)realloc(f.v, f.cap * sizeof(void*));
        }
        f.v[f.n++] = p;
    }
    bool mine(void* p)
    {
        return base && (char*)p >= base && (char*)p < base + SIZE;
    }
    void* fresh(size_t n)
    {
        // header of 16 bytes holding the size
        size_t total = (n + 31) & ~size_t(15);
        char* p;
        if (policy == DOWN) {
            high -= total;
            p = base + high;
        }
        else if (policy == SCATTER) {
            // one of 64 zones
            scatter = scatter * 6364136223846793005ULL + 1442695040888963407ULL;
            static size_t used[64];
            static size_t* u = used;
            if (low == 0) {
                for (size_t i = 0; i < 64; i++)
                    u[i] = 0;
                low = 1;
            }
            size_t z = scatter >> 58;
            p = base + z * (SIZE / 64) + u[z];
            u[z] += total;
        }
        else {
            p = base + low;
            low += total;
        }
        *(size_t*)p = total;
        return p + 16;
    }
    void* alloc(size_t n)
    {
        live++;
        lastSize = n;
        size_t total = (n + 31) & ~size_t(15), c = total / 16;
        void* p = nullptr;
        if (c < CLASSES) {
            Freed& f = freed[c];
            if (policy == LIFO && f.n > f.first)
                p = f.v[--f.n];
            else if (policy == FIFO && f.n > f.first)
                p = f.v[f.first++];
            else if (policy == DECIDE && n == programBlock && f.n > f.first) {
                active = false;
                int k = ch->pickDev((int)(f.n - f.first) + 1, 0);
                active = true;
                if (k) {
                    std::swap(f.v[f.n - k], f.v[f.n - 1]);
                    p = f.v[--f.n];
                }
            }
        }
        if (!p)
            p = fresh(n);
        memset(p, fill, total - 16);
        return p;
    }
    void release(void* p)
    {
        live--;
        size_t total = *(size_t*)((char*)p - 16);
        memset(p, (unsigned char)~fill, total - 16);
        if (total / 16 < CLASSES && policy >= LIFO)
            push(total / 16, p);
    }
    void start(Policy p, unsigned char pattern)
    {
        if (!base) {
            base = (char*)mmap(nullptr, SIZE, PROT_READ | PROT_WRITE,
                               MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1,
                               0);
            if (base == MAP_FAILED) {
                perror("mmap");
                _exit(3);
            }
        }
        if (live)
            vp::fail("harness", fmt("%zu blocks left in the arena", live));
        if (low > (32u << 20) || SIZE - high > (32u << 20) || policy == SCATTER)
            madvise(base, SIZE, MADV_DONTNEED);
        policy = p;
        fill = pattern;
        low = 0;
        high = SIZE;
        scatter = 1;
        for (auto& f : freed)
            f.first = f.n = 0;
    }
    struct Region
    {
        Region()
        {
            active = true;
        }
        ~Region()
        {
            active = false;
        }
    };
} // namespace mem
void* operator new(size_t n)
{
    if (mem::active)
        return mem::alloc(n);
    void* p = malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    return p;
}
void operator delete(void* p) noexcept
{
    if (!p)
        return;
    if (mem::mine(p))
        mem::release(p);
    else
        free(p);
}
void operator delete(void* p, size_t) noexcept
{
    operator delete(p);
}

namespace {
    using Learn::LearningMode;
    struct Classes : Learn::ClassificationLearningEnvironment
    {
        Data::PrimitiveTypeArray<double> data;
        uint64_t n = 0, st = 1;
        Classes(uint64_t nb) : ClassificationLearningEnvironment(nb), data(3)
        {
            reset();
        }
        void refresh()
        {
            st = st * 6364136223846793005ULL + 1442695040888963407ULL;
            currentClass = (st >> 40) % nbActions;
            for (size_t i = 0; i < 3; i++)
                data.setDataAt(typeid(double), i,
                               (double)((int)((st >> (33 + 5 * i)) % 3)) - 0.75 +
                                   (double)currentClass);
        }
        void reset(size_t seed = 0, LearningMode m = LearningMode::TRAINING,
                   uint16_t it = 0, uint64_t g = 0) override
        {
            ClassificationLearningEnvironment::reset(seed, m, it, g);
            n = 0;
            st = (seed ^ (seed >> 17)) + (uint64_t)m;
            refresh();
        }
        void doAction(uint64_t a) override
        {
            ClassificationLearningEnvironment::doAction(a);
            n++;
            refresh();
        }
        std::vector<std::reference_wrapper<const Data::DataHandler>>
        getDataSources() override
        {
            return {data};
        }
        bool isTerminal() const override
        {
            return n >= 5;
        }
    };
    struct Duel : Learn::AdversarialLearningEnvironment
    {
        Data::PrimitiveTypeArray<double> data;
        uint64_t n = 0, st = 1;
        double s[2] = {0, 0};
        Duel(uint64_t nb) : AdversarialLearningEnvironment(nb), data(3)
        {
            reset();
        }
        void refresh()
        {
            for (size_t i = 0; i < 3; i++)
                data.setDataAt(typeid(double), i,
                               (double)((int)((st >> (33 + 5 * i)) % 5)) - 1.5);
        }
        void reset(size_t seed = 0, LearningMode m = LearningMode::TRAINING,
                   uint16_t = 0, uint64_t = 0) override
        {
            n = 0;
            s[0] = s[1] = 0;
            st = (seed ^ (seed >> 17)) * 31 + (uint64_t)m;
            refresh();
        }
        void doAction(uint64_t a) override
        {
            LearningEnvironment::doAction(a);
            st = (st + a + 1) * 6364136223846793005ULL + 1442695040888963407ULL;
            s[n % 2] += (double)((st >> 50) % 8);
            n++;
            refresh();
        }
        std::vector<std::reference_wrapper<const Data::DataHandler>>
        getDataSources() override
        {
            return {data};
        }
        bool isTerminal() const override
        {
            return n >= 4;
        }
        std::shared_ptr<Learn::AdversarialEvaluationResult> getScores()
            const override
        {
            return std::make_shared<Learn::AdversarialEvaluationResult>(
                std::initializer_list<double>{s[0], s[1]});
        }
    };
    double half(double a, double b)
    {
        return a > b ? 1.0 : -0.5;
    }
    double pick(double a, double b)
    {
        return a < 0 ? b : a;
    }
    std::unique_ptr<gg::ISet> coarseSet()
    {
        // few different results
        auto s = std::make_unique<gg::ISet>();
        s->add<Instructions::LambdaInstruction<double, double>>(half);
        s->add<Instructions::LambdaInstruction<double, double>>(pick);
        s->add<Instructions::AddPrimitiveType<double>>();
        return s;
    }
    const char* KINDS[] = {"sequential", "parallel", "classification",
                           "adversarial"};
    struct Config
    {
        int kind = 0, seed = 0, params = 0;
        bool operator<(const Config& o) const
        {
            return std::tie(kind, seed, params) <
                   std::tie(o.kind, o.seed, o.params);
        }
    };
    const int NPARAMS = 4;
    Learn::LearningParameters parameters(const Config& c)
    {
        auto p = ln::params(5, 0.6);
        p.mutation.tpg.pEdgeDestinationIsAction = 0.0;
        p.maxNbActionsPerEval = 3;
        p.archiveSize = 30;
        p.archivingProbability = 0.7;
        switch (c.params) {
        case 0:
            p.archivingProbability = 1.0;
            break;
        case 1:
            p.mutation.tpg.forceProgramBehaviorChangeOnMutation = true;
            p.nbProgramConstant = 2;
            p.mutation.prog.pConstantMutation = 0.5;
            p.mutation.prog.minConstValue = -4;
            p.mutation.prog.maxConstValue = 4;
            break;
        case 2:
            p.archiveSize = 8;
            p.doValidation = true;
            p.maxNbEvaluationPerPolicy = 3;
            p.nbIterationsPerPolicyEvaluation = 2;
            break;
        case 4: // only in large trainings
            p.mutation.tpg.nbRoots = 20;
            p.mutation.prog.maxProgramSize = 12;
            p.mutation.tpg.maxOutgoingEdges = 7;
            p.ratioDeletedRoots = 0.5;
            p.archiveSize = 90;
            p.doValidation = true;
            p.maxNbEvaluationPerPolicy = 4;
            break;
        default:
            p.mutation.tpg.nbRoots = 8;
            p.ratioDeletedRoots = 0.75;
            p.archiveSize = 60;
            break;
        }
        return p;
    }
    std::string archiveContent(const Archive& a)
    {
        std::ostringstream o;
        auto& h = a.getDataHandlers();
        for (size_t i = 0; i < a.getNbRecordings(); i++) {
            auto& r = a.at(i);
            auto d = h.find(r.dataHash);
            if (d == h.end())
                o << "missing";
            else
                for (auto x : d->second)
                    o << gg::handlerText(x.get()) << "|";
            o << gg::bits(r.result) << " ";
        }
        o << h.size();
        return o.str();
    }
    // An agent with all it refers to.
    struct World
    {
        std::unique_ptr<gg::ISet> is;
        std::unique_ptr<Learn::LearningEnvironment> le;
        std::unique_ptr<Learn::LearningAgent> a;
        Learn::LearningEnvironment* env;
        World(const Config& c, Learn::LearningEnvironment* shared = nullptr)
        {
            is = c.params == 2 ? gg::basicSet() : coarseSet();
            auto p = parameters(c);
            switch (c.kind) {
            case 0:
            case 1:
                if (!shared)
                    le.reset(new gg::Game(3, c.params == 3));
                break;
            case 2:
                if (!shared)
                    le.reset(new Classes(2));
                break;
            default:
                if (!shared)
                    le.reset(new Duel(3));
            }
            auto& e = shared ? *shared : *le;
            env = &e;
            if (c.kind == 0)
                a.reset(new Learn::LearningAgent(e, is->set, p));
            else if (c.kind == 1)
                a.reset(new Learn::ParallelLearningAgent(e, is->set, p));
            else if (c.kind == 2)
                a.reset(new Learn::ClassificationLearningAgent<
                        Learn::LearningAgent>(
                    (Learn::ClassificationLearningEnvironment&)e, is->set, p));
            else
                a.reset(new Learn::AdversarialLearningAgent(e, is->set, p, 2));
        }
    };
    enum Observers
    {
        NONE,
        LOGGERS,
        EXPORTS,
        TESTING,
        NOBSERVERS
    };
    const char* OBS[] = {"nothing", "loggers", "exports", "tests"};
    std::string dir; // of this process
    std::string scratch()
    {
        return dir + fmt("/%d", (int)getpid());
    }
    std::string fileText(const std::string& f)
    {
        std::string t;
        if (FILE* i = fopen(f.c_str(), "r")) {
            char b[4096];
            size_t n;
            while ((n = fread(b, 1, sizeof b, i)) > 0)
                t.append(b, n);
            fclose(i);
        }
        return t;
    }
    // One step of the trace.
    struct Trace
    {
        std::vector<std::string> v;
        void add(const char* what, const std::string& t)
        {
            bool was = mem::active;
            mem::active = false;
            v.push_back(std::string(what) + ": " + t.c_str());
            mem::active = was;
        }
    };
    void follow(World& w, const Config& c, int gens, Trace& t, int observer)
    {
        auto& a = *w.a;
        auto& le = *w.env;
        auto& g = *a.getTPGGraph();
        std::ostringstream sink;
        std::unique_ptr<Log::LALogger> l1, l2, l3;
        if (observer == LOGGERS) {
            l1.reset(new Log::LABasicLogger(a, sink));
            l2.reset(new Log::LAPolicyStatsLogger(a, sink));
            l3.reset(new Log::CycleDetectionLALogger(a, sink, true));
        }
        // loggers are registered for ever: the agent must not be used after
        ln::Mon m(a);
        m.onPopulate = [&] { t.add("populated", gg::graphText(g)); };
        m.onEvaluate = [&](gg::Results& r) {
            gg::GraphNames n;
            gg::graphText(g, &n, false);
            t.add("results", gg::resultsText(r, n));
        };
        m.onValidate = [&](gg::Results& r) {
            gg::GraphNames n;
            gg::graphText(g, &n, false);
            t.add("validation", gg::resultsText(r, n));
        };
        t.add("start", gg::graphText(g));
        for (int i = 0; i < gens; i++) {
            a.trainOneGeneration(i);
            gg::GraphNames n;
            t.add("selected", gg::graphText(g, &n));
            auto b = a.getBestRoot();
            t.add("best",
                  fmt("v%d %s %s", b.first ? n.v.at(b.first) : -1,
                      b.second ? gg::resultText(*b.second).c_str() : "none",
                      gg::bits(a.getBestScoreLastGen()).c_str()));
            t.add("archive", archiveContent(a.getArchive()));
            Mutator::RNG r = a.getRNG();
            t.add("generator", fmt("%zu", (size_t)r.getUnsignedInt64(0, ~0ULL)));
            if (observer == EXPORTS) {
                std::string f = scratch() + "x.dot";
                File::TPGGraphDotExporter e(f.c_str(), g);
                e.print();
                TPG::PolicyStats s;
                s.setEnvironment(a.getEnvironment());
                for (auto v : g.getRootVertices())
                    s.analyzePolicy(v);
            }
            if (observer == TESTING) {
                a.evaluateAllRoots(i, LearningMode::TESTING);
                a.evaluateOneRoot(i, LearningMode::VALIDATION,
                                  g.getRootVertices().front());
            }
        }
        // what is written about the result
        std::string f = scratch() + "y.dot";
        {
            File::TPGGraphDotExporter e(f.c_str(), g);
            e.print();
        }
        std::string dot = fileText(f); // without the date of the first line
        t.add("export", dot.substr(std::min(dot.size(), dot.find("digraph"))));
        for (auto v : g.getRootVertices()) {
            TPG::PolicyStats s;
            s.setEnvironment(a.getEnvironment());
            s.analyzePolicy(v);
            if (s.nbUsagePerDataLocation.empty())
                continue;
            std::ostringstream o;
            o << s;
            t.add("statistics", o.str());
        }
        // use the policies
        le.reset(1, LearningMode::TESTING);
        TPG::TPGExecutionEngine tee(a.getEnvironment());
        for (auto v : g.getRootVertices()) {
            std::string path;
            gg::GraphNames n;
            gg::graphText(g, &n, false);
            for (auto x : tee.executeFromRoot(*v))
                path += fmt("%d ", n.v.at(x));
            t.add("path", path);
        }
    }
    std::vector<std::string>& reference(const Config& c, int gens)
    {
        static std::map<std::pair<Config, int>, std::vector<std::string>> memo;
        auto it = memo.find({c, gens});
        if (it != memo.end())
            return it->second;
        Trace t, first;
        {
            // fills the caches which are not part of an agent
            for (int k = 0; k < 4; k++) {
                Config d = c;
                d.kind = k;
                for (d.params = 0; d.params < NPARAMS; d.params++) {
                    World w(d);
                    w.a->init(c.seed);
                    follow(w, d, 1, first, NONE);
                }
            }
        }
        mem::start(mem::UP, 0);
        {
            mem::Region r;
            World w(c);
            w.a->init(c.seed);
            follow(w, c, gens, t, NONE);
        }
        return memo[{c, gens}] = t.v;
    }
    void compare(const Config& c, int gens, const std::vector<std::string>& got,
                 const char* key)
    {
        auto& want = reference(c, gens);
        for (size_t i = 0; i < want.size() && i < got.size(); i++)
            if (want[i] != got[i]) {
                size_t k = 0;
                while (k < want[i].size() && want[i][k] == got[i][k])
                    k++;
                k = k > 20 ? k - 20 : 0;
                VP_CHECK(false, key, "step %zu differs: ...%s instead of ...%s",
                         i, got[i].substr(k, 80).c_str(),
                         want[i].substr(k, 80).c_str());
            }
        VP_CHECK(want.size() == got.size(), key, "%zu steps instead of %zu",
                 got.size(), want.size());
    }
    void probe()
    {
        auto is = gg::basicSet();
        Data::PrimitiveTypeArray<double> d(1);
        Environment env(is->set, {d}, 2);
        mem::start(mem::UP, 0);
        mem::Region r;
        auto p = std::make_shared<Program::Program>(env);
        p.reset();
        mem::active = false;
        // the block of the program is the first one allocated
        mem::programBlock = *(size_t*)mem::base - 16;
    }
    const int NHIST = 9;
    const char* HIST[] = {"first use",
                          "after another agent was destroyed",
                          "while another agent exists",
                          "after another seed",
                          "after the same seed",
                          "after keeping the best policy",
                          "after an evaluation and a cleaning",
                          "after many data were created",
                          "after another training in the same environment"};

    void run(Chooser& ch, const Config& c, int gens, mem::Policy pol,
             unsigned char pattern, int hist, int observer, const char* key)
    {
        vp::describe(fmt("%s agent, seed %d, parameters %d, %d generations, "
                         "memory %s filled with %02x, %s, observed by %s: ",
                         KINDS[c.kind], c.seed, c.params, gens,
                         mem::NAMES[pol], pattern, HIST[hist], OBS[observer]));
        reference(c, gens);
        Trace t;
        mem::ch = &ch;
        mem::start(pol, pattern);
        {
            mem::Region r;
            std::unique_ptr<World> other;
            std::vector<std::unique_ptr<Data::PrimitiveTypeArray<double>>> ds;
            Config oc = c;
            oc.params = (c.params + 1) % NPARAMS;
            oc.kind = (c.kind + 1) % 4;
            auto use = [&](Learn::LearningAgent& a, int seed, int n) {
                a.init(seed);
                for (int i = 0; i < n; i++)
                    a.trainOneGeneration(i);
            };
            if (hist == 1 || hist == 2) {
                other.reset(new World(oc));
                use(*other->a, 3, 2);
                if (hist == 1)
                    other.reset();
            }
            if (hist == 7)
                for (int i = 0; i < 37; i++)
                    ds.emplace_back(new Data::PrimitiveTypeArray<double>(2));
            World w(c);
            if (hist == 8) {
                other.reset(new World(c, w.le.get()));
                use(*other->a, 11, 1);
            }
            switch (hist) {
            case 3:
                use(*w.a, c.seed + 1, 2);
                break;
            case 4:
                use(*w.a, c.seed, 3);
                break;
            case 5:
                use(*w.a, c.seed, 2);
                w.a->keepBestPolicy();
                break;
            case 6:
                use(*w.a, c.seed + 5, 2);
                w.a->evaluateAllRoots(1, LearningMode::TRAINING);
                w.a->getTPGGraph()->clearProgramIntrons();
                break;
            }
            w.a->init(c.seed);
            follow(w, c, gens, t, observer);
        }
        mem::ch = nullptr;
        vp::count("operations", gens);
        vp::count("episodes");
        std::string all;
        for (auto& s : t.v)
            all += s;
        vp::distinct("states", vp::digest(all));
        compare(c, gens, t.v, key);
    }
} // namespace

void vp_main()
{
    bool T = vp::opt.thorough();
    char t[] = "/tmp/vp-det-XXXXXX";
    dir = mkdtemp(t);
    probe();
    int seeds = T ? 12 : 4, gens = T ? 6 : 4;
    vp::explore(
        "memory",
        [&](Chooser& ch) {
            Config c;
            c.kind = ch.pick(4);
            c.params = ch.pick(NPARAMS);
            c.seed = ch.pick(seeds);
            auto pol = (mem::Policy)ch.pick(mem::DECIDE);
            unsigned char pats[] = {0x00, 0xff, 0xa5};
            run(ch, c, gens, pol, pats[ch.pick(3)], 0, NONE,
                pol >= mem::LIFO ? "memory-reuse" : "memory-address");
        },
        {.splitDepth = 3});
    vp::bound("memory", fmt("4 kinds of agents, %d parameter sets, %d seeds, %d generations; 5 policies of addresses, 3 initial contents", NPARAMS, seeds, gens));
    vp::bound("large", "20 roots, 12 generations (thorough: 25), 4 kinds of "
                       "agents, 5 policies of addresses");
    vp::explore(
        "large",
        [&](Chooser& ch) {
            Config c;
            c.kind = ch.pick(4);
            c.params = 4;
            c.seed = ch.pick(T ? 8 : 5);
            auto pol = (mem::Policy)ch.pick(mem::DECIDE);
            run(ch, c, T ? 25 : 12, pol, 0xa5, 0, NONE,
                pol >= mem::LIFO ? "memory-reuse" : "memory-address");
        },
        {.splitDepth = 3});
    vp::explore(
        "histories",
        [&](Chooser& ch) {
            Config c;
            c.kind = ch.pick(4);
            c.params = ch.pick(NPARAMS);
            c.seed = ch.pick(seeds);
            int h = ch.pick(NHIST);
            int o = ch.pick(NOBSERVERS);
            if (o == TESTING && c.kind == 3)
                ch.prune(); // champions follow the last evaluation
            mem::Policy ps[] = {mem::UP, mem::LIFO, mem::FIFO};
            run(ch, c, gens, ps[ch.pick(3)], 0xa5, h, o, "history");
        },
        {.splitDepth = 3});
    vp::bound("histories", fmt("9 previous uses, 4 kinds of observers, 3 policies of addresses"));
    vp::explore(
        "addresses of programs",
        [&](Chooser& ch) {
            Config c;
            c.kind = ch.pick(4);
            c.params = ch.pick(NPARAMS);
            c.seed = ch.pick(T ? 6 : 2);
            run(ch, c, T ? 4 : 3, mem::DECIDE, 0xa5, 0, NONE, "memory-reuse");
        },
        {.maxDev = T ? 2 : 1, .splitDepth = 3});
    vp::bound("addresses of programs", fmt("each new program at a fresh address or at that of any removed program, up to %d times", T ? 2 : 1));
    std::filesystem::remove_all(dir);
}
