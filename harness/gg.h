// Shared pieces of the harnesses: small instruction sets and environments,
// canonical texts of graphs, programs and archives.
#ifndef GG_H
#define GG_H
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <gegelati.h>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

namespace gg {
    inline std::string bits(double d)
    {
        if (std::isnan(d))
            return "nan";
        uint64_t u;
        memcpy(&u, &d, 8);
        char b[32];
        snprintf(b, sizeof b, "%016llx", (unsigned long long)u);
        return b;
    }
    inline std::string num(double d)
    {
        char b[40];
        snprintf(b, sizeof b, "%.17g", d);
        return b;
    }

    // ------------------------------------------------------- instructions
    // Owns the instructions of a set.
    struct ISet
    {
        std::vector<std::unique_ptr<Instructions::Instruction>> owned;
        Instructions::Set set;
        template <class I, class... A> ISet& add(A&&... a)
        {
            owned.emplace_back(new I(std::forward<A>(a)...));
            set.add(*owned.back());
            return *this;
        }
    };
    inline double addF(double a, double b)
    {
        return a + b;
    }
    inline double subF(double a, double b)
    {
        return a - b;
    }
    // add and subtract of registers/doubles
    inline std::unique_ptr<ISet> basicSet()
    {
        auto s = std::make_unique<ISet>();
        s->add<Instructions::AddPrimitiveType<double>>();
        s->add<Instructions::LambdaInstruction<double, double>>(
            [](double a, double b) { return a - 2.0 * b; });
        return s;
    }

    // -------------------------------------------------- canonical texts
    inline std::string lineText(const Program::Line& l, size_t maxOp)
    {
        std::ostringstream o;
        o << l.getInstructionIndex() << ">" << l.getDestinationIndex();
        for (size_t i = 0; i < maxOp; i++)
            o << "," << l.getOperand(i).first << "@" << l.getOperand(i).second;
        return o.str();
    }
    inline std::string programText(const Program::Program& p,
                                   bool introns = true)
    {
        std::ostringstream o;
        size_t mo = p.getEnvironment().getMaxNbOperands();
        for (size_t i = 0; i < p.getNbLines(); i++)
            o << (introns && p.isIntron(i) ? "~" : "")
              << lineText(p.getLine(i), mo) << ";";
        size_t nc = p.getEnvironment().getNbConstant();
        if (nc) {
            o << "c";
            for (size_t i = 0; i < nc; i++)
                o << (int32_t)p.getConstantAt(i) << ",";
        }
        return o.str();
    }
    struct GraphNames
    {
        std::map<const TPG::TPGVertex*, int> v;
        std::map<const Program::Program*, int> p;
        std::map<const TPG::TPGEdge*, int> e;
    };
    inline std::string vertexText(const TPG::TPGVertex* v)
    {
        if (auto a = dynamic_cast<const TPG::TPGAction*>(v))
            return "A" + std::to_string(a->getActionID());
        if (dynamic_cast<const TPG::TPGTeam*>(v))
            return "T";
        return "?";
    }
    // Everything observable in a graph, in its order.
    inline std::string graphText(const TPG::TPGGraph& g,
                                 GraphNames* names = nullptr,
                                 bool programs = true)
    {
        GraphNames loc;
        GraphNames& n = names ? *names : loc;
        std::ostringstream o;
        for (auto v : g.getVertices()) {
            int k = (int)n.v.size();
            n.v[v] = k;
            o << "v" << k << vertexText(v) << " ";
        }
        std::vector<const Program::Program*> ps;
        for (auto& e : g.getEdges()) {
            int k = (int)n.e.size();
            n.e[e.get()] = k;
            const Program::Program* p =
                e->getProgramSharedPointer() ? &e->getProgram() : nullptr;
            int pk = -1;
            if (p) {
                auto it = n.p.find(p);
                if (it == n.p.end()) {
                    pk = (int)n.p.size();
                    n.p[p] = pk;
                    ps.push_back(p);
                }
                else
                    pk = it->second;
            }
            auto s = n.v.find(e->getSource()), d = n.v.find(e->getDestination());
            o << "e" << k << ":" << (s == n.v.end() ? -1 : s->second) << "->"
              << (d == n.v.end() ? -1 : d->second) << "p" << pk << " ";
        }
        for (auto v : g.getVertices()) {
            o << "v" << n.v[v] << "[";
            for (auto e : v->getOutgoingEdges())
                o << (n.e.count(e) ? n.e[e] : -1) << ",";
            o << "|";
            for (auto e : v->getIncomingEdges())
                o << (n.e.count(e) ? n.e[e] : -1) << ",";
            o << "] ";
        }
        if (programs)
            for (auto p : ps)
                o << "p" << n.p[p] << "{" << programText(*p) << "} ";
        return o.str();
    }
    inline std::string handlerText(const Data::DataHandler& h)
    {
        std::ostringstream o;
        size_t n = h.getLargestAddressSpace();
        for (size_t i = 0; i < n; i++) {
            if (h.canHandle(typeid(double)))
                o << bits(*(h.getDataAt(typeid(double), i)
                                .getSharedPointer<const double>()))
                  << ",";
            else if (h.canHandle(typeid(int)))
                o << *(h.getDataAt(typeid(int), i)
                           .getSharedPointer<const int>())
                  << ",";
        }
        return o.str();
    }
    inline std::string archiveText(const Archive& a, const GraphNames& n)
    {
        std::ostringstream o;
        std::map<const Program::Program*, int> dead;
        for (size_t i = 0; i < a.getNbRecordings(); i++) {
            auto& r = a.at(i);
            auto it = n.p.find(r.prog);
            if (it != n.p.end())
                o << "p" << it->second;
            else {
                int k = dead.emplace(r.prog, (int)dead.size()).first->second;
                o << "x" << k;
            }
            o << ":" << std::hex << r.dataHash << std::dec << "="
              << bits(r.result) << " ";
        }
        for (auto& d : a.getDataHandlers()) {
            o << std::hex << d.first << std::dec << "{";
            for (auto h : d.second)
                o << handlerText(h.get()) << "|";
            o << "} ";
        }
        return o.str();
    }
    inline std::string resultText(const Learn::EvaluationResult& r)
    {
        std::string t = bits(r.getResult()) + "x" +
                        std::to_string(r.getNbEvaluation());
        if (auto c = dynamic_cast<const Learn::ClassificationEvaluationResult*>(
                &r)) {
            t += "(";
            for (auto d : c->getScorePerClass())
                t += bits(d) + ",";
            for (auto d : c->getNbEvaluationPerClass())
                t += std::to_string(d) + ",";
            t += ")";
        }
        return t;
    }
    using Results = std::multimap<std::shared_ptr<Learn::EvaluationResult>,
                                  const TPG::TPGVertex*>;
    inline std::string resultsText(const Results& r, const GraphNames& n)
    {
        std::ostringstream o;
        for (auto& p : r) {
            auto it = n.v.find(p.second);
            o << "v" << (it == n.v.end() ? -1 : it->second) << "="
              << resultText(*p.first) << " ";
        }
        return o.str();
    }

    // ------------------------------------------------ learning environment
    // A tiny deterministic game: the data changes with the actions and with
    // the seed given to reset(). Everything it does is recorded in its state.
    class Game : public Learn::LearningEnvironment
    {
      public:
        Data::PrimitiveTypeArray<double> data;
        Data::PrimitiveTypeArray<double> data2;
        size_t st = 1;
        double score = 0;
        uint64_t steps = 0, horizon = 3;
        bool copyable = true;
        // few scores: results are often equal
        bool coarse = false;
        bool twoSources;
        std::vector<uint64_t>* trace = nullptr;

        Game(uint64_t nbActions, bool two = false)
            : LearningEnvironment(nbActions), data(3), data2(2),
              twoSources(two)
        {
            reset(0);
        }
        Game(const Game& o) = default;
        LearningEnvironment* clone() const override
        {
            return copyable ? new Game(*this) : nullptr;
        }
        bool isCopyable() const override
        {
            return copyable;
        }
        void refresh()
        {
            for (size_t i = 0; i < 3; i++)
                data.setDataAt(typeid(double), i,
                               (double)((int)((st >> (4 * i)) % 7) - 3));
            if (twoSources)
                for (size_t i = 0; i < 2; i++)
                    data2.setDataAt(typeid(double), i,
                                    (double)((int)((st >> (5 * i + 2)) % 5)) /
                                        2.0);
        }
        void reset(size_t seed = 0,
                   Learn::LearningMode mode = Learn::LearningMode::TRAINING,
                   uint16_t it = 0, uint64_t gen = 0) override
        {
            st = (seed ^ (seed >> 17)) * 2862933555777941757ULL +
                 (size_t)mode * 977 + it * 31 + gen * 131;
            score = 0;
            steps = 0;
            refresh();
        }
        void doAction(uint64_t a) override
        {
            LearningEnvironment::doAction(a);
            steps++;
            st = (st + a + 1) * 6364136223846793005ULL + 1442695040888963407ULL;
            st ^= st >> 23;
            // sums depend on the order of their terms
            score += (double)((st >> 11) % 16) * 0.1 + (double)a / 3;
            refresh();
        }
        std::vector<std::reference_wrapper<const Data::DataHandler>>
        getDataSources() override
        {
            std::vector<std::reference_wrapper<const Data::DataHandler>> r;
            r.push_back(data);
            if (twoSources)
                r.push_back(data2);
            return r;
        }
        double getScore() const override
        {
            return coarse ? (double)((st >> 30) % 2) : score;
        }
        bool isTerminal() const override
        {
            return steps >= horizon;
        }
    };
} // namespace gg
#endif
