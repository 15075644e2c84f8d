// Small property-based testing engine (choice-sequence based, in the style of
// Hypothesis/Conjecture): every random decision of a property goes through
// Case::draw(), the sequence of decisions is recorded, and shrinking works on
// that sequence.  0 is always the simplest decision.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <sstream>
#include <string>
#include <vector>

namespace pbt
{
    struct Discard {};

    struct Fail
    {
        std::string msg;
    };

    inline uint64_t splitmix(uint64_t& s)
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }

    class Case
    {
    public:
        static constexpr size_t MAX_CHOICES = 60000;

        // random mode
        Case(uint64_t seed, uint64_t* rec, volatile uint32_t* nrec) : m_State(seed), m_Rec(rec), m_NRec(nrec)
        {
            splitmix(m_State);
        }

        // replay mode
        Case(const uint64_t* choices, size_t n, uint64_t* rec, volatile uint32_t* nrec)
            : m_Replay(true), m_In(choices), m_InN(n), m_Rec(rec), m_NRec(nrec)
        {
        }

        // byte mode (coverage-guided fuzzing)
        Case(const uint8_t* data, size_t n, int /*tag*/) : m_Bytes(true), m_Data(data), m_DataN(n) {}

        uint64_t draw(uint64_t n)
        {
            uint64_t v = 0;
            if (m_Bytes)
            {
                uint64_t span = n - 1;
                while (span)
                {
                    v = v << 8 | (m_Pos < m_DataN ? m_Data[m_Pos++] : 0);
                    span >>= 8;
                }
                return v % n;
            }
            if (m_Count >= MAX_CHOICES) throw Discard{};
            if (m_Replay)
            {
                v = m_Count < m_InN ? m_In[m_Count] : 0;
                if (v >= n) v = n - 1;
            }
            else
            {
                v = n <= 1 ? 0 : splitmix(m_State) % n;
            }
            m_Rec[m_Count++] = v;
            *m_NRec = (uint32_t)m_Count;
            hash = (hash ^ (v + 0x9e37)) * 0x100000001b3ull;
            hash ^= hash >> 29;
            return v;
        }

        int range(int lo, int hi) { return lo + (int)draw((uint64_t)(hi - lo) + 1); }

        // true with probability pct/100; 0 -> false
        bool chance(int pct) { return (int)draw(100) >= 100 - pct; }

        // weighted alternative, the first is the simplest
        int pick(std::initializer_list<int> w)
        {
            int total = 0;
            for (int x : w) total += x;
            int d = (int)draw((uint64_t)total), k = 0;
            for (int x : w)
            {
                if (d < x) return k;
                d -= x;
                ++k;
            }
            return 0;
        }

        // [0,1), 0 simplest
        double unit() { return (double)draw(1ull << 53) / 9007199254740992.0; }

        double uniform(double lo, double hi) { return lo + unit() * (hi - lo); }

        template <class T>
        const T& of(const std::vector<T>& v) { return v[draw(v.size())]; }

        void label(const char* name)
        {
            for (auto& l : labels)
                if (l == name) return;
            labels.emplace_back(name);
        }

        void label_if(bool b, const char* name)
        {
            if (b) label(name);
        }

        void nontrivial() { isNontrivial = true; }

        template <class F>
        void log(F&& f)
        {
            if (!wantLog) return;
            f(out);
            out << "\n";
            if (sink) sink(out.str());
        }

        [[noreturn]] void fail(const std::string& m) { throw Fail{m}; }

        void check(bool ok, const char* m)
        {
            ++checks;
            if (!ok) fail(m);
        }

        template <class F>
        void check(bool ok, F&& f)
        {
            ++checks;
            if (ok) return;
            std::ostringstream os;
            os.precision(17);
            f(os);
            fail(os.str());
        }

        std::ostringstream out;
        std::function<void(const std::string&)> sink; // the log survives a crash of the case
        bool wantLog = false;
        bool isNontrivial = false;
        bool thorough = false;
        uint64_t hash = 0xcbf29ce484222325ull;
        uint64_t checks = 0;
        std::vector<std::string> labels;
        double worst = 0; // worst error / tolerance ratio seen (for margin reporting)

    private:
        bool m_Replay = false, m_Bytes = false;
        uint64_t m_State = 0;
        const uint64_t* m_In = nullptr;
        size_t m_InN = 0;
        const uint8_t* m_Data = nullptr;
        size_t m_DataN = 0, m_Pos = 0;
        uint64_t* m_Rec = nullptr;
        volatile uint32_t* m_NRec = nullptr;
        size_t m_Count = 0;
    };

    struct Property
    {
        const char* id;
        void (*fn)(Case&);
        long quick;    // cases, quick tier
        long thorough; // cases, thorough tier
        const char* rule; // what makes a case non-trivial
        bool repeatFlaky = false; // schedule dependent: replay many times
    };
}

namespace pbt
{
    const std::string& tmpDir(); // scratch directory of this run, removed afterwards
}

// every harness defines exactly one of these
extern const pbt::Property THE_PROPERTY;
