#include "gen.hpp"
#include <limits>
#include <stdexcept>
using namespace gen;

template <class F>
static int outcome(F&& f) // 0 ok, 1 invalid_argument, 2 other
{
    try { f(); return 0; }
    catch (const std::invalid_argument&) { return 1; }
    catch (...) { return 2; }
}

static std::vector<KnotVector::KnotPair> toPairs(Case& c, const std::vector<double>& v, bool split)
{
    std::vector<KnotVector::KnotPair> r;
    for (size_t i = 0; i < v.size(); ++i)
    {
        if (!r.empty() && r.back().Value == v[i] && !(split && c.chance(20))) r.back().Multiplicity++;
        else r.emplace_back((int)i, v[i], 1);
    }
    return r;
}

static void prop(Case& c)
{
    int p = degree(c, 40);
    std::vector<double> U = knots(c, p, KnotOpt{.maxMult = p + 1, .maxRatio = 1000000000, .veryRare = 300, .tiny = true});
    if (c.chance(20))
    {
        // free end multiplicities
        auto in = distinctInterior(c, KnotOpt{.maxRatio = 1000000000, .veryRare = 300, .tiny = true});
        U.assign(c.range(1, 5), 0.0);
        U.insert(U.end(), in.begin(), in.end());
        U.insert(U.end(), c.range(1, 5), 1.0);
    }
    switch (c.pick({3, 2, 6}))
    {
    case 0: // invalid lists are rejected by both constructors
    {
        std::vector<double> bad = U;
        int why = c.pick({1, 2, 2, 2, 2, 1});
        size_t i = c.draw(bad.size());
        switch (why)
        {
        case 0: bad.clear(); break;
        case 1: // decreasing somewhere
        {
            size_t j = 1 + c.draw(bad.size() - 1);
            bad[j - 1] = bad[j] + std::pow(10.0, -c.range(0, 12));
            break;
        }
        case 2: bad[0] = -std::pow(10.0, -c.range(0, 300)); break;
        case 3: bad[i] = std::numeric_limits<double>::quiet_NaN(); break;
        case 4: bad.back() = c.chance(50) ? std::nextafter(1.0, 2.0) : (bad[bad.size() - 2] < 1 ? std::nextafter(1.0, 0.0) : 2.0); break;
        default: bad.erase(std::remove(bad.begin(), bad.end(), 1.0), bad.end()); if (bad.empty()) bad.push_back(0.5); break;
        }
        c.log([&](std::ostream& o) { o << "invalid list (kind " << why << "): "; put(o, bad); });
        c.label("invalid list");
        c.nontrivial();
        int a = outcome([&] { KnotVector k(bad); (void)k; });
        c.check(a == 1, [&](std::ostream& o) { o << "invalid knot list (kind " << why << ") was " << (a == 0 ? "accepted" : "rejected with another exception"); });
        std::vector<KnotVector::KnotPair> pr;
        for (size_t k = 0; k < bad.size(); ++k) pr.emplace_back((int)k, bad[k], 1);
        int b = outcome([&] { KnotVector k(pr); (void)k; });
        c.check(b == 1, [&](std::ostream& o) { o << "invalid knot pair list (kind " << why << ") was " << (b == 0 ? "accepted" : "rejected with another exception"); });
        return;
    }
    case 1: // uniform factory
    {
        int count = 2 * p + 2 + (c.chance(10) ? c.range(0, 200) : c.range(0, 12));
        c.log([&](std::ostream& o) { o << "Uniform(" << p << "," << count << ")"; });
        c.label("uniform factory");
        if (count > 2 * p + 3) c.nontrivial();
        KnotVector k = KnotVector::Uniform(p, count);
        auto& v = k.Values();
        c.check((int)v.size() == count && k.Count() == count, [&](std::ostream& o) { o << "uniform vector has " << v.size() << " knots, expected " << count; });
        int n = count - 2 * p - 2;
        for (int i = 0; i < count; ++i)
        {
            L e = i <= p ? 0.0L : i >= p + 1 + n ? 1.0L : (L)(i - p) / (n + 1);
            bool ok = (i <= p || i >= p + 1 + n) ? (L)v[i] == e : within(c, std::fabs(v[i] - e), 1e-13L);
            c.check(ok, [&](std::ostream& o) { o << "uniform knot " << i << " is " << v[i] << ", expected " << (double)e; });
            if (i > 0) c.check(v[i] >= v[i - 1], "uniform vector decreases");
        }
        c.check(k.IsValid(), "uniform vector is not valid");
        return;
    }
    default: break;
    }
    // history of edits
    KnotVector k;
    bool viaPairs = c.chance(50);
    if (viaPairs) k = KnotVector(toPairs(c, U, true));
    else k = KnotVector(U);
    c.log([&](std::ostream& o) { o << (viaPairs ? "from pairs " : "from values "); put(o, U); });
    c.check(same(k.Values(), U), "constructor did not store exactly the given knots");
    std::vector<double> model = U;
    int steps = c.pick({300, 1}) ? c.range(1, 300) : c.range(1, 24), ins = 0, rev = 0;
    for (int s = 0; s < steps; ++s)
    {
        if (c.pick({4, 1}) == 0)
        {
            double v = c.chance(40) ? model[c.draw(model.size())] : param(c, model);
            if (!(v > 0 && v < 1)) v = 0.5;
            int times = c.chance(30) ? c.range(0, 4) : 1;
            bool def = times == 1 && c.chance(50);
            c.log([&](std::ostream& o) { o << "insert " << v << " x" << times; });
            int expect = ref::span(model, v);
            int got = def ? k.InsertKnot(v) : k.InsertKnot(v, times);
            c.check(got == expect, [&](std::ostream& o) { o << "inserting " << v << " returned span " << got << " of the previous vector, expected " << expect; });
            model = sortedInsert(model, std::vector<double>(times, v));
            ++ins;
        }
        else
        {
            c.log([&](std::ostream& o) { o << "reverse"; });
            k.Reverse();
            std::reverse(model.begin(), model.end());
            for (auto& t : model) t = 1.0 - t;
            ++rev;
        }
        auto& v = k.Values();
        c.check(v.size() == model.size(), [&](std::ostream& o) { o << "after step " << s << " there are " << v.size() << " knots, expected " << model.size(); });
        for (size_t i = 0; i < v.size(); ++i)
            c.check(std::fabs(v[i] - model[i]) <= 1e-15, [&](std::ostream& o) { o << "after step " << s << " knot " << i << " is " << v[i] << ", expected " << model[i]; });
        for (size_t i = 1; i < v.size(); ++i) c.check(v[i - 1] <= v[i], "knots are not sorted");
        model = v; // identical up to the last bit of a mirrored value
    }
    c.label_if(rev > 0 && ins > 1, "insertions and reversals");
    if (ins + rev >= 3) c.nontrivial();
    // grouping into pairs and back is the identity
    KnotVector back(k.GetKnotPairs());
    c.check(same(back.Values(), k.Values()), "vector -> pairs -> vector is not the identity");
}

const pbt::Property THE_PROPERTY{"C04", prop, 1200000, 30000000,
    "an invalid list, a uniform vector with at least two interior knots, or a history of at least three edits"};
