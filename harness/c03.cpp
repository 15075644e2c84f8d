#include "gen.hpp"
#include <limits>
using namespace gen;

static bool refValid(const std::vector<double>& v)
{
    if (v.size() < 4) return false;
    for (double x : v)
        if (std::isnan(x)) return false;
    if (!(v.front() == 0.0) || !(v.back() == 1.0)) return false;
    for (size_t i = 1; i < v.size(); ++i)
        if (v[i] < v[i - 1]) return false;
    return true;
}

static void prop(Case& c)
{
    int kind = c.pick({6, 3, 3});
    std::vector<double> U;
    int p = -1;
    if (kind == 0) // clamped
    {
        p = degree(c, 24);
        U = knots(c, p, KnotOpt{.maxMult = p + 1, .maxRatio = 1000000000, .veryRare = 500, .tiny = true});
        c.label("clamped");
    }
    else // arbitrary end multiplicities
    {
        int a = c.range(1, 5), b = c.range(1, 5);
        auto in = distinctInterior(c, KnotOpt{.maxRatio = 1000000000, .veryRare = 500});
        U.assign(a, 0.0);
        for (double v : in) U.insert(U.end(), c.chance(30) ? c.range(1, 4) : 1, v);
        U.insert(U.end(), b, 1.0);
        c.label("free end multiplicities");
        if (kind == 2)
        {
            c.label("possibly invalid");
            int n = c.range(1, 2);
            for (int k = 0; k < n; ++k)
            {
                size_t i = c.draw(U.size());
                switch (c.pick({1, 1, 1, 1, 1, 1, 1, 1}))
                {
                case 0: U[i] = 0.5; break;
                case 1: U[i] = std::numeric_limits<double>::quiet_NaN(); break;
                case 2: U[i] = -U[i]; break;
                case 3: U.back() = 1 + 1e-9; break;
                case 4: U.front() = c.chance(50) ? 1e-12 : -1e-300; break;
                case 5: std::swap(U[i], U[c.draw(U.size())]); break;
                case 6: U.resize(c.draw(U.size() + 1)); break;
                default: U[i] = std::numeric_limits<double>::infinity(); break;
                }
                if (U.empty()) break;
            }
        }
    }
    KnotVector kv;
    kv.Values() = U;
    c.log([&](std::ostream& o) { o << "knots="; put(o, U); o << " degree=" << p; });
    c.check(kv.Count() == (int)U.size(), "Count differs from the number of knots");
    bool valid = refValid(U);
    c.label_if(!valid, "invalid vector");
    c.check(kv.IsValid() == valid, [&](std::ostream& o) { o << "validity reported " << kv.IsValid() << ", expected " << valid; });
    if (!valid) return;
    for (int i = 0; i < (int)U.size(); ++i) c.check(std::as_const(kv)(i) == U[i] && kv[i] == U[i], "element access differs");

    // distinct knots
    std::vector<double> val;
    std::vector<int> mul, first;
    for (size_t i = 0; i < U.size(); ++i)
    {
        if (val.empty() || U[i] != val.back())
        {
            val.push_back(U[i]);
            mul.push_back(0);
            first.push_back((int)i);
        }
        mul.back()++;
    }
    auto pairs = kv.GetKnotPairs();
    c.check(pairs.size() == val.size(), [&](std::ostream& o) { o << pairs.size() << " distinct knots reported, expected " << val.size(); });
    for (size_t i = 0; i < val.size(); ++i)
        c.check(pairs[i].Value == val[i] && pairs[i].Multiplicity == mul[i] && pairs[i].Index == first[i], [&](std::ostream& o)
        {
            o << "distinct knot " << i << ": got value " << pairs[i].Value << " multiplicity " << pairs[i].Multiplicity << " index " << pairs[i].Index
              << ", expected " << val[i] << "/" << mul[i] << "/" << first[i];
        });
    if (val.size() > 3) c.nontrivial();
    for (size_t i = 0; i < val.size(); ++i)
    {
        // the multiplicity query compares with a tolerance of 1e-6 and may count knots that close
        int close = 0;
        for (size_t k = 0; k < val.size(); ++k)
            if (std::fabs(val[k] - val[i]) < 2e-6) close += mul[k];
        const int got = kv.GetMultiplicity(val[i]);
        c.label_if(close != mul[i], "knots closer than the comparison tolerance");
        c.check(got >= mul[i] && got <= close, [&](std::ostream& o) { o << "multiplicity of " << val[i] << " reported " << got << ", expected " << mul[i]; });
    }
    {
        double q = c.unit();
        bool far = true;
        for (double v : val) far &= std::fabs(q - v) > 1e-5;
        if (far) c.check(kv.GetMultiplicity(q) == 0, "a value that is no knot has non-zero multiplicity");
    }
    c.check(kv.DetectDegree() == mul.front() - 1, [&](std::ostream& o) { o << "degree detected as " << kv.DetectDegree() << ", expected " << mul.front() - 1; });
    if (mul.front() >= 2 && mul.back() >= 2)
    {
        bool cl = mul.front() == mul.back();
        c.label_if(!cl, "unclamped");
        c.check(kv.IsClamped() == cl, [&](std::ostream& o) { o << "clamped reported " << kv.IsClamped() << ", expected " << cl; });
    }
    {
        double g0 = val[1] - val[0];
        bool allEq = true, someFar = false;
        for (size_t i = 1; i < val.size(); ++i)
        {
            double d = std::fabs((val[i] - val[i - 1]) - g0);
            allEq &= d < 1e-9;
            someFar |= d > 1e-5;
        }
        if (allEq) { c.label("uniform"); c.check(kv.IsUniform(), "equally spaced knots reported as not uniform"); }
        if (someFar) { c.label("not uniform"); c.check(!kv.IsUniform(), "unequally spaced knots reported as uniform"); }
    }
    // spans
    int n = c.range(1, 5);
    for (int k = 0; k < n; ++k)
    {
        double u = param(c, U);
        int s = ref::span(U, u);
        c.log([&](std::ostream& o) { o << "u=" << u; });
        if (p >= 0)
        {
            int got = kv.FindSpanIndex(p, u);
            c.check(got == s, [&](std::ostream& o) { o << "span index at u=" << u << ": got " << got << ", expected " << s; });
        }
        auto sp = kv.FindSpan(u);
        size_t j = 0;
        while (j + 2 < val.size() && val[j + 1] <= u) ++j;
        c.check(sp.Index == (int)j && sp.Left.Value == val[j] && sp.Right.Value == val[j + 1] && sp.Left.Multiplicity == mul[j] &&
                    sp.Right.Multiplicity == mul[j + 1] && sp.Left.Index == first[j] && sp.Right.Index == first[j + 1],
                [&](std::ostream& o)
                {
                    o << "span at u=" << u << ": got #" << sp.Index << " [" << sp.Left.Value << "," << sp.Right.Value << ") index " << sp.Left.Index << ".." << sp.Right.Index
                      << ", expected #" << j << " [" << val[j] << "," << val[j + 1] << ")";
                });
    }
    // nothing above may change the vector
    c.check(same(kv.Values(), U), "a query changed the knot vector");
}

const pbt::Property THE_PROPERTY{"C03", prop, 1500000, 40000000,
    "valid vector with at least two distinct interior knots (clamped or with free end multiplicities), queried at 1-5 parameters"};
