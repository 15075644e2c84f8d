#include "gen.hpp"
using namespace gen;

static std::vector<double> elevatedKnots(const std::vector<double>& U, int n)
{
    std::vector<double> r = U;
    for (size_t i = 0; i < U.size(); ++i)
        if (i == 0 || U[i] != U[i - 1]) r.insert(r.end(), n, U[i]);
    std::sort(r.begin(), r.end());
    return r;
}

static bool nearKnots(const std::vector<double>& a, const std::vector<double>& b)
{
    bool ok = a.size() == b.size();
    for (size_t i = 0; ok && i < a.size(); ++i) ok = std::fabs(a[i] - b[i]) <= 1e-14;
    return ok;
}

static void prop(Case& c)
{
    const bool inV = c.chance(50);
    const int kind = c.pick({35, 1, 5});
    const int jumps = c.pick({9, 1});
    const bool high = kind == 1, close = kind == 2; // gentle knots and a wide tolerance or low degrees with close knots, see C13
    const int hp = high ? c.range(9, 14) : 0;
    Surface sf = close ? surface(c, {.maxDegree = 3, .k = {.maxDistinct = 3, .rareDistinct = 3, .maxRatio = 100000}, .extraMult = jumps, .wide = true, .maxFactor = 30})
                 : high ? surface(c, {.maxDegree = 2, .exactU = inV ? 0 : hp, .exactV = inV ? hp : 0, .k = {.maxDistinct = 2, .rareDistinct = 2, .maxRatio = 2}, .weightStyle = 2, .pointStyle = 2})
                      : surface(c, {.maxDegree = 5, .k = {.maxDistinct = 3, .rareDistinct = 6, .maxRatio = 64, .veryRare = 20}, .extraMult = jumps, .wide = true, .maxFactor = 30, .longDir = 300});
    c.label_if(high, "degree 9 to 14");
    c.label_if(close, "knots close together");
    const int p = inV ? sf.DegreeV : sf.DegreeU;
    int n = c.chance(50) ? c.range(1, 3) : 1;
    if (!high && c.pick({20, 1}) == 1) n = c.range(1, 9 - p);
    c.log([&](std::ostream& o) { put(o, sf); o << " elevate " << (inV ? "V" : "U") << " by " << n; });
    const auto U = inV ? sf.KnotsV.Values() : sf.KnotsU.Values();
    const int interior = (int)U.size() - 2 * p - 2;
    c.label(inV ? "V" : "U");
    c.label_if(interior == 0, "no interior knot");
    c.label_if(n > 1, "several elevations");
    c.label_if(sf.ControlPoints.UCount != sf.ControlPoints.VCount, "grid not square");
    if (interior > 0) c.nontrivial();
    auto sz = ref::sizeOf(sf.ControlPoints.Values);
    const L rel = high ? 1e-3L : 1e-8L * std::max<L>(10, sz.ratio());
    auto elevate = [&](const Surface& s, int k) { return inV ? (k == 1 && n % 2 ? s.ElevateDegreeV() : s.ElevateDegreeV(k)) : (k == 1 && n % 2 ? s.ElevateDegreeU() : s.ElevateDegreeU(k)); };
    const Surface before = sf;
    auto verify = [&](const Surface& r, int k, const char* what)
    {
        c.check(r.DegreeU == sf.DegreeU + (inV ? 0 : k) && r.DegreeV == sf.DegreeV + (inV ? k : 0), [&](std::ostream& o)
        { o << what << ": degrees " << r.DegreeU << "," << r.DegreeV << " from " << sf.DegreeU << "," << sf.DegreeV; });
        auto K = elevatedKnots(U, k);
        auto& got = inV ? r.KnotsV.Values() : r.KnotsU.Values();
        c.check(nearKnots(got, K), [&](std::ostream& o)
        {
            o << what << ": knot vector is ";
            put(o, got);
            o << ", expected ";
            put(o, K);
        });
        c.check(same(inV ? r.KnotsU.Values() : r.KnotsV.Values(), inV ? sf.KnotsU.Values() : sf.KnotsV.Values()), "elevation changed the other knot vector");
        c.check((inV ? r.ControlPoints.UCount : r.ControlPoints.VCount) == (inV ? sf.ControlPoints.UCount : sf.ControlPoints.VCount), "elevation changed the other count");
        c.check(wellFormed(r), [&](std::ostream& o) { o << what << ": grid " << r.ControlPoints.UCount << "x" << r.ControlPoints.VCount << " does not fit the knots"; });
        for (auto& q : r.ControlPoints.Values) c.check(q.w() > 0 && std::isfinite(q.w()), "elevation produced a non-positive weight");
        checkSameShape(c, sf, r, rel, what);
    };
    Surface e = elevate(sf, n);
    c.check(same(sf, before), "degree elevation modified the surface it was called on");
    verify(e, n, "elevation");
    if (n > 1 && c.chance(50))
    {
        int a = c.range(1, n - 1);
        verify(elevate(elevate(sf, a), n - a), n, "two-step elevation");
        c.label("two steps");
    }
    if (c.chance(50))
    {
        Surface t = transposed(sf);
        Surface r = transposed(inV ? t.ElevateDegreeU(n) : t.ElevateDegreeV(n));
        verify(r, n, "elevation of the transposed surface");
        c.label("transposed");
    }
}

const pbt::Property THE_PROPERTY{"C14", prop, 180000, 5000000, "the elevated direction has interior knots"};
