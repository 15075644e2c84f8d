#include "gen.hpp"
using namespace gen;

static std::vector<double> elevatedKnots(const std::vector<double>& U, int n)
{
    std::vector<double> r = U;
    for (size_t i = 0; i < U.size(); ++i)
        if (i == 0 || U[i] != U[i - 1]) r.insert(r.end(), n, U[i]);
    std::sort(r.begin(), r.end());
    return r;
}

// interior knots closer together than the 1e-6 at which knots count as equal: the result may differ by as much, but stays a
// curve of the raised degree near the original
static void cluster(Case& c)
{
    const int p = c.range(1, 4), n = c.range(1, 3);
    std::vector<double> U(p + 1, 0.0), at;
    const int groups = c.range(1, 3);
    for (int g = 0; g < groups; ++g)
    {
        const bool last = g + 1 == groups && c.chance(25);
        double x = g == 0 && c.pick({6, 1}) ? 1e-7 * c.range(1, 20) : last ? 1 - 1e-7 * c.range(1, 9) : (g + 1) / 4.0 + c.range(-50, 50) * 1e-3;
        at.push_back(x);
        const int m = c.range(1, p + 2);
        for (int i = 0; i < m; ++i)
        {
            U.push_back(x);
            x += 1e-8 * c.pick({1, 3}) * c.range(1, last ? 1 : 90);
            if (x >= 1) break;
        }
    }
    U.insert(U.end(), p + 1, 1.0);
    for (size_t i = p + 1; i + p + 1 < U.size(); ++i)
        if (std::count(U.begin(), U.end(), U[i]) > p + 1) throw pbt::Discard{};
    const size_t count = U.size() - p - 1;
    auto w = weights(c, count, 2, 0);
    auto P = points(c, count, 6, false);
    Curve cv;
    cv.Degree = p;
    cv.Knots = KnotVector(U);
    cv.ControlPoints.resize(count);
    for (size_t i = 0; i < count; ++i) cv.ControlPoints[i] << P[i].x(), P[i].y(), P[i].z(), w[i];
    c.log([&](std::ostream& o) { put(o, cv); o << " elevate by " << n; });
    c.label("knots closer than 1e-6");
    c.nontrivial();
    const Curve before = cv;
    Curve e = cv.ElevateDegree(n);
    c.check(same(cv, before), "ElevateDegree modified the curve it was called on");
    c.check(e.Degree == p + n, [&](std::ostream& o) { o << "elevated degree is " << e.Degree; });
    c.check(wellFormed(e), [&](std::ostream& o) { o << e.ControlPoints.size() << " control points for knots "; put(o, e.Knots.Values()); });
    const auto& K = e.Knots.Values();
    c.check(std::is_sorted(K.begin(), K.end()) && mult(K, 0) == p + n + 1 && mult(K, 1) == p + n + 1, [&](std::ostream& o) { o << "elevated knots are "; put(o, K); });
    for (auto& q : e.ControlPoints) c.check(q.w() > 0 && q.allFinite(), "elevation produced a non-positive weight or a control point that is not finite");
    auto sz = ref::sizeOf(cv.ControlPoints);
    const L tol = 1e-3L * std::max<L>(10, sz.ratio()) * (sz.maxP + 1e-30L);
    for (int i = 0; i <= 40; ++i)
    {
        const double u = i / 40.0;
        bool away = true;
        for (double x : at) away &= std::fabs(u - x) > 1e-3;
        if (!away) continue;
        auto x = ref::at(cv, u), y = ref::at(e, u);
        L d = ref::dist(x, y);
        c.check(within(c, d, tol), [&](std::ostream& o) { o << "curves differ at u=" << u << " by " << (double)d; });
    }
}

static void prop(Case& c)
{
    // the algorithm loses accuracy with the degree and the knot ratio: high degrees get gentle knots and a wide tolerance,
    // only low ones get knots as close as 2e-6 (knots closer than 1e-6 count as equal)
    const int kind = c.pick({26, 1, 4, 1});
    if (kind == 3) return cluster(c);
    const int jumps = c.pick({9, 1});
    const bool high = kind == 1, close = kind == 2;
    Curve cv = close ? curve(c, {.maxDegree = 3, .k = {.maxDistinct = 3, .rareDistinct = 3, .maxRatio = 100000}, .extraMult = jumps, .wide = true, .maxFactor = 30})
               : high ? curve(c, {.exactDegree = c.range(9, 18), .k = {.maxDistinct = 2, .rareDistinct = 3, .maxRatio = 2}, .weightStyle = 2, .pointStyle = 2})
                    : curve(c, {.maxDegree = 8, .k = {.maxDistinct = 5, .rareDistinct = 16, .maxRatio = 64, .veryRare = 80}, .extraMult = jumps, .wide = true, .maxFactor = 30});
    const int p = cv.Degree;
    int n = c.chance(50) ? c.range(1, high ? 24 - p : std::min(4, 12 - p)) : 1;
    if (!high && c.pick({20, 1}) == 1) n = c.range(1, 12 - p);
    c.label_if(high, "degree 9 to 18");
    c.label_if(close, "knots close together");
    c.log([&](std::ostream& o) { put(o, cv); o << " elevate by " << n; });
    const auto U = cv.Knots.Values();
    int distinct = 0, repeated = 0;
    for (size_t i = p + 1; i + p + 1 < U.size(); ++i)
    {
        distinct += U[i] != U[i - 1];
        repeated += U[i] == U[i - 1];
    }
    c.label_if(distinct == 0, "no interior knot");
    c.label_if(repeated > 0, "repeated interior knot");
    c.label_if(n > 1, "several elevations");
    c.label_if(cv.IsRational(), "rational");
    c.label_if(distinct > 8, "many spans");
    if (distinct > 0) c.nontrivial();
    auto sz = ref::sizeOf(cv.ControlPoints);
    const L rel = high ? 1e-3L : 1e-8L * std::max<L>(10, sz.ratio());

    const Curve before = cv;
    auto verify = [&](const Curve& r, int k, const char* what)
    {
        c.check(r.Degree == p + k, [&](std::ostream& o) { o << what << ": degree " << r.Degree << ", expected " << p + k; });
        auto K = elevatedKnots(U, k);
        bool ok = r.Knots.Values().size() == K.size();
        for (size_t i = 0; ok && i < K.size(); ++i) ok = std::fabs(r.Knots.Values()[i] - K[i]) <= 1e-14;
        c.check(ok, [&](std::ostream& o)
        {
            o << what << ": knot vector is ";
            put(o, r.Knots.Values());
            o << ", expected ";
            put(o, K);
        });
        c.check(wellFormed(r), [&](std::ostream& o) { o << what << ": " << r.ControlPoints.size() << " control points for " << K.size() << " knots of degree " << p + k; });
        for (auto& q : r.ControlPoints) c.check(q.w() > 0 && std::isfinite(q.w()), "elevation produced a non-positive weight");
        checkSameShape(c, cv, r, rel, what);
    };
    Curve e = n == 1 && c.chance(30) ? cv.ElevateDegree() : cv.ElevateDegree(n);
    c.check(same(cv, before), "ElevateDegree modified the curve it was called on");
    verify(e, n, "elevation");
    if (n > 1)
    {
        int a = c.range(1, n - 1);
        Curve s = cv.ElevateDegree(a).ElevateDegree(n - a);
        verify(s, n, "two-step elevation");
    }
}

const pbt::Property THE_PROPERTY{"C13", prop, 500000, 10000000, "the curve has interior knots"};
