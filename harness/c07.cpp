#include "gen.hpp"
using namespace gen;

static void prop(Case& c)
{
    Surface s = surface(c, {.maxDegree = 12, .k = {.maxDistinct = 3, .rareDistinct = 8, .maxRatio = 1000000000, .veryRare = 40, .tiny = true}, .extraMult = 1, .weightStyle = 5, .wide = true, .maxFactor = 30, .longDir = 600});
    c.log([&](std::ostream& o) { put(o, s); });
    auto before = s;
    int pu = s.DegreeU, pv = s.DegreeV, nu = s.ControlPoints.UCount, nv = s.ControlPoints.VCount;
    bool rat = false;
    for (auto& q : s.ControlPoints.Values) rat |= q.w() != s.ControlPoints.Values[0].w();
    c.label_if(rat, "rational");
    c.label_if(nu != nv, "non-square grid");
    c.label_if(pu != pv, "different degrees");
    if (rat && nu != nv && nu > 2 && nv > 2) c.nontrivial();
    Surface t = transposed(s);
    double f = c.chance(50) ? c.range(1, 8) / 4.0 : std::pow(10.0, c.unit() * 4 - 2);
    Surface sc = s;
    for (auto& q : sc.ControlPoints.Values) q.w() *= f;
    int n = c.range(1, 4);
    for (int k = 0; k < n; ++k)
    {
        double u = param(c, s.KnotsU.Values()), v = param(c, s.KnotsV.Values());
        c.log([&](std::ostream& o) { o << "u=" << u << " v=" << v; });
        auto r = ref::surfDers(s, u, v, 0, 0);
        L tol = 1e-11L * r.S[0] + 1e-270L;
        const Vec3 g = s.Evaluate(u, v);
        c.check(within(c, ref::dist(ref::p3(g), r.D[0]), tol), [&](std::ostream& o)
        {
            o << "point at (" << u << "," << v << "): got ";
            put(o, g);
            o << ", definition gives ";
            put(o, r.D[0]);
        });
        c.check(within(c, ref::dist(ref::p3(t.Evaluate(v, u)), r.D[0]), tol), "exchanging the parameter directions changes the surface");
        c.check(within(c, ref::dist(ref::p3(sc.Evaluate(u, v)), r.D[0]), tol), "a common factor on the weights moves the point");
        int su = ref::span(s.KnotsU.Values(), u), sv = ref::span(s.KnotsV.Values(), v);
        for (int d = 0; d < 3; ++d)
        {
            double lo = 1e308, hi = -1e308;
            for (int j = 0; j <= pv; ++j)
                for (int i = 0; i <= pu; ++i)
                {
                    double x = s.ControlPoints.Values[(sv - pv + j) * nu + su - pu + i][d];
                    lo = std::min(lo, x);
                    hi = std::max(hi, x);
                }
            c.check(g[d] >= lo - (double)tol && g[d] <= hi + (double)tol, "point leaves the box of the active control points");
        }
        // boundary curves
        Curve b0 = isoU(s, 0), b1 = isoU(s, nv - 1), l0 = isoU(t, 0), l1 = isoU(t, nu - 1);
        c.check(ref::dist(ref::p3(s.Evaluate(u, 0.0)), ref::at(b0, u)) <= 1e-11L * ref::surfDers(s, u, 0, 0, 0).S[0] + 1e-270L, "v=0 is not the first boundary row");
        c.check(ref::dist(ref::p3(s.Evaluate(u, 1.0)), ref::at(b1, u)) <= 1e-11L * ref::surfDers(s, u, 1, 0, 0).S[0] + 1e-270L, "v=1 is not the last boundary row");
        c.check(ref::dist(ref::p3(s.Evaluate(0.0, v)), ref::at(l0, v)) <= 1e-11L * ref::surfDers(s, 0, v, 0, 0).S[0] + 1e-270L, "u=0 is not the first boundary column");
        c.check(ref::dist(ref::p3(s.Evaluate(1.0, v)), ref::at(l1, v)) <= 1e-11L * ref::surfDers(s, 1, v, 0, 0).S[0] + 1e-270L, "u=1 is not the last boundary column");
    }
    auto sz = ref::sizeOf(s.ControlPoints.Values);
    L etol = 1e-12L * sz.maxP + 1e-270L;
    for (int a = 0; a < 2; ++a)
        for (int b = 0; b < 2; ++b)
        {
            const Vec4& q = s.ControlPoints.Values[(b ? nv - 1 : 0) * nu + (a ? nu - 1 : 0)];
            c.check(ref::dist(ref::p3(s.Evaluate(a, b)), ref::p3(q.head<3>())) <= etol, "a corner control point is not interpolated");
        }
    c.check(same(s, before), "evaluation changed the surface");
}

const pbt::Property THE_PROPERTY{"C07", prop, 160000, 3000000,
    "rational surface with a non-square grid larger than 2 in both directions, 1-4 parameter pairs"};
