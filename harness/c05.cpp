#include "gen.hpp"
using namespace gen;

static void prop(Case& c)
{
    Curve cv = curve(c, {.maxDegree = 18, .k = {.maxRatio = 1000000000, .veryRare = 300, .tiny = true}, .extraMult = 1, .weightStyle = 5, .wide = true, .maxFactor = 30});
    const auto& U = cv.Knots.Values();
    c.log([&](std::ostream& o) { put(o, cv); });
    auto before = cv;
    int n = c.range(1, 5);
    int p = cv.Degree;
    bool rat = false;
    for (auto& q : cv.ControlPoints) rat |= q.w() != cv.ControlPoints[0].w();
    c.label_if(rat, "rational");
    c.label_if(U.size() > 2 * (size_t)p + 2, "interior knots");
    if (rat && p >= 2 && (int)U.size() > 2 * p + 2) c.nontrivial();
    double f = c.chance(50) ? c.range(1, 8) / 4.0 : std::pow(10.0, c.unit() * 4 - 2);
    Curve scaled = cv;
    for (auto& q : scaled.ControlPoints) q.w() *= f;
    for (int k = 0; k < n; ++k)
    {
        double u = param(c, U);
        c.log([&](std::ostream& o) { o << "u=" << u; });
        c.label_if(mult(U, u) > 0 && u > 0 && u < 1, "u at interior knot");
        auto r = ref::curveDers(p, U, cv.ControlPoints, u, 0);
        const Vec3 g = cv.Evaluate(u);
        L tol = 1e-11L * r.S[0] + 1e-270L;
        L e = ref::dist(ref::p3(g), r.D[0]);
        c.check(within(c, e, tol), [&](std::ostream& o)
        {
            o << "point at u=" << u << ": got ";
            put(o, g);
            o << ", definition gives ";
            put(o, r.D[0]);
        });
        int s = ref::span(U, u);
        for (int d = 0; d < 3; ++d)
        {
            double lo = 1e308, hi = -1e308;
            for (int i = 0; i <= p; ++i)
            {
                lo = std::min(lo, cv.ControlPoints[s - p + i][d]);
                hi = std::max(hi, cv.ControlPoints[s - p + i][d]);
            }
            c.check(g[d] >= lo - (double)tol && g[d] <= hi + (double)tol, "point leaves the box of the active control points");
        }
        const Vec3 h = scaled.Evaluate(u);
        c.check(within(c, ref::dist(ref::p3(h), r.D[0]), tol), [&](std::ostream& o)
        {
            o << "scaling all weights by " << f << " moves the point at u=" << u << " from ";
            put(o, g);
            o << " to ";
            put(o, h);
        });
    }
    auto sz = ref::sizeOf(cv.ControlPoints);
    L etol = 1e-12L * sz.maxP + 1e-270L;
    Vec3 a = cv.Evaluate(0.0), b = cv.Evaluate(1.0);
    c.check(ref::dist(ref::p3(a), ref::p3(cv.ControlPoints.front().head<3>())) <= etol, "the first control point is not interpolated at 0");
    c.check(ref::dist(ref::p3(b), ref::p3(cv.ControlPoints.back().head<3>())) <= etol, "the last control point is not interpolated at 1");
    c.check(same(cv, before), "evaluation changed the curve");
}

const pbt::Property THE_PROPERTY{"C05", prop, 600000, 20000000,
    "rational curve of degree >= 2 with at least one interior knot, 1-5 parameters"};
