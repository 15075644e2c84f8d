#include "gen.hpp"
#include <libnurbs/Geometry/GeomRect.hpp>
#include <libnurbs/Geometry/GeomSegment.hpp>
using namespace gen;
using libnurbs::GeomRect;
using libnurbs::GeomSegment;

static bool uniform(int p, int n, const std::vector<double>& U)
{
    if ((int)U.size() != n + p + 1 || !clamped(p, U)) return false;
    int spans = n - p;
    for (int k = 1; k < spans; ++k)
        if (!(std::fabs(U[p + k] - (double)k / spans) < 1e-12)) return false;
    return true;
}

static int manyOr(Case& c, int many, int few, int extreme)
{
    int k = c.pick({3000, 800, 1});
    return k == 0 ? c.range(0, few) : k == 1 ? c.range(0, many) : c.range(0, extreme);
}

static void segment(Case& c)
{
    auto ps = points(c, 2);
    if (c.chance(5)) ps[1] = ps[0];
    int p = degree(c), n = p + 1 + manyOr(c, 60, 5, 2000);
    GeomSegment g = GeomSegment::Make(ps[0], ps[1]);
    if (c.chance(15)) p = 1, n = 2; // the defaults
    else
    {
        g.Degree = p;
        g.ControlPointCount = n;
    }
    c.log([&](std::ostream& o) { o << "segment "; put(o, ps[0]); o << " "; put(o, ps[1]); o << " degree " << p << " points " << n; });
    Curve q = g.GetCurve();
    c.check(q.Degree == p && (int)q.ControlPoints.size() == n, [&](std::ostream& o) { o << "wrong degree or count: "; put(o, q); });
    c.check(uniform(p, n, q.Knots.Values()), [&](std::ostream& o) { o << "knots are not uniform clamped: "; put(o, q); });
    L scale = std::max({1e-300, ps[0].norm(), ps[1].norm()});
    for (int i = 0; i < n; ++i)
    {
        L t = (L)i / (n - 1);
        L e = 0;
        for (int k = 0; k < 3; ++k) e = std::max(e, std::fabs((L)q.ControlPoints[i][k] - ((1 - t) * (L)ps[0][k] + t * (L)ps[1][k])));
        c.check(within(c, e, 1e-12L * scale) && q.ControlPoints[i].w() == 1, [&](std::ostream& o) { o << "control point " << i << " is off: "; put(o, q); });
    }
    // every curve point on the segment
    double u = param(c, q.Knots.Values());
    auto x = ref::at(q, u);
    Vec3 lib = q.Evaluate(u);
    Vec3 d = ps[1] - ps[0];
    L t = 0, dd = d.squaredNorm();
    if (dd > 0)
    {
        L dot = 0;
        for (int k = 0; k < 3; ++k) dot += (x.v[k] - (L)ps[0][k]) * (L)d[k];
        t = dot / dd;
    }
    L off = 0, diff = 0;
    for (int k = 0; k < 3; ++k)
    {
        off = std::max(off, std::fabs(x.v[k] - ((L)ps[0][k] + t * (L)d[k])));
        diff = std::max(diff, std::fabs(x.v[k] - (L)lib[k]));
    }
    c.check(within(c, off, 1e-11L * scale) && within(c, diff, 1e-11L * scale), [&](std::ostream& o) { o << "the point at " << u << " is off the line: "; put(o, lib); });
    if (dd > 1e-12L * scale * scale) c.check(t >= -1e-6L && t <= 1 + 1e-6L, "a curve point lies beyond the end points");
    if (n > 2) c.nontrivial();
    c.label("segment");
}

static void rect(Case& c)
{
    auto ps = points(c, 3);
    if (c.chance(30)) // axis-aligned
    {
        int a = c.range(0, 2), b = (a + c.range(1, 2)) % 3;
        double x = c.range(-4, 4), y = c.range(-4, 4);
        ps[1] = ps[2] = ps[0];
        ps[1][a] += x;
        ps[2][b] += y;
    }
    Vec3 lb = ps[0], rb = ps[1], lt = ps[2], rt = rb + lt - lb;
    int pu = degree(c, 6), pv = degree(c, 6), nu = pu + 1 + manyOr(c, 20, 4, 150), nv = pv + 1 + manyOr(c, 20, 4, 150);
    GeomRect g = GeomRect::Make(lb, rb, lt, rt);
    if (c.chance(10)) pu = pv = 1, nu = nv = 2;
    else
    {
        g.DegreeU = pu;
        g.DegreeV = pv;
        g.ControlPointCountU = nu;
        g.ControlPointCountV = nv;
    }
    c.log([&](std::ostream& o) { o << "rectangle "; put(o, lb); o << " "; put(o, rb); o << " "; put(o, lt); o << " degrees " << pu << "," << pv << " points " << nu << "x" << nv; });
    Surface q = g.GetSurface();
    c.check(q.DegreeU == pu && q.DegreeV == pv && q.ControlPoints.UCount == nu && q.ControlPoints.VCount == nv && (int)q.ControlPoints.Values.size() == nu * nv,
            [&](std::ostream& o) { o << "wrong degrees or counts: "; put(o, q); });
    c.check(uniform(pu, nu, q.KnotsU.Values()) && uniform(pv, nv, q.KnotsV.Values()), [&](std::ostream& o) { o << "knots are not uniform clamped: "; put(o, q); });
    L scale = std::max({1e-300, lb.norm(), rb.norm(), lt.norm()});
    for (int j = 0; j < nv; ++j)
        for (int i = 0; i < nu; ++i)
        {
            L s = (L)i / (nu - 1), t = (L)j / (nv - 1), e = 0;
            const Vec4& x = q.ControlPoints.Values[j * nu + i];
            for (int k = 0; k < 3; ++k) e = std::max(e, std::fabs((L)x[k] - ((L)lb[k] + s * ((L)rb[k] - (L)lb[k]) + t * ((L)lt[k] - (L)lb[k]))));
            c.check(within(c, e, 1e-12L * scale) && x.w() == 1, [&](std::ostream& o) { o << "control point (" << i << "," << j << ") is off: "; put(o, q); });
        }
    Vec3 corner[4] = {q.Evaluate(0, 0), q.Evaluate(1, 0), q.Evaluate(0, 1), q.Evaluate(1, 1)};
    Vec3 want[4] = {lb, rb, lt, rt};
    for (int k = 0; k < 4; ++k) c.check(within(c, (corner[k] - want[k]).norm(), 1e-11L * scale), [&](std::ostream& o) { o << "corner " << k << " is "; put(o, corner[k]); o << " instead of "; put(o, want[k]); });
    if (nu != nv || pu != pv) c.nontrivial();
    c.label("rectangle");
}

static void prop(Case& c) { c.chance(60) ? rect(c) : segment(c); }

const pbt::Property THE_PROPERTY{"C27", prop, 2500000, 25000000, "segment with more than two points, or rectangle with different counts or degrees in u and v"};
