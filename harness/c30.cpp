#include "gen.hpp"
#include <libnurbs/Core/BoundingBox.hpp>
using namespace gen;
using libnurbs::Mat3x3;

static double factor(Case& c)
{
    switch (c.pick({30, 30, 18, 2}))
    {
    case 0: return std::ldexp(1.0, c.range(0, 20) - 10);
    case 1: return c.range(1, 200) / 16.0;
    case 2: return std::pow(10.0, c.unit() * 8 - 4);
    default: return std::pow(10.0, c.range(0, 60) - 30) * (1 + c.unit()); // far away from the usual scale
    }
}

// same Cartesian points, weights times f
static void scaled(Case& c, const std::vector<Vec4>& a, const std::vector<Vec4>& b, double f, L scale, L tol, const char* what)
{
    c.check(a.size() == b.size(), [&](std::ostream& o) { o << what << ": number of control points depends on the weight factor"; });
    for (size_t i = 0; i < a.size(); ++i)
    {
        L e = 0;
        for (int k = 0; k < 3; ++k) e = std::max(e, std::fabs((L)a[i][k] - (L)b[i][k]));
        c.check(within(c, e, tol * (scale + 1e-200L)), [&](std::ostream& o) { o << what << ": control point " << i << " depends on the common weight factor " << f << " (differs by " << (double)e << ")"; });
        L w = (L)a[i].w() * f;
        c.check(within(c, std::fabs((L)b[i].w() - w), tol * std::fabs(w)), [&](std::ostream& o) { o << what << ": weight " << i << " is " << b[i].w() << ", expected " << (double)w; });
    }
}

// sets weights so that rationality is known; returns it
static bool setWeights(Case& c, std::vector<Vec4>& P, bool& known)
{
    known = true;
    switch (c.pick({3, 3, 2}))
    {
    case 0:
    {
        double w = factor(c);
        for (auto& q : P) q.w() = w;
        c.label("equal weights");
        return false;
    }
    case 1:
    {
        // one weight differs, possibly by one unit in the last place
        double w = factor(c);
        for (auto& q : P) q.w() = w;
        size_t i = c.draw(P.size());
        switch (c.pick({2, 2, 1, 1}))
        {
        case 0: P[i].w() = w * 2; break;
        case 1: P[i].w() = w * (1 + std::pow(10.0, -c.range(1, 12))); break;
        case 2: P[i].w() = std::nextafter(w, 1e300); break;
        default: P[i].w() = std::nextafter(w, 0.0); break;
        }
        c.label("one weight differs");
        return P.size() > 1;
    }
    default:
    {
        bool r = false;
        for (auto& q : P) r = r || q.w() != P[0].w();
        c.label(r ? "general weights" : "equal weights");
        return r;
    }
    }
}

static Mat3x3 matrix(Case& c)
{
    Mat3x3 m;
    for (int i = 0; i < 9; ++i) m(i / 3, i % 3) = c.range(0, 6) - 3;
    return m;
}

static void onCurve(Case& c)
{
    Curve q = curve(c, {.maxDegree = 5, .k = {.maxDistinct = 4, .rareDistinct = 12, .maxRatio = 32, .veryRare = 200}, .weightStyle = 3});
    bool known, rational = setWeights(c, q.ControlPoints, known);
    double f = factor(c);
    Curve s = q;
    for (auto& x : s.ControlPoints) x.w() *= f;
    c.log([&](std::ostream& o) { put(o, q); o << " factor " << f; });
    c.check(q.IsRational() == rational, [&](std::ostream& o) { o << "IsRational is " << q.IsRational(); });
    auto sz = ref::sizeOf(q.ControlPoints);
    const L ratio = std::max<L>(10, sz.ratio());
    for (int k = 0; k < 2; ++k)
    {
        double u = param(c, q.Knots.Values());
        int order = c.range(0, 4);
        auto a = q.EvaluateAll(u, order), b = s.EvaluateAll(u, order);
        auto S = ref::curveDers(q.Degree, q.Knots.Values(), q.ControlPoints, u, order);
        for (int d = 0; d <= order; ++d)
        {
            L e = (a[d] - b[d]).stableNorm();
            c.check(within(c, e, 1e-10L * (S.S[d] + 1e-200L)), [&](std::ostream& o) { o << "derivative " << d << " at " << u << " depends on the common weight factor " << f << " (differs by " << (double)e << ")"; });
        }
        L e = (q.Evaluate(u) - s.Evaluate(u)).norm();
        c.check(within(c, e, 1e-11L * (sz.maxP + 1e-200L)), [&](std::ostream& o) { o << "the point at " << u << " depends on the common weight factor " << f; });
    }
    switch (c.pick({3, 3, 2, 1, 1}))
    {
    case 0:
    {
        std::vector<double> v{interiorParam(c, q.Knots.Values())};
        if (c.chance(50)) v.push_back(interiorParam(c, q.Knots.Values()));
        if (v.size() == 2 && std::fabs(v[0] - v[1]) < 1e-4) v[1] = v[0];
        if (v.size() == 2 && v[0] == v[1] && q.Degree < 2) v.pop_back();
        auto a = q.InsertKnot(v), b = s.InsertKnot(v);
        c.check(same(a.Knots.Values(), b.Knots.Values()), "insertion: knots depend on the weights");
        scaled(c, a.ControlPoints, b.ControlPoints, f, sz.maxP, 1e-10L * ratio, "insertion");
        auto a1 = q.InsertKnot(v[0]), b1 = s.InsertKnot(v[0]);
        scaled(c, a1.ControlPoints, b1.ControlPoints, f, sz.maxP, 1e-10L * ratio, "single insertion");
        c.label("insertion");
        break;
    }
    case 1:
    {
        int n = c.range(1, 2);
        auto a = q.ElevateDegree(n), b = s.ElevateDegree(n);
        c.check(same(a.Knots.Values(), b.Knots.Values()) && a.Degree == b.Degree, "elevation: knots depend on the weights");
        scaled(c, a.ControlPoints, b.ControlPoints, f, sz.maxP, 1e-7L * ratio, "elevation");
        c.label("elevation");
        break;
    }
    case 2:
    {
        auto a = q.ExtractBezier(), b = s.ExtractBezier();
        c.check(a.size() == b.size(), "the number of Bezier pieces depends on the weights");
        for (size_t i = 0; i < a.size(); ++i) scaled(c, a[i].ControlPoints, b[i].ControlPoints, f, sz.maxP, 1e-10L * ratio, "extraction");
        c.label("extraction");
        break;
    }
    case 3:
    {
        Mat3x3 R = matrix(c);
        scaled(c, q.Transform(R).ControlPoints, s.Transform(R).ControlPoints, f, 9 * sz.maxP, 1e-12L, "transform");
        c.label("transform");
        break;
    }
    default:
    {
        if (sz.maxP > 1e4L || sz.maxP < 1e-1L || q.ControlPoints.size() > 10) return;
        double eps = 0.01 * (double)sz.maxP;
        auto a = q.GetBoundingBox(eps), b = s.GetBoundingBox(eps);
        c.check((a.Min - b.Min).cwiseAbs().maxCoeff() <= 2.1 * eps && (a.Max - b.Max).cwiseAbs().maxCoeff() <= 2.1 * eps, "the bounding box depends on the common weight factor");
        c.label("bounding box");
    }
    }
    if (f != 1) c.nontrivial();
}

static void onSurface(Case& c)
{
    Surface q = surface(c, {.maxDegree = 4, .k = {.maxDistinct = 3, .rareDistinct = 5, .maxRatio = 32}, .weightStyle = 3, .longDir = 300});
    bool known, rational = setWeights(c, q.ControlPoints.Values, known);
    double f = factor(c);
    Surface s = q;
    for (auto& x : s.ControlPoints.Values) x.w() *= f;
    c.log([&](std::ostream& o) { put(o, q); o << " factor " << f; });
    c.check(q.IsRational() == rational, [&](std::ostream& o) { o << "IsRational is " << q.IsRational(); });
    auto sz = ref::sizeOf(q.ControlPoints.Values);
    const L ratio = std::max<L>(10, sz.ratio());
    for (int k = 0; k < 2; ++k)
    {
        double u = param(c, q.KnotsU.Values()), v = param(c, q.KnotsV.Values());
        int ou = c.range(0, 3), ov = c.range(0, 3);
        auto a = q.EvaluateAll(u, v, ou, ov), b = s.EvaluateAll(u, v, ou, ov);
        auto S = ref::surfDers(q, u, v, ou, ov);
        for (int i = 0; i <= ou; ++i)
            for (int j = 0; j <= ov; ++j)
            {
                L e = (a.Get(i, j) - b.Get(i, j)).stableNorm();
                c.check(within(c, e, 1e-10L * (S.s(i, j) + 1e-200L)), [&](std::ostream& o) { o << "derivative (" << i << "," << j << ") at (" << u << "," << v << ") depends on the common weight factor " << f << " (differs by " << (double)e << ")"; });
            }
        L e = (q.Evaluate(u, v) - s.Evaluate(u, v)).norm();
        c.check(within(c, e, 1e-11L * (sz.maxP + 1e-200L)), [&](std::ostream& o) { o << "the point at (" << u << "," << v << ") depends on the common weight factor " << f; });
    }
    const bool inV = c.chance(50);
    switch (c.pick({3, 3, 1}))
    {
    case 0:
    {
        double v = interiorParam(c, (inV ? q.KnotsV : q.KnotsU).Values());
        auto a = inV ? q.InsertKnotV(v) : q.InsertKnotU(v), b = inV ? s.InsertKnotV(v) : s.InsertKnotU(v);
        scaled(c, a.ControlPoints.Values, b.ControlPoints.Values, f, sz.maxP, 1e-10L * ratio, "insertion");
        int p = inV ? q.DegreeV : q.DegreeU, m = c.range(1, p);
        auto a2 = inV ? q.InsertKnotV(v, m) : q.InsertKnotU(v, m), b2 = inV ? s.InsertKnotV(v, m) : s.InsertKnotU(v, m);
        scaled(c, a2.ControlPoints.Values, b2.ControlPoints.Values, f, sz.maxP, 1e-10L * ratio, "repeated insertion");
        c.label("insertion");
        break;
    }
    case 1:
    {
        auto a = inV ? q.ElevateDegreeV() : q.ElevateDegreeU(), b = inV ? s.ElevateDegreeV() : s.ElevateDegreeU();
        scaled(c, a.ControlPoints.Values, b.ControlPoints.Values, f, sz.maxP, 1e-7L * ratio, "elevation");
        c.label("elevation");
        break;
    }
    default:
    {
        Mat3x3 R = matrix(c);
        scaled(c, q.Transform(R).ControlPoints.Values, s.Transform(R).ControlPoints.Values, f, 9 * sz.maxP, 1e-12L, "transform");
        c.label("transform");
    }
    }
    if (f != 1) c.nontrivial();
}

// many control points, of which at most one has another weight
static void large(Case& c)
{
    const int nu = c.range(1, 120), nv = c.range(1, 60);
    const size_t n = (size_t)nu * nv, at = c.draw(n);
    const double w = c.pick({1, 1}) ? 1.0 : c.range(1, 40) / 8.0;
    const bool other = n > 1 && c.chance(60);
    std::vector<Vec4> P(n, Vec4(1, 2, 3, w));
    if (other) P[at].w() = c.chance(50) ? std::nextafter(w, 100) : w + c.range(1, 9);
    Curve q;
    q.Degree = 1;
    q.ControlPoints = P;
    Surface s;
    s.DegreeU = s.DegreeV = 1;
    s.ControlPoints.UCount = nu;
    s.ControlPoints.VCount = nv;
    s.ControlPoints.Values = P;
    c.log([&](std::ostream& o) { o << nu << "x" << nv << " points of weight " << w; if (other) o << ", number " << at << " of weight " << P[at].w(); });
    c.check(q.IsRational() == other, [&](std::ostream& o) { o << "IsRational of the curve is " << q.IsRational(); });
    c.check(s.IsRational() == other, [&](std::ostream& o) { o << "IsRational of the surface is " << s.IsRational(); });
    c.label("many points");
}

static void prop(Case& c)
{
    if (c.pick({60, 1})) return large(c);
    if (c.chance(50))
    {
        c.label("surface");
        onSurface(c);
    }
    else
    {
        c.label("curve");
        onCurve(c);
    }
}

const pbt::Property THE_PROPERTY{"C30", prop, 400000, 10000000, "the common weight factor is not one"};
