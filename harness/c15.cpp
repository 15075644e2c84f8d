#include "gen.hpp"
using namespace gen;
using libnurbs::Mat3x3;

static Mat3x3 matrix(Case& c, const char*& kind)
{
    Mat3x3 m = Mat3x3::Identity();
    switch (c.pick({1, 4, 2, 2, 2, 2, 1, 1, 2}))
    {
    case 0: kind = "identity"; break;
    case 1:
        kind = "integer";
        for (int i = 0; i < 9; ++i) m(i / 3, i % 3) = c.range(0, 8) - 4;
        break;
    case 2:
        kind = "random";
        for (int i = 0; i < 9; ++i) m(i / 3, i % 3) = c.unit() * 4 - 2;
        break;
    case 3:
    {
        kind = "rotation";
        double a = c.unit() * 6.283185307179586, b = c.unit() * 6.283185307179586;
        m << std::cos(a), -std::sin(a), 0, std::sin(a), std::cos(a), 0, 0, 0, 1;
        Mat3x3 n;
        n << 1, 0, 0, 0, std::cos(b), -std::sin(b), 0, std::sin(b), std::cos(b);
        m = m * n;
        break;
    }
    case 4:
        kind = "diagonal";
        for (int i = 0; i < 3; ++i) m(i, i) = c.range(0, 6) - 3;
        break;
    case 5:
    {
        kind = "permutation";
        m.setZero();
        int s = c.range(0, 5);
        int q[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {2, 1, 0}, {1, 0, 2}};
        for (int i = 0; i < 3; ++i) m(i, q[s][i]) = c.chance(50) ? -1 : 1;
        break;
    }
    case 6:
        kind = "singular";
        for (int i = 0; i < 3; ++i)
        {
            m(0, i) = c.range(-2, 2);
            m(1, i) = 2 * m(0, i);
            m(2, i) = c.range(0, 1);
        }
        break;
    case 8:
        kind = "near identity";
        for (int i = 0, e = c.range(1, 8); i < 9; ++i)
            if (c.chance(60)) m(i / 3, i % 3) += (c.range(0, 18) - 9) * std::pow(10.0, -e);
        break;
    default:
        kind = "scaled";
        m *= std::pow(10.0, c.range(-4, 4));
        m(0, 1) = c.range(-1, 1) * m(0, 0);
        break;
    }
    return m;
}

static ref::P3 apply(const Mat3x3& R, const ref::P3& x)
{
    ref::P3 r;
    for (int i = 0; i < 3; ++i)
        for (int k = 0; k < 3; ++k) r.v[i] += (L)R(i, k) * x.v[k];
    return r;
}

static L absSum(const Mat3x3& R)
{
    L s = 0;
    for (int i = 0; i < 9; ++i) s += std::fabs((L)R(i / 3, i % 3));
    return s;
}

// control points of b are R times those of a, weights equal
static void checkPoints(Case& c, const Mat3x3& R, const std::vector<Vec4>& a, const std::vector<Vec4>& b, L tol, const char* what)
{
    c.check(a.size() == b.size(), [&](std::ostream& o) { o << what << ": number of control points differs"; });
    for (size_t i = 0; i < a.size(); ++i)
    {
        auto x = apply(R, ref::p3(a[i].head<3>()));
        for (int k = 0; k < 3; ++k)
            c.check(within(c, std::fabs(x.v[k] - b[i][k]), tol), [&](std::ostream& o)
            { o << what << ": control point " << i << " component " << k << " is " << b[i][k] << ", expected " << (double)x.v[k]; });
    }
}

static void exactWeights(Case& c, const std::vector<Vec4>& a, const std::vector<Vec4>& b, const char* what)
{
    for (size_t i = 0; i < a.size() && i < b.size(); ++i)
        c.check(a[i].w() == b[i].w(), [&](std::ostream& o) { o << what << ": weight " << i << " changed from " << a[i].w() << " to " << b[i].w(); });
}

static void putM(std::ostream& o, const Mat3x3& m)
{
    o << "R=[";
    for (int i = 0; i < 9; ++i) o << (i ? "," : "") << m(i / 3, i % 3);
    o << "]";
}

static void onCurve(Case& c, const Mat3x3& R, const Mat3x3& Q)
{
    Curve cv = curve(c, {.maxDegree = 6, .k = {.maxDistinct = 4, .rareDistinct = 10, .maxRatio = 32, .veryRare = 200}, .wide = true, .maxFactor = 30});
    c.log([&](std::ostream& o) { put(o, cv); o << " "; putM(o, R); });
    auto sz = ref::sizeOf(cv.ControlPoints);
    const L tol = 1e-12L * (absSum(R) * sz.maxP + 1e-300L);
    const Curve before = cv;
    Curve t = cv.Transform(R);
    c.check(same(cv, before), "Transform modified the curve it was called on");
    c.check(t.Degree == cv.Degree && same(t.Knots.Values(), cv.Knots.Values()), "Transform changed degree or knots");
    checkPoints(c, R, cv.ControlPoints, t.ControlPoints, tol, "Transform");
    exactWeights(c, cv.ControlPoints, t.ControlPoints, "Transform");
    c.check(same(cv.Transform(Mat3x3::Identity()), cv), "the identity changed the curve");
    // points and derivatives
    for (int k = 0; k < 2; ++k)
    {
        double u = param(c, cv.Knots.Values());
        int order = c.range(0, 3);
        auto a = cv.EvaluateAll(u, order), b = t.EvaluateAll(u, order);
        auto scale = ref::curveDers(cv.Degree, cv.Knots.Values(), cv.ControlPoints, u, order);
        for (int d = 0; d <= order; ++d)
        {
            auto x = apply(R, ref::p3(a[d]));
            L e = ref::dist(x, ref::p3(b[d]));
            c.check(within(c, e, 1e-10L * (absSum(R) * scale.S[d] + 1e-200L)), [&](std::ostream& o)
            { o << "derivative " << d << " at " << u << " does not transform: error " << (double)e; });
        }
    }
    // composition
    Curve two = t.Transform(Q), one = cv.Transform(Q * R);
    checkPoints(c, Q, t.ControlPoints, two.ControlPoints, 1e-12L * (absSum(Q) * absSum(R) * sz.maxP + 1e-300L), "second transform");
    for (size_t i = 0; i < one.ControlPoints.size(); ++i)
        c.check(within(c, (one.ControlPoints[i] - two.ControlPoints[i]).norm(), 1e-11L * (absSum(Q) * absSum(R) * sz.maxP + 1e-300L)), "Transform does not compose as the matrix product");
    // commutation
    const L tolC = 1e-9L * std::max<L>(10, sz.ratio()) * (absSum(R) * sz.maxP + 1e-300L);
    switch (c.pick({1, 1, 1}))
    {
    case 0:
    {
        double v = interiorParam(c, cv.Knots.Values());
        checkPoints(c, R, cv.InsertKnot(v).ControlPoints, t.InsertKnot(v).ControlPoints, tolC, "insertion after transform");
        c.label("commutes with insertion");
        break;
    }
    case 1:
        checkPoints(c, R, cv.ElevateDegree(1).ControlPoints, t.ElevateDegree(1).ControlPoints, tolC * 1000, "elevation after transform");
        c.label("commutes with elevation");
        break;
    default:
    {
        auto a = cv.ExtractBezier(), b = t.ExtractBezier();
        c.check(a.size() == b.size(), "number of Bezier pieces changed by Transform");
        for (size_t k = 0; k < a.size(); ++k) checkPoints(c, R, a[k].ControlPoints, b[k].ControlPoints, tolC, "extraction after transform");
        c.label("commutes with extraction");
    }
    }
}

static void onSurface(Case& c, const Mat3x3& R, const Mat3x3& Q)
{
    Surface s = surface(c, {.maxDegree = 4, .k = {.maxDistinct = 3, .rareDistinct = 5, .maxRatio = 32, .veryRare = 24}, .wide = true, .maxFactor = 30, .longDir = 300});
    c.log([&](std::ostream& o) { put(o, s); o << " "; putM(o, R); });
    auto sz = ref::sizeOf(s.ControlPoints.Values);
    const L tol = 1e-12L * (absSum(R) * sz.maxP + 1e-300L);
    const Surface before = s;
    Surface t = s.Transform(R);
    c.check(same(s, before), "Transform modified the surface it was called on");
    c.check(t.DegreeU == s.DegreeU && t.DegreeV == s.DegreeV && same(t.KnotsU.Values(), s.KnotsU.Values()) && same(t.KnotsV.Values(), s.KnotsV.Values()), "Transform changed degrees or knots");
    c.check(t.ControlPoints.UCount == s.ControlPoints.UCount && t.ControlPoints.VCount == s.ControlPoints.VCount, "Transform changed the grid size");
    checkPoints(c, R, s.ControlPoints.Values, t.ControlPoints.Values, tol, "Transform");
    exactWeights(c, s.ControlPoints.Values, t.ControlPoints.Values, "Transform");
    c.check(same(s.Transform(Mat3x3::Identity()), s), "the identity changed the surface");
    for (int k = 0; k < 2; ++k)
    {
        double u = param(c, s.KnotsU.Values()), v = param(c, s.KnotsV.Values());
        int ou = c.range(0, 2), ov = c.range(0, 2);
        auto a = s.EvaluateAll(u, v, ou, ov), b = t.EvaluateAll(u, v, ou, ov);
        auto scale = ref::surfDers(s, u, v, ou, ov);
        for (int i = 0; i <= ou; ++i)
            for (int j = 0; j <= ov; ++j)
            {
                L e = ref::dist(apply(R, ref::p3(a.Get(i, j))), ref::p3(b.Get(i, j)));
                c.check(within(c, e, 1e-10L * (absSum(R) * scale.s(i, j) + 1e-200L)), [&](std::ostream& o)
                { o << "derivative (" << i << "," << j << ") at (" << u << "," << v << ") does not transform: error " << (double)e; });
            }
    }
    Surface two = t.Transform(Q), one = s.Transform(Q * R);
    for (size_t i = 0; i < one.ControlPoints.Values.size(); ++i)
        c.check(within(c, (one.ControlPoints.Values[i] - two.ControlPoints.Values[i]).norm(), 1e-11L * (absSum(Q) * absSum(R) * sz.maxP + 1e-300L)), "Transform does not compose as the matrix product");
    const L tolC = 1e-9L * std::max<L>(10, sz.ratio()) * (absSum(R) * sz.maxP + 1e-300L);
    switch (c.pick({1, 1, 1, 1}))
    {
    case 0:
    {
        double v = interiorParam(c, s.KnotsU.Values());
        checkPoints(c, R, s.InsertKnotU(v).ControlPoints.Values, t.InsertKnotU(v).ControlPoints.Values, tolC, "insertion in U after transform");
        break;
    }
    case 1:
    {
        double v = interiorParam(c, s.KnotsV.Values());
        checkPoints(c, R, s.InsertKnotV(v).ControlPoints.Values, t.InsertKnotV(v).ControlPoints.Values, tolC, "insertion in V after transform");
        break;
    }
    case 2: checkPoints(c, R, s.ElevateDegreeU(1).ControlPoints.Values, t.ElevateDegreeU(1).ControlPoints.Values, tolC * 1000, "elevation in U after transform"); break;
    default: checkPoints(c, R, s.ElevateDegreeV(1).ControlPoints.Values, t.ElevateDegreeV(1).ControlPoints.Values, tolC * 1000, "elevation in V after transform"); break;
    }
}

static void prop(Case& c)
{
    const char *k1 = "", *k2 = "";
    Mat3x3 R = matrix(c, k1), Q = matrix(c, k2);
    c.label(k1);
    if (std::strcmp(k1, "identity") != 0) c.nontrivial();
    if (c.chance(50))
    {
        c.label("surface");
        onSurface(c, R, Q);
    }
    else
    {
        c.label("curve");
        onCurve(c, R, Q);
    }
}

const pbt::Property THE_PROPERTY{"C15", prop, 400000, 10000000, "the matrix is not the identity"};
