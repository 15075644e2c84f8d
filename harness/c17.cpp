#include "gen.hpp"
using namespace gen;

// the curve at U[k] + t (U[k+1] - U[k]), without rounding that parameter (the span may be tiny)
static ref::P3 inSpan(const Curve& cv, int k, L t)
{
    const auto& U = cv.Knots.Values();
    const int p = cv.Degree;
    const L step = t * ((L)U[k + 1] - U[k]), rest = (1 - t) * ((L)U[k + 1] - U[k]);
    std::vector<L> N(p + 2, 0.0L); // N[i - (k - p)]
    N[p] = 1;
    for (int q = 1; q <= p; ++q)
        for (int i = k - q; i <= k; ++i)
        {
            L a = 0, b = 0;
            const L n1 = N[i - (k - p)], n2 = N[i - (k - p) + 1];
            if (i + q > k && n1 != 0) a = (((L)U[k] - U[i]) + step) / ((L)U[i + q] - U[i]) * n1;
            if (i + 1 <= k && n2 != 0) b = (((L)U[i + q + 1] - U[k + 1]) + rest) / ((L)U[i + q + 1] - U[i + 1]) * n2;
            N[i - (k - p)] = a + b;
        }
    L h[4] = {0, 0, 0, 0};
    for (int i = 0; i <= p; ++i)
    {
        const Vec4& q = cv.ControlPoints[(size_t)(k - p + i)];
        const L n = N[i] * q.w();
        for (int d = 0; d < 3; ++d) h[d] += n * q[d];
        h[3] += n;
    }
    return ref::P3{{h[0] / h[3], h[1] / h[3], h[2] / h[3]}};
}

static void prop(Case& c)
{
    Curve cv = curve(c, {.maxDegree = 16, .k = {.maxDistinct = 6, .rareDistinct = 30, .maxRatio = c.pick({3, 1}) ? 1000000000 : 1000, .veryRare = 150, .tiny = true}, .extraMult = c.pick({9, 1}), .wide = true, .maxFactor = 30});
    const int p = cv.Degree;
    c.log([&](std::ostream& o) { put(o, cv); });
    const auto U = cv.Knots.Values();
    std::vector<int> spans;
    bool repeated = false, full = false, jump = false;
    for (size_t i = 0; i + 1 < U.size(); ++i)
        if (U[i] < U[i + 1]) spans.push_back((int)i);
    for (double x : U)
        if (x > 0 && x < 1)
        {
            repeated |= mult(U, x) > 1;
            jump |= mult(U, x) == p + 1;
            full |= mult(U, x) == p && p > 1;
        }
    c.label_if(repeated, "repeated interior knot");
    c.label_if(jump, "interior multiplicity degree + 1");
    c.label_if(full, "interior multiplicity equal to the degree");
    c.label_if(spans.size() == 1, "single span");
    c.label_if(cv.IsRational(), "rational");
    if (spans.size() > 1 && p > 1) c.nontrivial();
    auto sz = ref::sizeOf(cv.ControlPoints);
    const L tol = 1e-10L * std::max<L>(10, sz.ratio()) * (sz.maxP + 1e-30L);
    const Curve before = cv;
    auto pieces = cv.ExtractBezier();
    c.check(same(cv, before), "ExtractBezier modified the curve it was called on");
    c.check(pieces.size() == spans.size(), [&](std::ostream& o) { o << pieces.size() << " pieces for " << spans.size() << " non-empty spans"; });
    std::vector<double> K(p + 1, 0.0);
    K.insert(K.end(), p + 1, 1.0);
    for (size_t k = 0; k < pieces.size(); ++k)
    {
        const Curve& b = pieces[k];
        c.check(b.Degree == p, [&](std::ostream& o) { o << "piece " << k << " has degree " << b.Degree; });
        c.check(same(b.Knots.Values(), K), [&](std::ostream& o)
        {
            o << "piece " << k << " has knots ";
            put(o, b.Knots.Values());
        });
        c.check((int)b.ControlPoints.size() == p + 1, [&](std::ostream& o) { o << "piece " << k << " has " << b.ControlPoints.size() << " control points"; });
        int n = std::min(2 * p + 1, 11);
        for (int i = 0; i <= n; ++i)
        {
            double t = (double)i / n;
            auto x = inSpan(cv, spans[k], t), y = ref::at(b, t);
            L e = ref::dist(x, y);
            c.check(within(c, e, tol), [&](std::ostream& o)
            {
                o << "piece " << k << " at " << t << " is ";
                put(o, y);
                o << " but the curve there (span " << U[spans[k]] << " to " << U[spans[k] + 1] << ") is ";
                put(o, x);
            });
        }
        if (k > 0 && mult(U, U[spans[k]]) <= p) // the curve may jump elsewhere
            c.check(within(c, (pieces[k - 1].ControlPoints.back().head<3>() - b.ControlPoints.front().head<3>()).norm(), tol), "consecutive pieces do not share their end point");
    }
    if (!pieces.empty())
    {
        c.check(within(c, (pieces.front().ControlPoints.front() - cv.ControlPoints.front()).norm(), 1e-12L * (sz.maxP + sz.wMax)), "first piece does not start at the first control point");
        c.check(within(c, (pieces.back().ControlPoints.back() - cv.ControlPoints.back()).norm(), 1e-12L * (sz.maxP + sz.wMax)), "last piece does not end at the last control point");
    }
}

const pbt::Property THE_PROPERTY{"C17", prop, 400000, 10000000, "degree >= 2 and more than one span"};
