#include "gen.hpp"
using namespace gen;
using libnurbs::BoundingBox;

// Exact extent of one coordinate of a NURBS curve, bracketed by adaptive de Casteljau subdivision in long double:
// control values bound the piece from outside (weights are positive), end points are attained.
struct Piece
{
    std::vector<L> a, w; // homogeneous coordinate and weight
};

static void rangeOf(const Piece& q, L& lo, L& hi, L& e0, L& e1)
{
    lo = hi = q.a[0] / q.w[0];
    for (size_t i = 1; i < q.a.size(); ++i)
    {
        L x = q.a[i] / q.w[i];
        lo = std::min(lo, x);
        hi = std::max(hi, x);
    }
    e0 = q.a.front() / q.w.front();
    e1 = q.a.back() / q.w.back();
}

// maximum of one coordinate, to absolute accuracy acc
static void maximum(const std::vector<Piece>& start, L acc, L& in, L& out)
{
    in = -1e300L;
    std::vector<Piece> todo = start;
    for (auto& q : todo)
    {
        L lo, hi, a, b;
        rangeOf(q, lo, hi, a, b);
        in = std::max(in, std::max(a, b));
    }
    out = in;
    long work = 0;
    while (!todo.empty())
    {
        Piece q = std::move(todo.back());
        todo.pop_back();
        L lo, hi, a, b;
        rangeOf(q, lo, hi, a, b);
        in = std::max(in, std::max(a, b));
        if (hi <= in + acc || ++work > 20000)
        {
            out = std::max(out, hi);
            continue;
        }
        size_t n = q.a.size();
        Piece l{std::vector<L>(n), std::vector<L>(n)}, r = q;
        for (size_t k = 0; k < n; ++k)
        {
            l.a[k] = r.a[0];
            l.w[k] = r.w[0];
            for (size_t i = 0; i + 1 < n - k; ++i)
            {
                r.a[i] = (r.a[i] + r.a[i + 1]) / 2;
                r.w[i] = (r.w[i] + r.w[i + 1]) / 2;
            }
        }
        // after the loop r holds the right half in order: r.a[i] = b_i^{n-1-i}
        todo.push_back(std::move(r));
        todo.push_back(std::move(l));
    }
    out = std::max(out, in);
}

// Bezier pieces of one coordinate by knot insertion (Boehm) in long double, independent of the library
static std::vector<Piece> pieces(const Curve& cv, int coord, L sign)
{
    const int p = cv.Degree;
    std::vector<L> U(cv.Knots.Values().begin(), cv.Knots.Values().end());
    std::vector<L> A, W;
    for (auto& q : cv.ControlPoints)
    {
        A.push_back(sign * (L)q[coord] * q.w());
        W.push_back(q.w());
    }
    std::vector<double> distinct;
    for (double x : cv.Knots.Values())
        if (x > 0 && x < 1 && (distinct.empty() || distinct.back() != x)) distinct.push_back(x);
    for (double x : distinct)
    {
        while (std::count(U.begin(), U.end(), (L)x) < p)
        {
            int k = (int)(std::upper_bound(U.begin(), U.end(), (L)x) - U.begin()) - 1;
            std::vector<L> A2(A.size() + 1), W2(W.size() + 1);
            for (int i = 0; i < (int)A2.size(); ++i)
            {
                L al = i <= k - p ? 1 : (i <= k && U[i + p] > U[i]) ? ((L)x - U[i]) / (U[i + p] - U[i]) : 0;
                if (i > k) al = 0;
                A2[i] = (al > 0 ? al * A[i] : 0) + (al < 1 ? (1 - al) * A[i - 1] : 0);
                W2[i] = (al > 0 ? al * W[i] : 0) + (al < 1 ? (1 - al) * W[i - 1] : 0);
            }
            A = A2;
            W = W2;
            U.insert(U.begin() + k + 1, (L)x);
        }
    }
    std::vector<Piece> r;
    for (size_t s = 0; s + p < A.size(); ++s)
        if (U[s + p] < U[s + p + 1])
            r.push_back({std::vector<L>(A.begin() + s, A.begin() + s + p + 1), std::vector<L>(W.begin() + s, W.begin() + s + p + 1)});
    return r;
}

static void prop(Case& c)
{
    const bool wild = c.pick({20, 1}); // weights of very different size only with gentle knots: 1-alpha loses digits
    Curve cv = c.pick({25, 1}) ? curve(c, {.exactDegree = c.range(7, 12), .k = {.maxDistinct = 2, .rareDistinct = 4, .maxRatio = 100}, .weightStyle = 3, .maxFactor = 30})
                               : curve(c, {.maxDegree = 6, .k = {.maxDistinct = 4, .rareDistinct = 12, .maxRatio = !wild && c.pick({2, 1}) ? 1000000000 : 100, .veryRare = 100}, .extraMult = c.pick({9, 1}), .weightStyle = wild ? 5 : 4, .maxFactor = 30});
    // coordinates are at most 1e4 by construction of the generator
    double eps = c.pick({2, 5}) == 0 ? 1e-3 : std::pow(10.0, c.pick({20, 1}) ? c.range(-12, 3) : c.range(-6, 1)) * c.range(1, 9);
    c.log([&](std::ostream& o) { put(o, cv); o << " epsilon=" << eps; });
    auto sz = ref::sizeOf(cv.ControlPoints);
    if (sz.maxP > 1.1e4L) throw pbt::Discard{};
    if ((double)sz.maxP / eps > 1e8) eps = (double)sz.maxP * 1e-8; // keep the subdivision affordable
    const bool rational = cv.IsRational();
    const Curve before = cv;
    BoundingBox b = eps == 1e-3 && c.chance(50) ? cv.GetBoundingBox() : cv.GetBoundingBox(eps);
    c.check(same(cv, before), "GetBoundingBox modified the curve");
    const L slack = std::max<L>(eps, 1e-6L) * 1.001L + 1e-10L * sz.maxP + 1e-9L;
    const L acc = std::max<L>(1e-9L, std::min<L>(1e-2L * eps, 1e-4L));
    c.label_if(rational, "rational");
    c.label_if(eps >= 1, "coarse epsilon");
    bool bulge = false;
    for (int k = 0; k < 3; ++k)
    {
        c.check(std::isfinite(b.Min[k]) && std::isfinite(b.Max[k]) && b.Min[k] <= b.Max[k], [&](std::ostream& o) { o << "box is not a box: " << b.Min[k] << ".." << b.Max[k]; });
        for (int side = 0; side < 2; ++side)
        {
            L in, out;
            maximum(pieces(cv, k, side ? 1 : -1), acc, in, out);
            L face = side ? (L)b.Max[k] : -(L)b.Min[k];
            L ends = std::max((side ? 1 : -1) * (L)cv.ControlPoints.front()[k], (side ? 1 : -1) * (L)cv.ControlPoints.back()[k]);
            bulge |= in > ends + 10 * slack;
            const char* name = side ? "upper" : "lower";
            c.check(within(c, in - face, slack), [&](std::ostream& o)
            { o << "the curve leaves the " << name << " face of axis " << k << " by " << (double)(in - face) << " (allowed " << (double)slack << "); face at " << (double)(side ? face : -face); });
            c.check(within(c, face - out, slack), [&](std::ostream& o)
            { o << "the " << name << " face of axis " << k << " is " << (double)(face - out) << " away from the curve (allowed " << (double)slack << ")"; });
        }
    }
    c.label_if(bulge, "extremum inside the curve");
    if (bulge) c.nontrivial();
}

const pbt::Property THE_PROPERTY{"C18", prop, 150000, 3000000, "some extent of the curve is attained strictly between its end points"};
