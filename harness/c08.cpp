#include "gen.hpp"
using namespace gen;

static void prop(Case& c)
{
    Surface s = surface(c, {.maxDegree = 11, .k = {.maxDistinct = 3, .rareDistinct = 8, .maxRatio = 1000000, .veryRare = 30}, .extraMult = 1, .weightStyle = 4, .wide = true, .maxFactor = 30, .longDir = 300});
    double u = param(c, s.KnotsU.Values()), v = param(c, s.KnotsV.Values());
    static const int HI[] = {3, 6, 22};
    int hi = HI[c.pick({300, 100, 1})];
    int a = c.range(0, hi), b = c.range(0, hi);
    c.log([&](std::ostream& o) { put(o, s); o << " u=" << u << " v=" << v << " orders=(" << a << "," << b << ")"; });
    bool rat = false;
    for (auto& q : s.ControlPoints.Values) rat |= q.w() != s.ControlPoints.Values[0].w();
    c.label_if(rat, "rational");
    c.label_if(a != b, "different orders");
    c.label_if(a >= 2 && b >= 2, "both orders >= 2");
    if (rat && a >= 1 && b >= 1 && a + b >= 3) c.nontrivial();
    auto before = s;
    auto r = ref::surfDers(s, u, v, a, b);
    const auto g = s.EvaluateAll(u, v, a, b);
    c.check(g.UCount == a + 1 && g.VCount == b + 1 && (int)g.Values.size() == (a + 1) * (b + 1),
            [&](std::ostream& o) { o << "table is " << g.UCount << "x" << g.VCount << ", expected " << a + 1 << "x" << b + 1; });
    Surface t = transposed(s);
    const auto gt = t.EvaluateAll(v, u, b, a);
    for (int j = 0; j <= b; ++j)
        for (int i = 0; i <= a; ++i)
        {
            if (!(r.s(i, j) < 1e260L)) continue; // beyond the range of double
            L tol = 1e-10L * r.s(i, j) + 1e-270L;
            const Vec3& x = g.Get(i, j);
            const Vec3& y = gt.Get(j, i);
            L e = ref::dist(ref::p3(x), r.d(i, j)), e2 = ref::dist(ref::p3(y), r.d(i, j));
            c.check(within(c, e, tol), [&](std::ostream& o)
            {
                o << "partial (" << i << "," << j << ") at (" << u << "," << v << "): got ";
                put(o, x);
                o << ", exact ";
                put(o, r.d(i, j));
                o << " (tolerance " << (double)tol << ")";
            });
            c.check(within(c, e2, tol), "exchanging parameter directions does not exchange the orders");
        }
    int i = c.range(0, a), j = c.range(0, b);
    const Vec3 one = s.EvaluateDerivative(u, v, i, j);
    c.check(!(r.s(i, j) < 1e260L) || within(c, ref::dist(ref::p3(one), r.d(i, j)), 1e-10L * r.s(i, j) + 1e-270L), [&](std::ostream& o)
    {
        o << "single partial (" << i << "," << j << "): got ";
        put(o, one);
        o << ", exact ";
        put(o, r.d(i, j));
    });
    c.check(within(c, ref::dist(ref::p3(g.Get(0, 0)), ref::p3(s.Evaluate(u, v))), 1e-11L * r.S[0] + 1e-270L), "entry (0,0) is not the point");
    c.check(same(s, before), "evaluation changed the surface");
}

const pbt::Property THE_PROPERTY{"C08", prop, 300000, 10000000,
    "rational surface, both orders >= 1 and at least 3 in total"};
