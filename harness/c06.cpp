#include "gen.hpp"
using namespace gen;

static void prop(Case& c)
{
    Curve cv = curve(c, {.maxDegree = 16, .k = {.maxRatio = 1000000, .veryRare = 200}, .extraMult = 1, .weightStyle = 4, .wide = true, .maxFactor = 30});
    const auto& U = cv.Knots.Values();
    int p = cv.Degree;
    double u = param(c, U);
    int order = 0;
    static const int HI[] = {4, 9, 28};
    order = c.range(0, HI[c.pick({100, 50, 1})]);
    c.log([&](std::ostream& o) { put(o, cv); o << " u=" << u << " order=" << order; });
    bool rat = false;
    for (auto& q : cv.ControlPoints) rat |= q.w() != cv.ControlPoints[0].w();
    c.label_if(rat, "rational");
    c.label_if(order > p, "order above degree");
    c.label_if(order >= 3, "order>=3");
    if (rat && order >= 2 && p >= 2) c.nontrivial();
    auto r = ref::curveDers(p, U, cv.ControlPoints, u, order);
    auto before = cv;
    const auto all = cv.EvaluateAll(u, order);
    c.check((int)all.size() == order + 1, [&](std::ostream& o) { o << "got " << all.size() << " derivatives, expected " << order + 1; });
    const Vec3 pt = cv.Evaluate(u);
    L t0 = 1e-11L * r.S[0] + 1e-270L;
    c.check(within(c, ref::dist(ref::p3(all[0]), ref::p3(pt)), t0), "entry 0 is not the point itself");
    for (int d = 0; d <= order; ++d)
    {
        if (!(r.S[d] < 1e260L)) break; // beyond the range of double
        const Vec3 one = cv.EvaluateDerivative(u, d);
        L tol = 1e-10L * r.S[d] + 1e-270L;
        L e1 = ref::dist(ref::p3(all[d]), r.D[d]), e2 = ref::dist(ref::p3(one), r.D[d]);
        c.check(within(c, e1, tol) && within(c, e2, tol), [&](std::ostream& o)
        {
            o << "derivative " << d << " at u=" << u << ": table ";
            put(o, all[d]);
            o << ", single ";
            put(o, one);
            o << ", exact ";
            put(o, r.D[d]);
            o << " (tolerance " << (double)tol << ")";
        });
        if (!rat && d > p) c.check(ref::dist(ref::p3(all[d]), ref::p3(Vec3(0, 0, 0))) <= tol, "derivative above the degree of a polynomial curve is not zero");
    }
    c.check(same(cv, before), "evaluation changed the curve");
}

const pbt::Property THE_PROPERTY{"C06", prop, 600000, 20000000,
    "rational curve of degree >= 2 and derivative order >= 2"};
