#include "search.hpp"
using namespace search;

static double lib(const Curve& q, double u, const Vec3& P) { return (q.Evaluate(u) - P).norm(); }

// every input: terminates, stays in [0,1]
static void anyInput(Case& c)
{
    Curve q = curve(c, {.maxDegree = 9, .k = {.maxDistinct = 4, .rareDistinct = 12, .maxRatio = 1000000, .veryRare = 300}, .extraMult = c.chance(20) ? 1 : 0, .weightStyle = 5, .wide = true, .maxFactor = 30});
    Vec3 P;
    if (c.chance(60)) P = q.Evaluate(param(c, q.Knots.Values()));
    else P = points(c, 1)[0];
    if (c.chance(30)) P += Vec3(c.unit(), c.unit(), c.unit()) * std::pow(10.0, c.pick({4, 1}) ? c.range(-12, 12) : c.range(-6, 3));
    double init = param(c, q.Knots.Values());
    double eps = c.chance(20) ? 0.0 : std::pow(10.0, c.pick({9, 1}) ? c.range(0, 3) : -c.range(0, 18));
    int it = c.pick({2, 2, 1, 1}) == 0 ? c.range(0, 3) : c.range(0, 40);
    if (c.pick({14, 1})) it = 512;
    c.log([&](std::ostream& o) { o << "any input: "; put(o, q); o << " P="; put(o, P); o << " init=" << init << " eps=" << eps << " max_iterations=" << it; });
    const Curve before = q;
    double a = q.SearchParameter(P, init, eps, it);
    c.check(inUnit(a), [&](std::ostream& o) { o << "SearchParameter returned " << a; });
    double b = q.BinarySearchParameter(P, eps, it);
    c.check(inUnit(b), [&](std::ostream& o) { o << "BinarySearchParameter returned " << b; });
    c.check(same(q, before), "a search modified the curve");
    c.label("any input");
    c.label_if(it == 0, "no iteration allowed");
    if (it > 0) c.nontrivial();
}

// the start is already a solution
static void solved(Case& c)
{
    Curve q = curve(c, {.maxDegree = 5, .k = {.maxDistinct = 4, .rareDistinct = 10, .maxRatio = 20}, .weightStyle = 3, .pointStyle = 2});
    double init = param(c, q.Knots.Values()), eps = std::pow(10.0, -c.range(3, 8));
    int it = c.chance(50) ? 512 : c.range(1, 20);
    auto sz = ref::sizeOf(q.ControlPoints);
    double wmin = 1e300, wmax = 0;
    for (auto& p : q.ControlPoints) wmin = std::min(wmin, p.w()), wmax = std::max(wmax, p.w());
    double M = speedBound(q.Degree, q.Knots.Values(), 2 * (double)sz.maxP, wmax / wmin);
    if (1e-14 * (double)sz.maxP * (1 + M * M) > eps / 10)
    {
        c.label("skipped: too steep");
        return;
    }
    Vec3 P = q.Evaluate(init);
    c.log([&](std::ostream& o) { o << "solved start: "; put(o, q); o << " init=" << init << " eps=" << eps << " max_iterations=" << it; });
    double a = q.SearchParameter(P, init, eps, it);
    c.check(inUnit(a), [&](std::ostream& o) { o << "SearchParameter returned " << a; });
    c.check(within(c, lib(q, a, P), eps), [&](std::ostream& o) { o << "the start value " << init << " reproduces the point, SearchParameter returned " << a << " which misses it by " << lib(q, a, P); });
    c.label("start is a solution");
    c.nontrivial();
}

// nearly straight, nearly uniform
static void gentle(Case& c)
{
    int p = degree(c, 5);
    auto U = knots(c, p, {.maxMult = p, .maxDistinct = 4, .rareDistinct = 8, .maxRatio = 20});
    auto g = greville(p, U);
    Curve q;
    q.Degree = p;
    q.Knots = KnotVector(U);
    Vec3 d = direction(c), o = points(c, 1, 2)[0];
    double len = c.chance(40) ? 1.0 : 0.6 + c.unit();
    bool straight = c.chance(30), weighted = c.chance(50);
    for (size_t i = 0; i < g.size(); ++i)
    {
        double m = room(g, i);
        Vec3 x = o + d * len * g[i];
        if (!straight) x += Vec3(c.unit() - 0.5, c.unit() - 0.5, c.unit() - 0.5) * 0.06 * len * m;
        Vec4 y;
        y << x.x(), x.y(), x.z(), weighted ? 1 + (c.unit() - 0.5) * 0.06 * m : 1.0;
        q.ControlPoints.push_back(y);
    }
    double us = param(c, U), init = param(c, U), eps = c.chance(50) ? 1e-8 : epsilon(c);
    Vec3 P = q.Evaluate(us);
    c.log([&](std::ostream& s) { s << "gentle: "; put(s, q); s << " u=" << us << " init=" << init << " eps=" << eps; });
    double a = c.chance(50) && eps == 1e-8 ? q.SearchParameter(P, init) : q.SearchParameter(P, init, eps, 512);
    c.check(inUnit(a), [&](std::ostream& s) { s << "SearchParameter returned " << a; });
    double slack = 1e-13;
    c.check(within(c, lib(q, a, P), eps + slack), [&](std::ostream& s) { s << "SearchParameter from " << init << " for the point at " << us << " returned " << a << ", off by " << lib(q, a, P); });
    c.check(within(c, std::fabs(a - us), 2.5 * eps + slack), [&](std::ostream& s) { s << "SearchParameter from " << init << " for the point at " << us << " returned " << a; });
    c.label("gentle curve");
    c.nontrivial();
}

// monotone: every control polygon edge within 38 degrees of one direction, so the distance to a curve point is unimodal
static void monotone(Case& c)
{
    int p = degree(c, 5);
    auto U = knots(c, p, {.maxMult = p, .maxDistinct = 4, .rareDistinct = 10, .maxRatio = 30});
    size_t n = U.size() - p - 1;
    auto w = weights(c, n, 3);
    Vec3 d = direction(c), x = points(c, 1, 2)[0];
    Curve q;
    q.Degree = p;
    q.Knots = KnotVector(U);
    for (size_t i = 0; i < n; ++i)
    {
        Vec4 y;
        y << x.x(), x.y(), x.z(), w[i];
        q.ControlPoints.push_back(y);
        x += coneEdge(c, d);
    }
    double us = param(c, U), eps = c.chance(40) ? 1e-8 : epsilon(c);
    int it = c.chance(40) ? c.range(1, 45) : 512;
    Vec3 P = q.Evaluate(us);
    c.log([&](std::ostream& s) { s << "monotone: "; put(s, q); s << " u=" << us << " eps=" << eps << " max_iterations=" << it; });
    double b = it == 512 && eps == 1e-8 ? q.BinarySearchParameter(P) : q.BinarySearchParameter(P, eps, it);
    c.check(inUnit(b), [&](std::ostream& s) { s << "BinarySearchParameter returned " << b; });
    double tol = 2 * eps + std::ldexp(1.0, -it) + 1e-9;
    c.check(within(c, std::fabs(b - us), tol), [&](std::ostream& s) { s << "BinarySearchParameter(eps=" << eps << ", " << it << " iterations) for the point at " << us << " returned " << b; });
    c.label("monotone curve");
    c.label_if(it < 512, "few iterations");
    c.nontrivial();
}

static void prop(Case& c)
{
    switch (c.pick({5, 3, 5, 5}))
    {
    case 0: return monotone(c);
    case 1: return solved(c);
    case 2: return gentle(c);
    default: return anyInput(c);
    }
}

const pbt::Property THE_PROPERTY{"C24", prop, 250000, 6000000, "at least one iteration is allowed and a result is judged"};
