#include "search.hpp"
using namespace search;
using Pair = std::pair<double, double>;

static double lib(const Surface& q, const Pair& a, const Vec3& P) { return (q.Evaluate(a.first, a.second) - P).norm(); }

static void checkIso(Case& c, const char* what, const Pair& r, int dir, double k)
{
    double fixed = dir == 0 ? r.first : r.second, free = dir == 0 ? r.second : r.first;
    c.check(sameBits(fixed, k), [&](std::ostream& o) { o << what << " along the iso-line " << (dir ? "v=" : "u=") << k << " returned (" << r.first << "," << r.second << ")"; });
    c.check(inUnit(free), [&](std::ostream& o) { o << what << " returned (" << r.first << "," << r.second << ")"; });
}

static void anyInput(Case& c)
{
    Surface q = surface(c, {.maxDegree = 6, .k = {.maxDistinct = 3, .rareDistinct = 8, .maxRatio = 1000000}, .extraMult = c.chance(20) ? 1 : 0, .weightStyle = 5, .wide = true, .maxFactor = 30, .longDir = 300});
    auto &U = q.KnotsU.Values(), &V = q.KnotsV.Values();
    Vec3 P;
    if (c.chance(60)) P = q.Evaluate(param(c, U), param(c, V));
    else P = points(c, 1)[0];
    if (c.chance(30)) P += Vec3(c.unit(), c.unit(), c.unit()) * std::pow(10.0, c.pick({4, 1}) ? c.range(-12, 12) : c.range(-6, 3));
    double iu = param(c, U), iv = param(c, V), eps = c.chance(20) ? 0.0 : std::pow(10.0, c.pick({9, 1}) ? c.range(0, 3) : -c.range(0, 18));
    int it = c.pick({2, 2}) == 0 ? c.range(0, 3) : c.range(0, 20);
    if (c.pick({30, 1})) it = 512;
    c.log([&](std::ostream& o) { o << "any input: "; put(o, q); o << " P="; put(o, P); o << " init=(" << iu << "," << iv << ") eps=" << eps << " max_iterations=" << it; });
    const Surface before = q;
    Pair a = q.SearchParameter(P, iu, iv, eps, it);
    c.check(inUnit(a.first) && inUnit(a.second), [&](std::ostream& o) { o << "SearchParameter returned (" << a.first << "," << a.second << ")"; });
    int dir = c.range(0, 1);
    double k = dir ? iv : iu, s = dir ? iu : iv;
    checkIso(c, "SearchParameterOn", q.SearchParameterOn(P, dir, k, s, eps, it), dir, k);
    checkIso(c, "BinarySearchParameterOn", q.BinarySearchParameterOn(P, dir, k, eps, it), dir, k);
    c.check(same(q, before), "a search modified the surface");
    c.label("any input");
    if (it > 0) c.nontrivial();
}

static void solved(Case& c)
{
    Surface q = surface(c, {.maxDegree = 4, .k = {.maxDistinct = 3, .rareDistinct = 5, .maxRatio = 10}, .weightStyle = 3, .pointStyle = 2});
    auto &U = q.KnotsU.Values(), &V = q.KnotsV.Values();
    double iu = param(c, U), iv = param(c, V), eps = std::pow(10.0, -c.range(3, 8));
    int it = c.chance(50) ? 512 : c.range(1, 20);
    auto sz = ref::sizeOf(q.ControlPoints.Values);
    double wmin = 1e300, wmax = 0;
    for (auto& p : q.ControlPoints.Values) wmin = std::min(wmin, p.w()), wmax = std::max(wmax, p.w());
    double M = speedBound(q.DegreeU, U, 2 * (double)sz.maxP, wmax / wmin) + speedBound(q.DegreeV, V, 2 * (double)sz.maxP, wmax / wmin);
    if (1e-14 * (double)sz.maxP * (1 + M * M) > eps / 10)
    {
        c.label("skipped: too steep");
        return;
    }
    Vec3 P = q.Evaluate(iu, iv);
    c.log([&](std::ostream& o) { o << "solved start: "; put(o, q); o << " init=(" << iu << "," << iv << ") eps=" << eps << " max_iterations=" << it; });
    Pair a = q.SearchParameter(P, iu, iv, eps, it);
    c.check(inUnit(a.first) && inUnit(a.second) && within(c, lib(q, a, P), eps), [&](std::ostream& o) { o << "the start reproduces the point, SearchParameter returned (" << a.first << "," << a.second << ")"; });
    int dir = c.range(0, 1);
    double k = dir ? iv : iu, s = dir ? iu : iv;
    Pair b = q.SearchParameterOn(P, dir, k, s, eps, it);
    checkIso(c, "SearchParameterOn", b, dir, k);
    c.check(within(c, lib(q, b, P), eps), [&](std::ostream& o) { o << "the start reproduces the point, SearchParameterOn(" << dir << ") returned (" << b.first << "," << b.second << ")"; });
    c.label("start is a solution");
    c.nontrivial();
}

static void gentle(Case& c)
{
    int pu = degree(c, 4), pv = degree(c, 4);
    auto U = knots(c, pu, {.maxMult = pu, .maxDistinct = 3, .rareDistinct = 6, .maxRatio = 10});
    auto V = knots(c, pv, {.maxMult = pv, .maxDistinct = 3, .rareDistinct = 6, .maxRatio = 10});
    auto gu = greville(pu, U), gv = greville(pv, V);
    Surface q;
    q.DegreeU = pu;
    q.DegreeV = pv;
    q.KnotsU = KnotVector(U);
    q.KnotsV = KnotVector(V);
    Vec3 d = direction(c), e = orthogonal(c, d), o = points(c, 1, 2)[0];
    double lu = c.chance(40) ? 1.0 : 0.7 + 0.6 * c.unit(), lv = c.chance(40) ? 1.0 : 0.7 + 0.6 * c.unit();
    bool straight = c.chance(30), weighted = c.chance(50);
    q.ControlPoints.UCount = (int)gu.size();
    q.ControlPoints.VCount = (int)gv.size();
    for (size_t j = 0; j < gv.size(); ++j)
        for (size_t i = 0; i < gu.size(); ++i)
        {
            double m = std::min(room(gu, i), room(gv, j));
            Vec3 x = o + d * lu * gu[i] + e * lv * gv[j];
            if (!straight) x += Vec3(c.unit() - 0.5, c.unit() - 0.5, c.unit() - 0.5) * 0.04 * std::min(lu, lv) * m;
            Vec4 y;
            y << x.x(), x.y(), x.z(), weighted ? 1 + (c.unit() - 0.5) * 0.04 * m : 1.0;
            q.ControlPoints.Values.push_back(y);
        }
    double us = param(c, U), vs = param(c, V), iu = param(c, U), iv = param(c, V), eps = c.chance(50) ? 1e-8 : epsilon(c);
    Vec3 P = q.Evaluate(us, vs);
    c.log([&](std::ostream& s) { s << "gentle: "; put(s, q); s << " (u,v)=(" << us << "," << vs << ") init=(" << iu << "," << iv << ") eps=" << eps; });
    bool defaults = eps == 1e-8 && c.chance(50);
    auto judge = [&](const char* what, const Pair& a)
    {
        c.check(inUnit(a.first) && inUnit(a.second), [&](std::ostream& s) { s << what << " returned (" << a.first << "," << a.second << ")"; });
        double slack = 1e-13;
        c.check(within(c, lib(q, a, P), eps + slack) && within(c, std::fabs(a.first - us), 2.5 * eps + slack) && within(c, std::fabs(a.second - vs), 2.5 * eps + slack), [&](std::ostream& s)
        {
            s << what << " for the point at (" << us << "," << vs << ") returned (" << a.first << "," << a.second << "), off by " << lib(q, a, P);
        });
    };
    judge("SearchParameter", defaults ? q.SearchParameter(P, iu, iv) : q.SearchParameter(P, iu, iv, eps, 512));
    int dir = c.range(0, 1);
    double k = dir ? vs : us, s = dir ? iu : iv;
    Pair b = defaults ? q.SearchParameterOn(P, dir, k, s) : q.SearchParameterOn(P, dir, k, s, eps, 512);
    checkIso(c, "SearchParameterOn", b, dir, k);
    judge("SearchParameterOn", b);
    c.label("gentle patch");
    c.nontrivial();
}

// every u edge of the net within 38 degrees of one direction, every v edge of another; separable weights
static void monotone(Case& c)
{
    int pu = degree(c, 4), pv = degree(c, 4);
    auto U = knots(c, pu, {.maxMult = pu, .maxDistinct = 3, .rareDistinct = 6, .maxRatio = 30});
    auto V = knots(c, pv, {.maxMult = pv, .maxDistinct = 3, .rareDistinct = 6, .maxRatio = 30});
    size_t nu = U.size() - pu - 1, nv = V.size() - pv - 1;
    auto wu = weights(c, nu, 3), wv = weights(c, nv, 3);
    Vec3 d = direction(c), e = c.chance(70) ? orthogonal(c, d) : direction(c), o = points(c, 1, 2)[0];
    std::vector<Vec3> A{o}, B{Vec3::Zero()};
    while (A.size() < nu) A.push_back(A.back() + coneEdge(c, d));
    while (B.size() < nv) B.push_back(B.back() + coneEdge(c, e));
    Surface q;
    q.DegreeU = pu;
    q.DegreeV = pv;
    q.KnotsU = KnotVector(U);
    q.KnotsV = KnotVector(V);
    q.ControlPoints.UCount = (int)nu;
    q.ControlPoints.VCount = (int)nv;
    for (size_t j = 0; j < nv; ++j)
        for (size_t i = 0; i < nu; ++i)
        {
            Vec3 x = A[i] + B[j];
            Vec4 y;
            y << x.x(), x.y(), x.z(), wu[i] * wv[j];
            q.ControlPoints.Values.push_back(y);
        }
    double us = param(c, U), vs = param(c, V), eps = c.chance(40) ? 1e-8 : epsilon(c);
    int it = c.chance(40) ? c.range(1, 45) : 512, dir = c.range(0, 1);
    Vec3 P = q.Evaluate(us, vs);
    c.log([&](std::ostream& s) { s << "monotone: "; put(s, q); s << " (u,v)=(" << us << "," << vs << ") direction=" << dir << " eps=" << eps << " max_iterations=" << it; });
    double k = dir ? vs : us, want = dir ? us : vs;
    Pair b = it == 512 && eps == 1e-8 ? q.BinarySearchParameterOn(P, dir, k) : q.BinarySearchParameterOn(P, dir, k, eps, it);
    checkIso(c, "BinarySearchParameterOn", b, dir, k);
    double got = dir ? b.first : b.second;
    c.check(within(c, std::fabs(got - want), 2 * eps + std::ldexp(1.0, -it) + 1e-9), [&](std::ostream& s)
    {
        s << "BinarySearchParameterOn(direction " << dir << ", eps=" << eps << ", " << it << " iterations) for the point at (" << us << "," << vs << ") returned (" << b.first << "," << b.second << ")";
    });
    c.label("monotone patch");
    c.label_if(it < 512, "few iterations");
    c.nontrivial();
}

static void prop(Case& c)
{
    switch (c.pick({5, 3, 5, 5}))
    {
    case 0: return monotone(c);
    case 1: return solved(c);
    case 2: return gentle(c);
    default: return anyInput(c);
    }
}

const pbt::Property THE_PROPERTY{"C25", prop, 130000, 2500000, "at least one iteration is allowed and a result is judged"};
