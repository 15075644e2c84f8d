#include "gen.hpp"
using namespace gen;

// Curve::RemoveKnot.  Three kinds of histories: (a) insert a knot m times (on a new or an existing value) and remove
// it again, (b) the same after moving control points by a controlled amount, (c) arbitrary curve, arbitrary request
// (non-removable knots, more copies than there are, values that are no knots).

static void prop(Case& c)
{
    int kind = c.pick({5, 4, 4});
    const bool close = kind == 2 && c.chance(10); // knots closer than the library's comparison tolerance
    Curve base = close ? curve(c, {.maxDegree = 4, .k = {.maxDistinct = 5, .rareDistinct = 12, .maxRatio = 1000000000}, .extraMult = 0, .weightStyle = 3})
                 : c.pick({15, 1}) ? curve(c, {.exactDegree = c.range(7, 12), .k = {.maxDistinct = 3, .rareDistinct = 4, .maxRatio = 2}, .extraMult = kind == 2, .weightStyle = 3, .maxFactor = 6})
                                 : curve(c, {.maxDegree = 6, .k = {.maxDistinct = 5, .rareDistinct = 12, .maxRatio = 20, .veryRare = 300}, .extraMult = kind == 2, .weightStyle = 3, .maxFactor = 6});
    const int p = base.Degree;
    c.log([&](std::ostream& o) { put(o, base); });
    auto szB = ref::sizeOf(base.ControlPoints);
    const L P = szB.maxP * std::sqrt((L)3) + 1e-30L;
    Curve cv = base;
    double v;
    int m = 0;
    if (kind != 2)
    {
        // insertion
        auto U = base.Knots.Values();
        std::vector<double> in;
        for (double x : U)
            if (x > 0 && x < 1) in.push_back(x);
        v = in.empty() || c.chance(60) ? interiorParam(c, U) : in[c.draw(in.size())];
        int room = p - mult(U, v);
        if (room < 1)
        {
            v = interiorParam(c, U);
            room = p - mult(U, v);
        }
        m = c.range(1, std::max(1, room));
        cv = base.InsertKnot(v, m);
        c.log([&](std::ostream& o) { o << "inserted " << v << " x" << m; });
        if (kind == 1)
        {
            double h = (double)P * std::pow(10.0, -c.range(1, 9));
            int n = c.range(1, 3);
            for (int k = 0; k < n; ++k)
            {
                size_t i = c.draw(cv.ControlPoints.size());
                int how = c.pick({3, 2, 2});
                double d = 1 + std::min(0.5, h / (double)P) * c.unit();
                if (how == 1) cv.ControlPoints[i].w() *= d;
                else if (how == 2) // only the homogeneous weight
                {
                    cv.ControlPoints[i].w() *= d;
                    cv.ControlPoints[i].head<3>() /= d;
                }
                else cv.ControlPoints[i][c.range(0, 2)] += h * (c.unit() * 2 - 1);
            }
            c.log([&](std::ostream& o) { o << "perturbed by " << h << ": "; put(o, cv.ControlPoints); });
        }
    }
    else
    {
        auto U = base.Knots.Values();
        std::vector<double> in;
        for (double x : U)
            if (x > 0 && x < 1) in.push_back(x);
        v = in.empty() || c.chance(15) ? interiorParam(c, U) : in[c.draw(in.size())];
        if (c.chance(4)) v = c.chance(50) ? std::pow(10.0, -c.range(4, 15)) : 1 - std::pow(10.0, -c.range(4, 15)); // next to an end
    }
    const auto U = cv.Knots.Values();
    double q = v;
    if (mult(U, v) == 0)
    {
        // a value within the comparison tolerance of a knot stands for it (or is refused)
        double found = v;
        for (double x : U)
            if (x > 0 && x < 1 && x != found && std::fabs(x - q) < 2e-6)
            {
                if (found != v) throw pbt::Discard{}; // ambiguous
                found = x;
            }
        v = found;
    }
    const int s = mult(U, v);
    if (s > 0 && !close) q = aboutKnot(c, v);
    int times = c.pick({4, 3, 1}) == 0 ? std::max(1, m) : c.range(1, std::max(1, s) + (c.chance(25) ? 3 : 0));
    if (kind == 0 && c.chance(60)) times = c.range(1, m);
    auto sz = ref::sizeOf(cv.ControlPoints);
    const L G = kind == 0 ? growth(U, p, v, s, std::min(times, s)) : 1;
    if (G > 1e7L) throw pbt::Discard{}; // hopelessly ill-conditioned
    // tolerance: relative to the size for the inverse of insertion, anything for the rest
    double tol = kind == 0 ? (double)((1 + P) * (1 + P) * sz.ratio() * std::max<L>(1, G / 1000)) * std::pow(10.0, -c.range(5, 8))
                           : std::min((double)P * std::pow(10.0, -c.range(0, 10)), 0.005 * (double)(1 + P));
    if (kind != 0 && s > 0 && c.chance(70))
    {
        // the smallest tolerance at which something is removed
        double lo = std::log(1e-14 * (double)(1 + P)), hi = std::log(0.005 * (double)(1 + P));
        if (std::get<1>(cv.RemoveKnot(q, times, std::exp(hi))) > 0)
        {
            for (int k = 0; k < 16; ++k)
            {
                double mid = 0.5 * (lo + hi);
                (std::get<1>(cv.RemoveKnot(q, times, std::exp(mid))) > 0 ? hi : lo) = mid;
            }
            tol = std::exp(hi);
            c.label("critical tolerance");
        }
    }
    const bool def = kind == 2 && c.chance(10); // the default tolerance
    if (def) tol = 1e-12;
    c.log([&](std::ostream& o) { o << "remove " << q << " (knot " << v << ", multiplicity " << s << ") x" << times << " tolerance " << tol; });
    c.label(kind == 0 ? "inverse of insertion" : kind == 1 ? "perturbed insertion" : "arbitrary request");
    c.label_if(q != v, "a value next to a knot");
    c.label_if(close, "knots closer than the comparison tolerance");
    c.label_if(s == 0, "not a knot");
    c.label_if(times > s, "more copies than present");
    c.label_if(times > 1, "several copies");
    c.label_if(s > p, "multiplicity above the degree");

    const Curve before = cv;
    auto [r, t] = def && times == 1 && c.chance(50) ? cv.RemoveKnot(q) : cv.RemoveKnot(q, times, tol);
    c.check(same(cv, before), "RemoveKnot modified the curve it was called on");
    c.check(t >= 0 && t <= std::min(times, s), [&, t = t](std::ostream& o) { o << "reported " << t << " removals for multiplicity " << s << ", times " << times; });
    c.label_if(t > 0 && t < times && t < s, "partial removal");
    c.label_if(t == 0, "nothing removed");
    if (t > 0 || s > 0) c.nontrivial();
    if (t == 0) c.check(same(r, before), "nothing was removed but the returned curve differs from the input");
    auto K = U;
    for (int k = 0; k < t; ++k) K.erase(std::find(K.begin(), K.end(), v));
    c.check(r.Degree == p, "removal changed the degree");
    c.check(same(r.Knots.Values(), K), [&, &r = r, t = t](std::ostream& o)
    {
        o << "after " << t << " removals the knot vector is ";
        put(o, r.Knots.Values());
    });
    c.check(r.ControlPoints.size() + t == cv.ControlPoints.size(), [&, &r = r, t = t](std::ostream& o)
    { o << r.ControlPoints.size() << " control points after " << t << " removals from " << cv.ControlPoints.size(); });
    // deviation
    for (auto& x : r.ControlPoints) c.check(x.w() > 0, "removal produced a control point without positive weight");
    for (auto& x : r.ControlPoints)
        for (int k = 0; k < 4; ++k) c.check(std::isfinite(x[k]), "removal produced a non-finite control point");
    // (the tolerance is small against the size, so the weight function stays away from zero)
    L allowed = (L)t * tol * 1.1L + (L)t * (sz.maxP + 1e-30L) * sz.ratio() * 1e-11L;
    if (t > 0)
    {
        L worst = 0;
        double at = 0;
        for (double u : ref::samples(U, std::min(2 * p + 1, 9)))
        {
            if (u == v && mult(K, v) < s && s > p) continue; // the value at a removed jump
            L e = ref::dist(ref::at(cv, u), ref::at(r, u));
            if (!(e <= worst)) worst = e, at = u;
        }
        c.check(within(c, worst, allowed), [&, t = t, &r = r](std::ostream& o)
        {
            o << "removing the knot " << t << " times with tolerance " << tol << " moved the curve by " << (double)worst << " at u=" << at << " (allowed "
              << (double)allowed << "); result P=";
            put(o, r.ControlPoints);
        });
    }
    if (kind == 0 && times <= m && q == v)
    {
        c.check(t == times, [&, t = t](std::ostream& o) { o << "a knot inserted " << m << " times could be removed only " << t << " of " << times << " times"; });
        if (times == m)
        {
            c.check(r.ControlPoints.size() == base.ControlPoints.size() && same(r.Knots.Values(), base.Knots.Values()), "insert then remove does not restore the structure");
            checkSameShape(c, base, r, 1e-9L * sz.ratio() * std::max<L>(1, G / 1000), "insert then remove");
        }
    }
}

const pbt::Property THE_PROPERTY{"C11", prop, 900000, 20000000,
    "a knot of the curve is requested (multiplicity >= 1): removed wholly, partially, or refused"};
