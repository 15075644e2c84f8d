#include "gen.hpp"
using namespace gen;

// Surface::RemoveKnotU / RemoveKnotV, written for U; the V direction runs the same scenario on the transposed surface.
static void prop(Case& c)
{
    int kind = c.pick({5, 4, 4});
    const bool inV = c.chance(50);
    Surface base = c.pick({25, 1}) ? surface(c, {.maxDegree = 2, .exactU = c.range(5, 9), .k = {.maxDistinct = 2, .rareDistinct = 3, .maxRatio = 2}, .extraMult = kind == 2, .weightStyle = 3, .maxFactor = 6})
                                   : surface(c, {.maxDegree = 4, .k = {.maxDistinct = 3, .rareDistinct = 5, .maxRatio = 20}, .extraMult = kind == 2, .weightStyle = 3, .maxFactor = 6, .longDir = 300});
    const int p = base.DegreeU;
    c.label(inV ? "V" : "U");
    if (c.chance(35))
    {
        // rows at very different distances from the origin
        for (int j = 0; j < base.ControlPoints.VCount; ++j)
        {
            double f = std::pow(10.0, -c.range(0, 3));
            for (int i = 0; i < base.ControlPoints.UCount; ++i) base.ControlPoints.Values[j * base.ControlPoints.UCount + i].head<3>() *= f;
        }
        c.label("rows of different size");
    }
    c.log([&](std::ostream& o) { o << (inV ? "direction V, transposed of " : "direction U, "); put(o, base); });
    auto insert = [&](const Surface& s, double v, int m) { return inV ? transposed(transposed(s).InsertKnotV(v, m)) : s.InsertKnotU(v, m); };
    auto remove = [&](const Surface& s, double v, int times, double tol) -> std::pair<Surface, int>
    {
        Surface arg = inV ? transposed(s) : s;
        const Surface keep = arg;
        auto [r, t] = inV ? arg.RemoveKnotV(v, times, tol) : arg.RemoveKnotU(v, times, tol);
        c.check(same(arg, keep), "knot removal modified the surface it was called on");
        c.check(wellFormed(r), [&, &r = r, t = t](std::ostream& o) { o << "result (t=" << t << ") is not well-formed: "; put(o, r); });
        return {inV ? transposed(r) : r, t};
    };
    auto szB = ref::sizeOf(base.ControlPoints.Values);
    const L P = szB.maxP * std::sqrt((L)3) + 1e-30L;
    Surface sf = base;
    double v;
    int m = 0;
    auto U0 = base.KnotsU.Values();
    std::vector<double> in;
    for (double x : U0)
        if (x > 0 && x < 1) in.push_back(x);
    if (kind != 2)
    {
        v = in.empty() || c.chance(60) ? interiorParam(c, U0) : in[c.draw(in.size())];
        int room = p - mult(U0, v);
        if (room < 1)
        {
            v = interiorParam(c, U0);
            room = p - mult(U0, v);
        }
        m = c.range(1, std::max(1, room));
        sf = insert(base, v, m);
        c.log([&](std::ostream& o) { o << "inserted " << v << " x" << m; });
        if (kind == 1)
        {
            double h = (double)P * std::pow(10.0, -c.range(1, 9));
            int n = c.range(1, 3);
            for (int k = 0; k < n; ++k)
            {
                Vec4& q = sf.ControlPoints.Values[c.draw(sf.ControlPoints.Values.size())];
                int how = c.pick({3, 2, 2});
                double d = 1 + std::min(0.5, h / (double)P) * c.unit();
                if (how == 0) q[c.range(0, 2)] += h * (c.unit() * 2 - 1);
                else if (how == 1) q.w() *= d;
                else
                {
                    q.w() *= d;
                    q.head<3>() /= d;
                }
            }
            c.log([&](std::ostream& o) { o << "perturbed by " << h << ": "; put(o, sf.ControlPoints.Values); });
        }
    }
    else
    {
        v = in.empty() || c.chance(15) ? interiorParam(c, U0) : in[c.draw(in.size())];
        if (c.chance(4)) v = c.chance(50) ? std::pow(10.0, -c.range(4, 15)) : 1 - std::pow(10.0, -c.range(4, 15)); // next to an end
        if (!in.empty() && c.chance(50))
        {
            // some rows lose the knot easily, others do not: make all but one row linear in their index
            int keepRow = c.range(0, sf.ControlPoints.VCount); // == VCount: none kept
            double w = sf.ControlPoints.Values[0].w();
            for (int j = 0; j < sf.ControlPoints.VCount; ++j)
                if (j != keepRow)
                    for (int i = 0; i < sf.ControlPoints.UCount; ++i)
                    {
                        sf.ControlPoints.Values[j * sf.ControlPoints.UCount + i] = sf.ControlPoints.Values[j * sf.ControlPoints.UCount];
                        sf.ControlPoints.Values[j * sf.ControlPoints.UCount + i].w() = w;
                    }
            c.log([&](std::ostream& o) { o << "constant rows except " << keepRow << ": "; put(o, sf.ControlPoints.Values); });
            c.label("constant rows");
        }
    }
    const auto U = sf.KnotsU.Values();
    const int s = mult(U, v);
    const double q = s > 0 ? aboutKnot(c, v) : v;
    c.label_if(q != v, "a value next to a knot");
    int times = c.pick({4, 3, 1}) == 0 ? std::max(1, m) : c.range(1, std::max(1, s) + (c.chance(25) ? 3 : 0));
    if (kind == 0 && c.chance(60)) times = c.range(1, m);
    auto sz = ref::sizeOf(sf.ControlPoints.Values);
    const L G = kind == 0 ? growth(U, p, v, s, std::min(times, s)) : 1;
    if (G > 1e7L) throw pbt::Discard{};
    double tol = kind == 0 ? (double)((1 + P) * (1 + P) * sz.ratio() * std::max<L>(1, G / 1000)) * std::pow(10.0, -c.range(5, 8))
                           : std::min((double)P * std::pow(10.0, -c.range(0, 10)), 0.005 * (double)(1 + P));
    if (kind != 0 && s > 0 && c.chance(60))
    {
        double lo = std::log(1e-14 * (double)(1 + P)), hi = std::log(0.005 * (double)(1 + P));
        if (remove(sf, q, times, std::exp(hi)).second > 0)
        {
            for (int k = 0; k < 12; ++k)
            {
                double mid = 0.5 * (lo + hi);
                (remove(sf, q, times, std::exp(mid)).second > 0 ? hi : lo) = mid;
            }
            tol = std::exp(hi);
            c.label("critical tolerance");
        }
    }
    if (kind == 2 && c.chance(10)) tol = 1e-12;
    c.log([&](std::ostream& o) { o << "remove " << q << " (knot " << v << ", multiplicity " << s << ") x" << times << " tolerance " << tol; });
    c.label(kind == 0 ? "inverse of insertion" : kind == 1 ? "perturbed insertion" : "arbitrary request");
    c.label_if(s == 0, "not a knot");
    c.label_if(times > s, "more copies than present");
    c.label_if(times > 1, "several copies");

    auto [r, t] = remove(sf, q, times, tol);
    c.check(t >= 0 && t <= std::min(times, s), [&, t = t](std::ostream& o) { o << "reported " << t << " removals for multiplicity " << s << ", times " << times; });
    c.label_if(t > 0 && t < times && t < s, "partial removal");
    c.label_if(t == 0, "nothing removed");
    if (s > 0) c.nontrivial();
    if (t == 0) c.check(same(r, sf), "nothing was removed but the returned surface differs from the input");
    auto K = U;
    for (int k = 0; k < t; ++k) K.erase(std::find(K.begin(), K.end(), v));
    c.check(r.DegreeU == p && r.DegreeV == base.DegreeV, "removal changed a degree");
    c.check(same(r.KnotsU.Values(), K), [&, &r = r, t = t](std::ostream& o)
    {
        o << "after " << t << " removals the knot vector is ";
        put(o, r.KnotsU.Values());
    });
    c.check(same(r.KnotsV.Values(), sf.KnotsV.Values()) && r.ControlPoints.VCount == sf.ControlPoints.VCount, "removal touched the other direction");
    c.check(r.ControlPoints.UCount == sf.ControlPoints.UCount - t, [&, &r = r, t = t](std::ostream& o)
    { o << r.ControlPoints.UCount << " columns after " << t << " removals from " << sf.ControlPoints.UCount; });
    for (auto& x : r.ControlPoints.Values)
        c.check(x.w() > 0 && std::isfinite(x.w()) && std::isfinite(x.x()) && std::isfinite(x.y()) && std::isfinite(x.z()), "removal produced an unusable control point");
    if (t > 0)
    {
        L allowed = (L)t * tol * 1.1L + (L)t * (sz.maxP + 1e-30L) * sz.ratio() * 1e-11L, worst = 0;
        double au = 0, av = 0;
        auto us = ref::samples(U, std::min(p + 2, 5)), vs = ref::samples(sf.KnotsV.Values(), std::min(sf.DegreeV + 1, 4));
        std::vector<ref::Basis0> a, b;
        for (double u : us)
        {
            a.push_back(ref::basis0(p, U, u));
            b.push_back(ref::basis0(p, K, u));
        }
        for (double y : vs)
        {
            auto bv = ref::basis0(sf.DegreeV, sf.KnotsV.Values(), y);
            for (size_t i = 0; i < us.size(); ++i)
            {
                if (us[i] == v && s > p) continue; // the value at a removed jump
                L e = ref::dist(ref::surfAt(sf, a[i], bv), ref::surfAt(r, b[i], bv));
                if (!(e <= worst)) worst = e, au = us[i], av = y;
            }
        }
        c.check(within(c, worst, allowed), [&, t = t, &r = r](std::ostream& o)
        {
            o << "removing the knot " << t << " times with tolerance " << tol << " moved the surface by " << (double)worst << " at (" << au << "," << av
              << ") (allowed " << (double)allowed << "); result P=";
            put(o, r.ControlPoints.Values);
        });
    }
    if (kind == 0 && times <= m && q == v)
    {
        c.check(t == times, [&, t = t](std::ostream& o) { o << "a knot inserted " << m << " times could be removed only " << t << " of " << times << " times"; });
        if (times == m)
        {
            c.check(same(r.KnotsU.Values(), base.KnotsU.Values()) && r.ControlPoints.UCount == base.ControlPoints.UCount, "insert then remove does not restore the structure");
            checkSameShape(c, base, r, 1e-9L * sz.ratio() * std::max<L>(1, G / 1000), "insert then remove");
        }
    }
}

const pbt::Property THE_PROPERTY{"C12", prop, 240000, 6000000,
    "a knot of the surface is requested (multiplicity >= 1): removed wholly, partially, or refused"};
