#include "gen.hpp"
using namespace gen;
using Axis = Surface::AlignAxis;

// the eight re-parametrisations, on plain data
static Surface reparam(const Surface& s, bool swap, bool ru, bool rv)
{
    Surface r = swap ? transposed(s) : s;
    auto mirror = [](std::vector<double> k)
    {
        std::reverse(k.begin(), k.end());
        for (double& x : k) x = 1.0 - x;
        return k;
    };
    int nu = r.ControlPoints.UCount, nv = r.ControlPoints.VCount;
    if (ru) r.KnotsU.Values() = mirror(r.KnotsU.Values());
    if (rv) r.KnotsV.Values() = mirror(r.KnotsV.Values());
    auto old = r.ControlPoints.Values;
    for (int j = 0; j < nv; ++j)
        for (int i = 0; i < nu; ++i)
            r.ControlPoints.Values[j * nu + i] = old[(rv ? nv - 1 - j : j) * nu + (ru ? nu - 1 - i : i)];
    return r;
}

static bool near(const std::vector<double>& a, const std::vector<double>& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i)
        if (!(std::fabs(a[i] - b[i]) <= 2e-16)) return false;
    return true;
}

static bool matches(const Surface& a, const Surface& b)
{
    return a.DegreeU == b.DegreeU && a.DegreeV == b.DegreeV && near(a.KnotsU.Values(), b.KnotsU.Values()) && near(a.KnotsV.Values(), b.KnotsV.Values()) &&
           a.ControlPoints.UCount == b.ControlPoints.UCount && a.ControlPoints.VCount == b.ControlPoints.VCount && same(a.ControlPoints.Values, b.ControlPoints.Values);
}

static void prop(Case& c)
{
    Surface s = surface(c, {.maxDegree = 4, .k = {.maxDistinct = 3, .rareDistinct = 6, .veryRare = 30}, .pointStyle = 6, .maxFactor = 30, .longDir = 300});
    const int nu = s.ControlPoints.UCount, nv = s.ControlPoints.VCount;
    auto& V = s.ControlPoints.Values;
    int kind = c.pick({6, 2, 1});
    int au = 0, av = 1, su = 1, sv = 1;
    if (kind == 0)
    {
        // an axis-dominated patch: u runs along +-axis au, v along +-axis av, with bounded distortion
        au = c.range(0, 2);
        av = (au + c.range(1, 2)) % 3;
        su = c.chance(50) ? -1 : 1;
        sv = c.chance(50) ? -1 : 1;
        const double unit = c.chance(85) ? 1 : std::pow(10.0, c.range(-4, 6));
        double lu = unit * c.range(1, 8) / 2.0, lv = unit * c.range(1, 8) / 2.0;
        double noise = c.chance(50) ? 0 : 0.1;
        Vec3 org(c.range(-20, 20), c.range(-20, 20), c.range(-20, 20));
        for (int j = 0; j < nv; ++j)
            for (int i = 0; i < nu; ++i)
            {
                Vec3 q = org;
                q[au] += su * lu * i / (nu - 1);
                q[av] += sv * lv * j / (nv - 1);
                if (noise > 0)
                    for (int k = 0; k < 3; ++k) q[k] += noise * std::min(lu, lv) * (c.unit() * 2 - 1);
                V[j * nu + i].head<3>() = q;
            }
        if (c.pick({4, 1})) // one edge shrunk to one of its end points
        {
            const int e = c.range(0, 3);
            const bool end = c.chance(50);
            const int n = e < 2 ? nu : nv;
            auto edge = [&](int k) { return e < 2 ? (e ? (nv - 1) * nu : 0) + k : k * nu + (e == 3 ? nu - 1 : 0); };
            const Vec3 q = V[edge(end ? n - 1 : 0)].head<3>();
            for (int k = 0; k < n; ++k) V[edge(k)].head<3>() = q;
            c.label("one edge shrunk to its end");
        }
    }
    else if (kind == 2)
    {
        // degenerate: collapsed edges
        int e = c.range(0, 5);
        for (int i = 0; i < nu; ++i)
        {
            if (e == 0 || e == 4) V[i].head<3>() = V[0].head<3>();
            if (e == 1 || e == 4) V[(nv - 1) * nu + i].head<3>() = V[(nv - 1) * nu].head<3>();
        }
        for (int j = 0; j < nv; ++j)
        {
            if (e == 2 || e == 5) V[j * nu].head<3>() = V[0].head<3>();
            if (e == 3 || e == 5) V[j * nu + nu - 1].head<3>() = V[nu - 1].head<3>();
        }
    }
    int ru = c.range(0, 2), rv = c.range(0, 2);
    if (kind == 0 && c.chance(70))
    {
        bool x = c.chance(50);
        ru = x ? av : au;
        rv = x ? au : av;
    }
    const Axis axes[3] = {Axis::XAxis, Axis::YAxis, Axis::ZAxis};
    c.log([&](std::ostream& o)
    {
        put(o, s);
        o << " align u->" << "xyz"[ru] << " v->" << "xyz"[rv];
        if (kind == 0) o << " (u runs along " << (su > 0 ? '+' : '-') << "xyz"[au] << ", v along " << (sv > 0 ? '+' : '-') << "xyz"[av] << ")";
    });
    const Surface before = s;
    Surface r = s.AlignParameterDomain(axes[ru], axes[rv]);
    c.check(same(s, before), "AlignParameterDomain modified the surface it was called on");

    // always: one of the eight re-parametrisations (kept knots may differ by rounding of 1-t only)
    int which = -1;
    for (int k = 0; k < 8 && which < 0; ++k)
        if (matches(r, reparam(s, k & 1, k & 2, k & 4))) which = k;
    c.check(which >= 0, [&](std::ostream& o)
    {
        o << "the result is none of the eight swaps/reversals of the surface: ";
        put(o, r);
    });
    c.label(which == 0 ? "unchanged" : (which & 1) ? "swapped" : "reversed only");
    // the map itself, through the reference model
    auto sz = ref::sizeOf(V);
    for (int k = 0; k < 3; ++k)
    {
        double u = c.range(0, 16) / 16.0, v = c.range(0, 16) / 16.0;
        // 1-t of a knot is not always exact: stay away from knots where the surface may jump (multiplicity above degree)
        double a = (which & 2) ? 1 - u : u, b = (which & 4) ? 1 - v : v;
        auto x = ref::at(r, u, v), y = (which & 1) ? ref::at(s, b, a) : ref::at(s, a, b);
        L e = ref::dist(x, y);
        c.check(within(c, e, 1e-9L * (sz.maxP + 1e-30L) * std::max<L>(10, sz.ratio())), [&](std::ostream& o) { o << "result at (" << u << "," << v << ") is not the re-parametrised surface point, off by " << (double)e; });
    }
    c.label(kind == 0 ? "axis-dominated patch" : kind == 1 ? "arbitrary surface" : "collapsed edges");
    if (kind != 0) return;
    const bool straight = ru == au && rv == av, crossed = ru == av && rv == au;
    if (straight || crossed)
    {
        c.nontrivial();
        int want = (crossed ? 1 : 0);
        int sgnU = crossed ? sv : su, sgnV = crossed ? su : sv;
        Surface expect = reparam(s, want, sgnU < 0, sgnV < 0);
        c.check(matches(r, expect), [&](std::ostream& o)
        {
            o << "the requested axes are those of the patch, but u/v of the result do not increase along them; got re-parametrisation " << which << ", expected swap=" << want
              << " reverse u=" << (sgnU < 0) << " v=" << (sgnV < 0);
        });
        Surface again = r.AlignParameterDomain(axes[ru], axes[rv]);
        c.check(same(again, r), "aligning again changes the surface");
        c.label(crossed ? "crossed axes" : "straight axes");
        c.label_if(sgnU < 0 || sgnV < 0, "reversal needed");
    }
    else if (ru != au && !(ru == av && rv == au))
    {
        c.check(same(r, s), "the u direction cannot be matched but the surface was changed");
        c.label("no match");
    }
}

const pbt::Property THE_PROPERTY{"C16", prop, 900000, 10000000, "axis-dominated patch and the two requested axes are those of the patch"};
