#include "io.hpp"
using namespace io;
using libnurbs::Mat3x3;

// one parameter direction: what it started with, what it must be now
struct Dir
{
    int p0 = 0, p = 0;
    std::vector<double> U0, U;

    static int count(const std::vector<double>& k, double v)
    {
        int n = 0;
        for (double x : k) n += std::fabs(x - v) < 1e-9;
        return n;
    }
    std::vector<double> distinct() const
    {
        std::vector<double> r;
        for (double x : U)
            if (x > 0 && x < 1 && (r.empty() || r.back() != x)) r.push_back(x);
        return r;
    }
    // copies of v that are not needed for the shape
    int spare(double v) const
    {
        int s0 = count(U0, v);
        return count(U, v) - (s0 ? s0 + p - p0 : 0);
    }
    double newValue(Case& c) const
    {
        auto d = distinct();
        for (int k = 0; k < 3; ++k)
        {
            double v = c.range(1, 63) / 64.0 + (c.chance(30) ? 0.003 : 0);
            bool ok = v > 0.01 && v < 0.99;
            for (double x : d) ok = ok && std::fabs(x - v) > 0.01;
            if (ok) return v;
        }
        return d.empty() ? 0.5 : d[c.draw(d.size())];
    }
    // values to insert, multiplicities kept up to p
    std::vector<double> insertion(Case& c) const
    {
        std::vector<double> r, k = U;
        int n = c.range(1, 3);
        for (int i = 0; i < n; ++i)
        {
            auto d = distinct();
            double v = !d.empty() && c.chance(40) ? d[c.draw(d.size())] : newValue(c);
            bool ok = mult(k, v) < p;
            for (double x : k) ok = ok && (x == v || std::fabs(x - v) > 0.009);
            if (!ok) continue;
            r.push_back(v);
            k.push_back(v);
            std::sort(k.begin(), k.end());
        }
        return r;
    }
    void insert(const std::vector<double>& v) { U = sortedInsert(U, v); }
    void remove(double v, int t)
    {
        for (int i = 0; i < t; ++i) U.erase(std::find(U.begin(), U.end(), v));
    }
    void elevate(int n)
    {
        std::vector<double> r;
        for (size_t i = 0; i < U.size(); ++i)
        {
            if (i == 0 || U[i] != U[i - 1]) r.insert(r.end(), n, U[i]);
            r.push_back(U[i]);
        }
        U = r;
        p += n;
    }
};

static Mat3x3 matrix(Case& c)
{
    Mat3x3 m = Mat3x3::Identity();
    switch (c.pick({2, 2, 2}))
    {
    case 0:
        for (int i = 0; i < 9; ++i) m(i / 3, i % 3) = c.range(0, 4) - 2;
        break;
    case 1:
    {
        double a = c.unit() * 6.28;
        m << std::cos(a), -std::sin(a), 0, std::sin(a), std::cos(a), 0, 0, 0, 1;
        break;
    }
    default:
        m.setZero();
        int s = c.range(0, 5);
        int q[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {2, 1, 0}, {1, 0, 2}};
        for (int i = 0; i < 3; ++i) m(i, q[s][i]) = c.chance(50) ? -1 : 1;
    }
    return m;
}

static L absSum(const Mat3x3& R)
{
    L s = 0;
    for (int i = 0; i < 9; ++i) s = std::max(s, std::fabs((L)R(i / 3, i % 3)) * 3);
    return std::max<L>(s, 1e-3L);
}

static void transformPlain(std::vector<Vec4>& P, const Mat3x3& R)
{
    for (auto& q : P)
    {
        Vec4 r = q;
        for (int i = 0; i < 3; ++i) r[i] = R(i, 0) * q[0] + R(i, 1) * q[1] + R(i, 2) * q[2];
        q = r;
    }
}

template <class T>
static T reload(Case& c, const T& x)
{
    std::stringstream st(std::ios::in | std::ios::out | std::ios::binary);
    x.SaveToFile(st, c.chance(50));
    T r;
    if (c.chance(30)) r = x;
    r.LoadFromFile(st);
    return r;
}

static bool knotsMatch(const std::vector<double>& a, const std::vector<double>& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i)
        if (!(std::fabs(a[i] - b[i]) < 1e-12)) return false;
    return true;
}

static L maxAbs(const std::vector<Vec4>& P)
{
    L m = 0;
    for (auto& q : P)
        for (int k = 0; k < 3; ++k) m = std::max(m, std::fabs((L)q[k]));
    return m;
}

constexpr L TOL = 1e-9L; // shape, relative
constexpr L REMOVE = 1e-5L;

static void onCurve(Case& c)
{
    Curve origin = curve(c, {.maxDegree = 4, .k = {.maxDistinct = 3, .rareDistinct = 5, .maxRatio = 12}, .weightStyle = 3, .pointStyle = 2});
    for (double a = 0; double x : origin.Knots.Values())
    {
        if (x - a > 0 && x - a < 0.012) throw pbt::Discard{};
        a = x;
    }
    c.log([&](std::ostream& o) { put(o, origin); });
    Dir d{origin.Degree, origin.Degree, origin.Knots.Values(), origin.Knots.Values()};
    Curve cur = origin;
    L scale = maxAbs(origin.ControlPoints) + 1e-9L, ratio = std::max<L>(10, ref::sizeOf(origin.ControlPoints).ratio());
    std::vector<Curve> states, snapshots;
    int steps = c.range(1, 10), edits = 0;
    for (int k = 0; k < steps; ++k)
    {
        states.push_back(cur);
        snapshots.push_back(cur);
        const Curve& from = states.back();
        std::string op;
        switch (c.pick({5, 4, 3, 2, 2, 2}))
        {
        case 0:
        {
            auto v = d.insertion(c);
            op = "insert";
            if (v.empty()) break;
            if (v.size() == 1 && c.chance(50)) cur = from.InsertKnot(v[0]);
            else if (v.size() == 1) cur = from.InsertKnot(v[0], 1);
            else cur = from.InsertKnot(v);
            d.insert(v);
            ++edits;
            c.log([&](std::ostream& o) { o << op << " "; put(o, v); });
            break;
        }
        case 1:
        {
            std::vector<double> can;
            for (double v : d.distinct())
                if (d.spare(v) > 0) can.push_back(v);
            op = "remove";
            if (can.empty()) break;
            double v = can[c.draw(can.size())];
            int t = c.range(1, d.spare(v));
            L G = growth(d.U, d.p, v, mult(d.U, v), t);
            if (G > 1e4L) break;
            auto [r, got] = from.RemoveKnot(v, t, (double)(REMOVE * (1 + scale) * (1 + scale) * ratio));
            c.log([&](std::ostream& o) { o << op << " " << v << " x" << t; });
            c.check(got == t, [&, got = got](std::ostream& o) { o << "step " << k << ": a redundant knot could be removed only " << got << " of " << t << " times"; });
            cur = r;
            d.remove(v, t);
            ++edits;
            c.label("removal");
            break;
        }
        case 2:
        {
            op = "elevate";
            int n = c.range(1, 2);
            if (d.p + n > 7) break;
            cur = n == 1 && c.chance(50) ? from.ElevateDegree() : from.ElevateDegree(n);
            d.elevate(n);
            ++edits;
            c.label("elevation");
            c.log([&](std::ostream& o) { o << op << " x" << n; });
            break;
        }
        case 3:
        {
            op = "transform";
            Mat3x3 R = matrix(c);
            cur = from.Transform(R);
            transformPlain(origin.ControlPoints, R);
            scale = std::max(scale * absSum(R), scale);
            c.label("transform");
            c.log([&](std::ostream& o) { o << op; for (int i = 0; i < 9; ++i) o << " " << R(i / 3, i % 3); });
            ++edits;
            break;
        }
        case 4:
            op = "save and load";
            cur = reload(c, from);
            c.check(bits(cur, from), "save and load changed the object");
            c.label("save and load");
            break;
        default:
        {
            op = "evaluate";
            double u = param(c, d.U);
            auto x = ref::at(origin, u);
            L e = ref::dist(x, ref::p3(from.Evaluate(u)));
            c.check(within(c, e, TOL * scale * ratio), [&](std::ostream& o) { o << "step " << k << ": the edited curve evaluates wrongly at " << u << " (off by " << (double)e << ")"; });
        }
        }
        c.check(same(states.back(), snapshots.back()), [&](std::ostream& o) { o << op << " modified the curve it was applied to"; });
        c.check(cur.Degree == d.p && knotsMatch(cur.Knots.Values(), d.U) && wellFormed(cur), [&](std::ostream& o)
        {
            o << "step " << k << " (" << op << "): degree or knots are wrong: ";
            put(o, cur);
        });
        L tol = TOL * scale * ratio, worst = 0;
        double at = 0;
        for (double u : ref::samples(d.U, 3))
        {
            L e = ref::dist(ref::at(origin, u), ref::at(cur, u));
            if (!(e <= worst)) worst = e, at = u;
        }
        c.check(within(c, worst, tol), [&](std::ostream& o) { o << "step " << k << " (" << op << "): the shape moved by " << (double)worst << " at " << at << " (allowed " << (double)tol << ")"; });
    }
    for (size_t i = 0; i < states.size(); ++i) c.check(same(states[i], snapshots[i]), "a later edit modified an earlier object");
    if (edits >= 2) c.nontrivial();
}

static Surface reparam(const Surface& s, bool swap, bool ru, bool rv)
{
    Surface r = swap ? transposed(s) : s;
    auto mirror = [](std::vector<double> k)
    {
        std::reverse(k.begin(), k.end());
        for (double& x : k) x = 1.0 - x;
        return k;
    };
    int nu = r.ControlPoints.UCount, nv = r.ControlPoints.VCount;
    if (ru) r.KnotsU.Values() = mirror(r.KnotsU.Values());
    if (rv) r.KnotsV.Values() = mirror(r.KnotsV.Values());
    auto old = r.ControlPoints.Values;
    for (int j = 0; j < nv; ++j)
        for (int i = 0; i < nu; ++i)
            r.ControlPoints.Values[j * nu + i] = old[(rv ? nv - 1 - j : j) * nu + (ru ? nu - 1 - i : i)];
    return r;
}

static bool spaced(const std::vector<double>& U)
{
    for (size_t i = 1; i < U.size(); ++i)
        if (U[i] > U[i - 1] && U[i] - U[i - 1] < 0.012) return false;
    return true;
}

static void onSurface(Case& c)
{
    Surface origin = surface(c, {.maxDegree = 3, .k = {.maxDistinct = 2, .rareDistinct = 3, .maxRatio = 12}, .weightStyle = 3, .pointStyle = 2});
    if (!spaced(origin.KnotsU.Values()) || !spaced(origin.KnotsV.Values())) throw pbt::Discard{};
    c.log([&](std::ostream& o) { put(o, origin); });
    Dir d[2] = {{origin.DegreeU, origin.DegreeU, origin.KnotsU.Values(), origin.KnotsU.Values()}, {origin.DegreeV, origin.DegreeV, origin.KnotsV.Values(), origin.KnotsV.Values()}};
    Surface cur = origin;
    L scale = maxAbs(origin.ControlPoints.Values) + 1e-9L, ratio = std::max<L>(10, ref::sizeOf(origin.ControlPoints.Values).ratio());
    std::vector<Surface> states, snapshots;
    int steps = c.range(1, 8), edits = 0;
    for (int k = 0; k < steps; ++k)
    {
        states.push_back(cur);
        snapshots.push_back(cur);
        const Surface& from = states.back();
        const bool inV = c.chance(50);
        Dir& q = d[inV];
        std::string op;
        switch (c.pick({5, 4, 3, 2, 2, 2, 3}))
        {
        case 0:
        {
            auto v = q.insertion(c);
            op = inV ? "insert V" : "insert U";
            if (v.empty()) break;
            if (v.size() == 1 && c.chance(50)) cur = inV ? from.InsertKnotV(v[0]) : from.InsertKnotU(v[0]);
            else if (v.size() == 1) cur = inV ? from.InsertKnotV(v[0], 1) : from.InsertKnotU(v[0], 1);
            else cur = inV ? from.InsertKnotV(v) : from.InsertKnotU(v);
            q.insert(v);
            ++edits;
            c.log([&](std::ostream& o) { o << op << " "; put(o, v); });
            break;
        }
        case 1:
        {
            std::vector<double> can;
            for (double v : q.distinct())
                if (q.spare(v) > 0) can.push_back(v);
            op = inV ? "remove V" : "remove U";
            if (can.empty()) break;
            double v = can[c.draw(can.size())];
            int t = c.range(1, q.spare(v));
            L G = growth(q.U, q.p, v, mult(q.U, v), t);
            if (G > 1e4L) break;
            double tol = (double)(REMOVE * (1 + scale) * (1 + scale) * ratio);
            auto [r, got] = inV ? from.RemoveKnotV(v, t, tol) : from.RemoveKnotU(v, t, tol);
            c.log([&](std::ostream& o) { o << op << " " << v << " x" << t; });
            c.check(got == t, [&, got = got](std::ostream& o) { o << "step " << k << ": a redundant knot could be removed only " << got << " of " << t << " times"; });
            cur = r;
            q.remove(v, t);
            ++edits;
            c.label("removal");
            break;
        }
        case 2:
        {
            op = inV ? "elevate V" : "elevate U";
            int n = c.range(1, 2);
            if (q.p + n > 6) break;
            cur = inV ? from.ElevateDegreeV(n) : from.ElevateDegreeU(n);
            q.elevate(n);
            ++edits;
            c.label("elevation");
            c.log([&](std::ostream& o) { o << op << " x" << n; });
            break;
        }
        case 3:
        {
            op = "transform";
            Mat3x3 R = matrix(c);
            cur = from.Transform(R);
            transformPlain(origin.ControlPoints.Values, R);
            scale = std::max(scale * absSum(R), scale);
            c.label("transform");
            c.log([&](std::ostream& o) { o << op; for (int i = 0; i < 9; ++i) o << " " << R(i / 3, i % 3); });
            ++edits;
            break;
        }
        case 4:
            op = "save and load";
            cur = reload(c, from);
            c.check(bits(cur, from), "save and load changed the object");
            c.label("save and load");
            break;
        case 5:
        {
            op = "evaluate";
            double u = param(c, d[0].U), v = param(c, d[1].U);
            L e = ref::dist(ref::at(origin, u, v), ref::p3(from.Evaluate(u, v)));
            c.check(within(c, e, TOL * scale * ratio), [&](std::ostream& o) { o << "step " << k << ": the edited surface evaluates wrongly at (" << u << "," << v << "), off by " << (double)e; });
            break;
        }
        default:
        {
            op = "align";
            int a = c.range(0, 2), b = (a + c.range(1, 2)) % 3;
            Surface arg = from;
            cur = arg.AlignParameterDomain((Surface::AlignAxis)a, (Surface::AlignAxis)b);
            c.check(same(arg, from), "alignment modified the surface it was called on");
            c.log([&](std::ostream& o) { o << op << " " << a << " " << b; });
            int found = -1;
            for (int m = 0; m < 8 && found < 0; ++m)
            {
                Surface r = reparam(from, m & 1, m & 2, m & 4);
                if (r.DegreeU == cur.DegreeU && r.DegreeV == cur.DegreeV && r.ControlPoints.UCount == cur.ControlPoints.UCount && knotsMatch(r.KnotsU.Values(), cur.KnotsU.Values()) &&
                    knotsMatch(r.KnotsV.Values(), cur.KnotsV.Values()) && same(r.ControlPoints.Values, cur.ControlPoints.Values))
                    found = m;
            }
            c.check(found >= 0, [&](std::ostream& o) { o << "step " << k << ": alignment is none of the eight re-parametrisations: "; put(o, cur); });
            origin = reparam(origin, found & 1, found & 2, found & 4);
            c.label_if(found & 1, "swapped");
            c.label_if(found & 6, "reversed");
            d[0] = {origin.DegreeU, cur.DegreeU, origin.KnotsU.Values(), cur.KnotsU.Values()};
            d[1] = {origin.DegreeV, cur.DegreeV, origin.KnotsV.Values(), cur.KnotsV.Values()};
            ++edits;
        }
        }
        c.check(same(states.back(), snapshots.back()), [&](std::ostream& o) { o << op << " modified the surface it was applied to"; });
        c.check(cur.DegreeU == d[0].p && cur.DegreeV == d[1].p && knotsMatch(cur.KnotsU.Values(), d[0].U) && knotsMatch(cur.KnotsV.Values(), d[1].U) && wellFormed(cur), [&](std::ostream& o)
        {
            o << "step " << k << " (" << op << "): degrees, knots or grid are wrong: ";
            put(o, cur);
        });
        L tol = TOL * scale * ratio, worst = 0;
        double au = 0, av = 0;
        auto us = ref::samples(d[0].U, 2), vs = ref::samples(d[1].U, 2);
        std::vector<ref::Basis0> bo, bc;
        for (double u : us)
        {
            bo.push_back(ref::basis0(origin.DegreeU, origin.KnotsU.Values(), u));
            bc.push_back(ref::basis0(cur.DegreeU, cur.KnotsU.Values(), u));
        }
        for (double v : vs)
        {
            auto vo = ref::basis0(origin.DegreeV, origin.KnotsV.Values(), v), vc = ref::basis0(cur.DegreeV, cur.KnotsV.Values(), v);
            for (size_t i = 0; i < us.size(); ++i)
            {
                L e = ref::dist(ref::surfAt(origin, bo[i], vo), ref::surfAt(cur, bc[i], vc));
                if (!(e <= worst)) worst = e, au = us[i], av = v;
            }
        }
        c.check(within(c, worst, tol), [&](std::ostream& o)
        { o << "step " << k << " (" << op << "): the shape moved by " << (double)worst << " at (" << au << "," << av << ") (allowed " << (double)tol << ")"; });
    }
    for (size_t i = 0; i < states.size(); ++i) c.check(same(states[i], snapshots[i]), "a later edit modified an earlier object");
    if (edits >= 2) c.nontrivial();
}

static void prop(Case& c)
{
    if (c.chance(50))
    {
        c.label("surface");
        onSurface(c);
    }
    else
    {
        c.label("curve");
        onCurve(c);
    }
}

const pbt::Property THE_PROPERTY{"C28", prop, 250000, 5000000, "the history contains at least two edits"};
