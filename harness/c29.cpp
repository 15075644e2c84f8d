#include "io.hpp"
#include <atomic>
#include <libnurbs/Algorithm/MathUtils.hpp>
#include <libnurbs/Basis/BSplineBasis.hpp>
#include <libnurbs/Core/BoundingBox.hpp>
#include <thread>
using namespace io;
using libnurbs::Mat3x3;

struct World
{
    std::vector<Curve> curves;
    std::vector<Surface> surfaces;
};

// the arguments of one read-only call
struct Op
{
    int what = 0, obj = 0, n = 1, m = 0;
    double a = 0, b = 0, k = 0.5, tol = 1e-3;
    Vec3 point = Vec3::Zero();
    std::vector<double> list;
    Mat3x3 R = Mat3x3::Identity();
    bool bin = false;
};

// results as bytes
struct Sink
{
    std::string s;
    bool argumentChanged = false;
    std::string done() const { return (argumentChanged ? "ARG" : "") + s; }
    void put(double d) { s.append((const char*)&d, 8); }
    void put(int i) { s.append((const char*)&i, 4); }
    void put(const Vec3& v)
    {
        for (int k = 0; k < 3; ++k) put(v[k]);
    }
    void put(const std::vector<double>& v)
    {
        put((int)v.size());
        for (double x : v) put(x);
    }
    void put(const std::vector<Vec4>& v)
    {
        put((int)v.size());
        for (auto& x : v)
            for (int k = 0; k < 4; ++k) put(x[k]);
    }
    void put(const Curve& c)
    {
        put(c.Degree);
        put(c.Knots.Values());
        put(c.ControlPoints);
    }
    void put(const Surface& c)
    {
        put(c.DegreeU);
        put(c.DegreeV);
        put(c.KnotsU.Values());
        put(c.KnotsV.Values());
        put(c.ControlPoints.UCount);
        put(c.ControlPoints.VCount);
        put(c.ControlPoints.Values);
    }
};

constexpr int CURVE_OPS = 17, SURFACE_OPS = 15;
static const char* NAMES[] = {"Evaluate", "EvaluateDerivative", "EvaluateAll", "IsRational", "SearchParameter", "BinarySearchParameter", "InsertKnot", "InsertKnot list", "RemoveKnot", "ElevateDegree", "Transform",
                              "ExtractBezier", "GetBoundingBox", "SaveToFile", "knot queries", "basis", "copy",
                              "Evaluate", "EvaluateDerivative", "EvaluateAll", "IsRational", "SearchParameter", "SearchParameterOn", "BinarySearchParameterOn", "InsertKnotU/V", "InsertKnotU/V list", "RemoveKnotU/V",
                              "ElevateDegreeU/V", "Transform", "SaveToFile", "copy", "AlignParameterDomain"};

static_assert(std::size(NAMES) == CURVE_OPS + SURFACE_OPS);

static std::string run(const World& w, const Op& o)
{
    Sink r;
    if (o.what < CURVE_OPS)
    {
        const Curve& q = w.curves[o.obj];
        switch (o.what)
        {
        case 0: r.put(q.Evaluate(o.a)); break;
        case 1: r.put(q.EvaluateDerivative(o.a, o.n)); break;
        case 2:
            for (auto& x : q.EvaluateAll(o.a, o.n)) r.put(x);
            break;
        case 3: r.put((int)q.IsRational()); break;
        case 4: r.put(q.SearchParameter(o.point, o.a, 1e-6, 12)); break;
        case 5: r.put(q.BinarySearchParameter(o.point, 1e-6, 25)); break;
        case 6: r.put(q.InsertKnot(o.k)); break;
        case 7:
        {
            auto l = o.list;
            r.put(q.InsertKnot(l));
            if (l != o.list) r.argumentChanged = true;
            break;
        }
        case 8:
        {
            auto [x, t] = q.RemoveKnot(o.k, o.n, o.tol);
            r.put(x);
            r.put(t);
            break;
        }
        case 9: r.put(q.ElevateDegree(1 + o.m)); break;
        case 10: r.put(q.Transform(o.R)); break;
        case 11:
            for (auto& x : q.ExtractBezier()) r.put(x);
            break;
        case 12:
        {
            auto b = q.GetBoundingBox(0.1);
            r.put(b.Min);
            r.put(b.Max);
            break;
        }
        case 13:
        {
            std::ostringstream os(std::ios::binary);
            q.SaveToFile(os, o.bin);
            r.s += os.str();
            break;
        }
        case 14:
        {
            r.put(q.Knots.FindSpanIndex(q.Degree, o.a));
            for (auto& p : q.Knots.GetKnotPairs()) r.put(p.Value), r.put(p.Multiplicity);
            r.put((int)q.Knots.IsUniform());
            r.put((int)q.Knots.IsClamped());
            r.put((int)q.Knots.IsValid());
            r.put(q.Knots.GetMultiplicity(o.k));
            r.put(libnurbs::Binomial(9, o.n));
            break;
        }
        case 15:
        {
            auto v = libnurbs::BSplineBasis::Evaluate(q.Degree, q.Knots, o.a);
            for (int i = 0; i < (int)v.size(); ++i) r.put(v[i]);
            auto m = libnurbs::BSplineBasis::EvaluateAll(q.Degree, q.Knots, o.a, o.n);
            for (int i = 0; i < (int)m.rows(); ++i)
                for (int j = 0; j < (int)m.cols(); ++j) r.put(m(i, j));
            break;
        }
        default:
        {
            // a copy is independent of its original
            Curve x = q;
            x.Knots.InsertKnot(o.k);
            x.ControlPoints[0] += Vec4(1, 1, 1, 0);
            x.Degree += 1;
            r.put(x);
        }
        }
        return r.done();
    }
    const Surface& q = w.surfaces[o.obj];
    switch (o.what - CURVE_OPS)
    {
    case 0: r.put(q.Evaluate(o.a, o.b)); break;
    case 1: r.put(q.EvaluateDerivative(o.a, o.b, o.n, o.m)); break;
    case 2:
        for (auto& x : q.EvaluateAll(o.a, o.b, o.n, o.m).Values) r.put(x);
        break;
    case 3: r.put((int)q.IsRational()); break;
    case 4:
    {
        auto p = q.SearchParameter(o.point, o.a, o.b, 1e-6, 8);
        r.put(p.first);
        r.put(p.second);
        break;
    }
    case 5:
    {
        auto p = q.SearchParameterOn(o.point, o.m & 1, o.a, o.b, 1e-6, 10);
        r.put(p.first);
        r.put(p.second);
        break;
    }
    case 6:
    {
        auto p = q.BinarySearchParameterOn(o.point, o.m & 1, o.a, 1e-6, 20);
        r.put(p.first);
        r.put(p.second);
        break;
    }
    case 7: r.put(o.m & 1 ? q.InsertKnotU(o.k) : q.InsertKnotV(o.k)); break;
    case 8:
    {
        auto l = o.list;
        r.put(o.m & 1 ? q.InsertKnotU(l) : q.InsertKnotV(l));
        if (l != o.list) r.argumentChanged = true;
        break;
    }
    case 9:
    {
        auto [x, t] = o.m & 1 ? q.RemoveKnotU(o.k, o.n, o.tol) : q.RemoveKnotV(o.k, o.n, o.tol);
        r.put(x);
        r.put(t);
        break;
    }
    case 10: r.put(o.m & 1 ? q.ElevateDegreeU(1) : q.ElevateDegreeV(1)); break;
    case 11: r.put(q.Transform(o.R)); break;
    case 12:
    {
        std::ostringstream os(std::ios::binary);
        q.SaveToFile(os, o.bin);
        r.s += os.str();
        break;
    }
    case 14:
    {
        Surface x = q;
        r.put(x.AlignParameterDomain((Surface::AlignAxis)(o.n - 1), (Surface::AlignAxis)((o.n + o.m) % 3)));
        break;
    }
    default:
    {
        Surface x = q;
        x.KnotsU.InsertKnot(o.k);
        x.ControlPoints.Get(0, 0) += Vec4(1, 1, 1, 0);
        x.ControlPoints.InsertU(0, Vec4::Zero());
        r.put(x);
        break;
    }
    }
    return r.done();
}

static void prop(Case& c)
{
    World w;
    int nc = c.range(1, 2), ns = c.range(1, 2);
    for (int i = 0; i < nc; ++i) w.curves.push_back(curve(c, {.maxDegree = 4, .k = {.maxDistinct = 3, .rareDistinct = 6, .maxRatio = 20}, .weightStyle = 3, .pointStyle = 2}));
    for (int i = 0; i < ns; ++i) w.surfaces.push_back(surface(c, {.maxDegree = 3, .k = {.maxDistinct = 2, .rareDistinct = 4, .maxRatio = 20}, .weightStyle = 3, .pointStyle = 2}));
    int n = c.range(2, 14);
    std::vector<Op> ops(n);
    for (auto& o : ops)
    {
        o.what = (int)c.draw(CURVE_OPS + SURFACE_OPS);
        bool onCurve = o.what < CURVE_OPS;
        o.obj = c.range(0, onCurve ? nc - 1 : ns - 1);
        o.n = c.range(1, 3);
        o.m = c.range(0, 1);
        auto& U = onCurve ? w.curves[o.obj].Knots.Values() : w.surfaces[o.obj].KnotsU.Values();
        int p = onCurve ? w.curves[o.obj].Degree : std::min(w.surfaces[o.obj].DegreeU, w.surfaces[o.obj].DegreeV);
        o.a = param(c, U);
        o.b = param(c, onCurve ? U : w.surfaces[o.obj].KnotsV.Values());
        (void)p;
        o.k = 0.37 + 0.01 * c.range(0, 20); // rarely a knot
        if (o.what == 8 || o.what == CURVE_OPS + 9)
        {
            std::vector<double> in;
            for (double x : onCurve || (o.m & 1) ? U : w.surfaces[o.obj].KnotsV.Values())
                if (x > 0 && x < 1) in.push_back(x);
            if (!in.empty()) o.k = in[c.draw(in.size())];
            o.tol = std::pow(10.0, -c.range(0, 8)) * 0.01;
        }
        o.list = {0.431, 0.271};
        if (c.chance(60))
        {
            o.list.clear();
            for (int i = c.range(0, 4); i > 0; --i) o.list.push_back(0.2 + 0.013 * c.range(0, 40)); // hardly ever a knot; any order
            std::vector<double> l = o.list;
            std::sort(l.begin(), l.end());
            l.erase(std::unique(l.begin(), l.end()), l.end());
            if (l.size() != o.list.size()) o.list = {0.7, 0.3, 0.5};
            std::erase_if(o.list, [&](double x) { return mult(U, x) > 0 || (!onCurve && mult(w.surfaces[o.obj].KnotsV.Values(), x) > 0); });
        }
        o.point = points(c, 1, 2)[0];
        for (int i = 0; i < 9; ++i) o.R(i / 3, i % 3) = (i * 7 + o.n) % 5 - 2;
        if (c.chance(30)) o.R = Mat3x3::Identity() * c.range(1, 3);
        o.bin = c.chance(50);
        c.log([&](std::ostream& s) { s << (onCurve ? "curve " : "surface ") << o.obj << "." << NAMES[o.what] << " a=" << o.a << " b=" << o.b << " n=" << o.n << " m=" << o.m << " k=" << o.k; });
    }
    c.log([&](std::ostream& s) { for (auto& x : w.curves) put(s, x), s << "\n"; for (auto& x : w.surfaces) put(s, x), s << "\n"; });
    const World pristine = w;
    // the order in which every agent calls
    int threads = c.range(2, 5);
    std::vector<std::vector<int>> order(threads);
    for (auto& o : order)
    {
        int len = c.range(1, 2 * n);
        for (int i = 0; i < len; ++i) o.push_back((int)c.draw(n));
    }
    const bool threadsFirst = c.chance(50);
    std::vector<std::string> expected(n);
    auto serial = [&](World& x, bool first)
    {
        // forwards, then in the threads' orders: the same call gives the same answer whatever came before
        if (first)
            for (int i = 0; i < n; ++i)
            {
                expected[i] = run(x, ops[i]);
                c.check(!expected[i].starts_with("ARG"), [&](std::ostream& s) { s << "call " << i << " (" << NAMES[ops[i].what] << ") changed its argument"; });
            }
        for (auto& o : order)
            for (int i : o)
            {
                std::string r = run(x, ops[i]);
                c.check(r == expected[i], [&](std::ostream& s) { s << "call " << i << " (" << NAMES[ops[i].what] << ") gives a different answer when repeated"; });
            }
    };
    auto unchanged = [&](const World& x, const char* when)
    {
        bool ok = true;
        for (size_t i = 0; i < x.curves.size(); ++i) ok = ok && bits(x.curves[i], pristine.curves[i]);
        for (size_t i = 0; i < x.surfaces.size(); ++i) ok = ok && bits(x.surfaces[i], pristine.surfaces[i]);
        c.check(ok, [&](std::ostream& s) { s << "a read-only call modified its object (" << when << ")"; });
    };
    World a = pristine, b = pristine;
    if (!threadsFirst) serial(a, true);
    std::vector<std::vector<std::string>> got(threads);
    {
        std::atomic<int> ready{0};
        std::vector<std::thread> ts;
        for (int t = 0; t < threads; ++t)
            ts.emplace_back([&, t]
            {
                got[t].reserve(order[t].size());
                ++ready;
                while (ready.load() < threads) std::this_thread::yield();
                for (int i : order[t]) got[t].push_back(run(b, ops[i]));
            });
        for (auto& t : ts) t.join();
    }
    unchanged(b, "concurrently");
    if (threadsFirst) serial(a, true);
    unchanged(a, "serially");
    for (int t = 0; t < threads; ++t)
        for (size_t i = 0; i < order[t].size(); ++i)
            c.check(got[t][i] == expected[order[t][i]], [&](std::ostream& s)
            { s << "thread " << t << " got a different answer for call " << order[t][i] << " (" << NAMES[ops[order[t][i]].what] << ")"; });
    // and again on the objects the threads used
    serial(b, false);
    unchanged(b, "afterwards");
    c.nontrivial();
    c.label_if(threadsFirst, "threads before any serial call");
}

const pbt::Property THE_PROPERTY{"C29", prop, 8000, 150000, "two or more threads share the objects", true};
