#include "gen.hpp"
using namespace gen;

static void prop(Case& c)
{
    Curve cv = curve(c, {.maxDegree = 16, .k = {.maxRatio = 1000000000, .veryRare = 200, .tiny = true}, .extraMult = 1, .wide = true, .maxFactor = 30});
    const auto U = cv.Knots.Values();
    const int p = cv.Degree;
    c.log([&](std::ostream& o) { put(o, cv); });
    // generate an insertion list that respects multiplicity <= p+1
    std::vector<double> model = U, list;
    int n = c.pick({8, 1}) == 0 ? c.range(0, 6) : c.range(0, 24);
    int onExisting = 0;
    for (int k = 0; k < n; ++k)
    {
        double v;
        switch (c.pick({3, 3, 2, 2}))
        {
        case 0: v = interiorParam(c, model); break;
        case 1: v = model[c.draw(model.size())]; break;
        case 2: v = list.empty() ? 0.5 : list[c.draw(list.size())]; break;
        default: v = param(c, model); break;
        }
        if (!(v > 0 && v < 1)) v = 0.5;
        if (mult(model, v) >= p + 1) continue;
        onExisting += mult(model, v) > 0;
        list.push_back(v);
        model = sortedInsert(model, {v});
    }
    c.log([&](std::ostream& o) { o << "insert "; put(o, list); });
    c.label_if(list.empty(), "empty list");
    c.label_if(onExisting > 0, "on an existing knot");
    c.label_if(!std::is_sorted(list.begin(), list.end()), "unsorted list");
    bool full = false;
    for (double v : list) full |= mult(model, v) >= p;
    c.label_if(full, "multiplicity reaches the degree");
    if (list.size() >= 2 && p >= 2) c.nontrivial();
    auto sz = ref::sizeOf(cv.ControlPoints);
    L rel = 1e-12L * std::max<L>(10, sz.ratio());
    auto before = cv;

    auto verify = [&](const Curve& r, const std::vector<double>& K, const char* what)
    {
        c.check(r.Degree == p, "insertion changed the degree");
        c.check(same(r.Knots.Values(), K), [&](std::ostream& o)
        {
            o << what << ": knot vector is ";
            put(o, r.Knots.Values());
            o << ", expected ";
            put(o, K);
        });
        c.check(r.ControlPoints.size() == cv.ControlPoints.size() + (K.size() - U.size()), [&](std::ostream& o)
        { o << what << ": " << r.ControlPoints.size() << " control points, expected " << cv.ControlPoints.size() + (K.size() - U.size()); });
        for (auto& q : r.ControlPoints) c.check(q.w() > 0 && std::isfinite(q.w()), "insertion produced a non-positive weight");
        checkSameShape(c, cv, r, rel, what);
    };
    auto agree = [&](const Curve& a, const Curve& b, const char* what)
    {
        c.check(a.Degree == b.Degree && same(a.Knots.Values(), b.Knots.Values()) && a.ControlPoints.size() == b.ControlPoints.size(), what);
        for (size_t i = 0; i < a.ControlPoints.size(); ++i)
        {
            for (int d = 0; d < 3; ++d) c.check(std::fabs(a.ControlPoints[i][d] - b.ControlPoints[i][d]) <= rel * 100 * (sz.maxP + 1e-30L), what);
            c.check(std::fabs(a.ControlPoints[i].w() - b.ControlPoints[i].w()) <= 1e-10L * sz.wMax, what);
        }
    };

    std::vector<double> arg = list;
    Curve viaList = cv.InsertKnot(std::span<double>(arg));
    c.check(same(arg, list), "insertion changed its argument list");
    verify(viaList, model, "list insertion");
    if (list.empty()) c.check(same(viaList, cv), "inserting an empty list changed the curve");

    // one by one
    Curve step = cv;
    std::vector<double> K = U;
    for (double v : list)
    {
        step = step.InsertKnot(v);
        K = sortedInsert(K, {v});
        c.check(same(step.Knots.Values(), K), "single insertion gives a wrong knot vector");
    }
    if (!list.empty()) verify(step, model, "single insertions");
    agree(step, viaList, "single insertions and list insertion disagree");

    // repeated form on one value
    double v = list.empty() ? (c.chance(50) ? 0.5 : interiorParam(c, U)) : list[c.draw(list.size())];
    int room = p + 1 - mult(U, v);
    if (room >= 0)
    {
        int times = c.range(0, room);
        c.log([&](std::ostream& o) { o << "insert " << v << " x" << times; });
        Curve rep = cv.InsertKnot(v, times);
        verify(rep, sortedInsert(U, std::vector<double>(times, v)), "repeated insertion");
        if (times == 0) c.check(same(rep, cv), "inserting zero times changed the curve");
        Curve one = cv;
        for (int k = 0; k < times; ++k) one = one.InsertKnot(v);
        agree(one, rep, "repeated insertion disagrees with single insertions");
    }
    c.check(same(cv, before), "insertion modified the curve it was called on");
}

const pbt::Property THE_PROPERTY{"C09", prop, 300000, 3000000,
    "degree >= 2 and at least two knots inserted (mixed new / existing / repeated values, unsorted)"};
