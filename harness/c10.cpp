#include "gen.hpp"
using namespace gen;

static void prop(Case& c)
{
    Surface s = surface(c, {.maxDegree = 5, .k = {.maxDistinct = 3, .rareDistinct = 5, .maxRatio = 1000000000, .veryRare = 30, .tiny = true}, .extraMult = 1, .wide = true, .maxFactor = 30, .longDir = 300});
    const bool dirV = c.chance(50);
    const auto U = dirV ? s.KnotsV.Values() : s.KnotsU.Values();
    const int p = dirV ? s.DegreeV : s.DegreeU;
    std::vector<double> model = U, list;
    int n = c.range(0, 5), onExisting = 0;
    for (int k = 0; k < n; ++k)
    {
        double v;
        switch (c.pick({3, 3, 2, 2}))
        {
        case 0: v = interiorParam(c, model); break;
        case 1: v = model[c.draw(model.size())]; break;
        case 2: v = list.empty() ? 0.5 : list[c.draw(list.size())]; break;
        default: v = param(c, model); break;
        }
        if (!(v > 0 && v < 1)) v = 0.5;
        if (mult(model, v) >= p + 1) continue;
        onExisting += mult(model, v) > 0;
        list.push_back(v);
        model = sortedInsert(model, {v});
    }
    c.log([&](std::ostream& o) { put(o, s); o << (dirV ? " insert in V " : " insert in U "); put(o, list); });
    c.label(dirV ? "V" : "U");
    c.label_if(list.empty(), "empty list");
    c.label_if(onExisting > 0, "on an existing knot");
    c.label_if(!std::is_sorted(list.begin(), list.end()), "unsorted list");
    if (list.size() >= 2 && s.ControlPoints.UCount != s.ControlPoints.VCount) c.nontrivial();
    auto sz = ref::sizeOf(s.ControlPoints.Values);
    L rel = 1e-12L * std::max<L>(10, sz.ratio());
    auto before = s;
    const int nu = s.ControlPoints.UCount, nv = s.ControlPoints.VCount;

    auto verify = [&](const Surface& r, const std::vector<double>& K, const char* what, bool shape)
    {
        int add = (int)(K.size() - U.size());
        c.check(r.DegreeU == s.DegreeU && r.DegreeV == s.DegreeV, "insertion changed a degree");
        c.check(same(dirV ? r.KnotsV.Values() : r.KnotsU.Values(), K), [&](std::ostream& o)
        {
            o << what << ": knot vector is ";
            put(o, dirV ? r.KnotsV.Values() : r.KnotsU.Values());
            o << ", expected ";
            put(o, K);
        });
        c.check(same(dirV ? r.KnotsU.Values() : r.KnotsV.Values(), dirV ? s.KnotsU.Values() : s.KnotsV.Values()), "insertion changed the knots of the other direction");
        c.check(r.ControlPoints.UCount == nu + (dirV ? 0 : add) && r.ControlPoints.VCount == nv + (dirV ? add : 0) && wellFormed(r),
                [&](std::ostream& o) { o << what << ": grid is " << r.ControlPoints.UCount << "x" << r.ControlPoints.VCount << " with " << r.ControlPoints.Values.size() << " points"; });
        for (auto& q : r.ControlPoints.Values) c.check(q.w() > 0 && std::isfinite(q.w()), "insertion produced a non-positive weight");
        if (shape) checkSameShape(c, s, r, rel, what);
    };
    auto agree = [&](const Surface& a, const Surface& b, const char* what)
    {
        c.check(a.ControlPoints.UCount == b.ControlPoints.UCount && a.ControlPoints.VCount == b.ControlPoints.VCount &&
                    a.ControlPoints.Values.size() == b.ControlPoints.Values.size() && same(a.KnotsU.Values(), b.KnotsU.Values()) && same(a.KnotsV.Values(), b.KnotsV.Values()), what);
        for (size_t i = 0; i < a.ControlPoints.Values.size(); ++i)
        {
            for (int d = 0; d < 3; ++d) c.check(std::fabs(a.ControlPoints.Values[i][d] - b.ControlPoints.Values[i][d]) <= rel * 100 * (sz.maxP + 1e-30L), what);
            c.check(std::fabs(a.ControlPoints.Values[i].w() - b.ControlPoints.Values[i].w()) <= 1e-10L * sz.wMax, what);
        }
    };
    auto ins1 = [&](const Surface& x, double v) { return dirV ? x.InsertKnotV(v) : x.InsertKnotU(v); };
    auto insN = [&](const Surface& x, double v, int t) { return dirV ? x.InsertKnotV(v, t) : x.InsertKnotU(v, t); };

    std::vector<double> arg = list;
    Surface viaList = dirV ? s.InsertKnotV(std::span<double>(arg)) : s.InsertKnotU(std::span<double>(arg));
    c.check(same(arg, list), "insertion changed its argument list");
    verify(viaList, model, "list insertion", true);
    if (list.empty()) c.check(same(viaList, s), "inserting an empty list changed the surface");
    Surface step = s;
    for (double v : list) step = ins1(step, v);
    verify(step, model, "single insertions", !list.empty());
    agree(step, viaList, "single insertions and list insertion disagree");
    // the other direction of the transposed surface
    Surface t = transposed(s);
    std::vector<double> arg2 = list;
    Surface tl = dirV ? t.InsertKnotU(std::span<double>(arg2)) : t.InsertKnotV(std::span<double>(arg2));
    c.check(wellFormed(tl), "insertion on the transposed surface gives an ill-formed surface");
    agree(transposed(tl), viaList, "inserting in U and in V of the transposed surface disagree");
    // repeated form
    double v = list.empty() ? 0.5 : list[c.draw(list.size())];
    int room = p + 1 - mult(U, v);
    if (room >= 0)
    {
        int times = c.range(0, room);
        c.log([&](std::ostream& o) { o << "insert " << v << " x" << times; });
        Surface rep = insN(s, v, times);
        verify(rep, sortedInsert(U, std::vector<double>(times, v)), "repeated insertion", true);
        if (times == 0) c.check(same(rep, s), "inserting zero times changed the surface");
    }
    c.check(same(s, before), "insertion modified the surface it was called on");
}

const pbt::Property THE_PROPERTY{"C10", prop, 120000, 1200000,
    "at least two knots inserted into a surface with a non-square grid"};
