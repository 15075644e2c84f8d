#include "gen.hpp"
using namespace gen;
using libnurbs::BSplineBasis;
using libnurbs::VecX;
using libnurbs::MatX;

static void prop(Case& c)
{
    int p = c.pick({30, 1}) == 0 ? degree(c, 20) : 0;
    auto U = knots(c, p, KnotOpt{.maxMult = p + 1, .maxRatio = 1000000000, .veryRare = 300, .tiny = true});
    KnotVector kv(U);
    std::vector<double> us;
    int n = c.range(1, 6);
    for (int i = 0; i < n; ++i) us.push_back(param(c, U));
    c.log([&](std::ostream& o) { o << "degree=" << p << " knots="; put(o, U); o << " u="; put(o, us); });
    c.label_if(p >= 4, "degree>=4");
    c.label_if((int)U.size() > 2 * p + 2, "interior knots");
    for (double u : us)
    {
        auto r = ref::basis(p, U, u, 0);
        bool atKnot = mult(U, u) > 0;
        c.label_if(atKnot && u > 0 && u < 1, "u at interior knot");
        c.label_if(atKnot && u > 0 && u < 1 && mult(U, u) > 1, "u at repeated interior knot");
        c.label_if(u == 0 || u == 1, "u at an end");
        c.label_if(r.k > p, "u beyond the first span");
        if ((int)U.size() > 2 * p + 2 && p >= 2) c.nontrivial();
        const VecX a = BSplineBasis::Evaluate(p, kv, u);
        const VecX b = BSplineBasis::Evaluate(p, U, r.k, u);
        const MatX all = BSplineBasis::EvaluateAll(p, kv, u, 0);
        c.check(a.size() == p + 1 && b.size() == p + 1 && all.rows() == 1 && all.cols() == p + 1,
                [&](std::ostream& o) { o << "expected " << p + 1 << " basis values at u=" << u << ", got " << a.size() << "/" << b.size() << "/" << all.cols(); });
        auto r0 = ref::basis0(p, U, u); // the two reference paths must agree (self-check of the oracle)
        if (r0.k != r.k) throw std::runtime_error("oracle self-check: spans differ");
        for (int i = 0; i <= p; ++i)
            if (r0.N[i] != r.N[0][i]) throw std::runtime_error("oracle self-check: values differ");
        L sum = 0;
        for (int i = 0; i <= p; ++i)
        {
            L e = r.N[0][i];
            sum += a[i];
            c.check(a[i] >= -1e-14, [&](std::ostream& o) { o << "negative basis value " << a[i] << " (function " << i << ") at u=" << u; });
            c.check(within(c, std::fabs(a[i] - e), 1e-12L) && within(c, std::fabs(b[i] - e), 1e-12L) && within(c, std::fabs(all(0, i) - e), 1e-12L),
                    [&](std::ostream& o)
                    {
                        o << "basis function " << i << " at u=" << u << ": got " << a[i] << " (by knot vector), " << b[i]
                          << " (by span), " << all(0, i) << " (all orders), definition gives " << (double)e;
                    });
        }
        c.check(within(c, std::fabs(sum - 1), 1e-12L), [&](std::ostream& o) { o << "basis values sum to " << (double)sum << " at u=" << u; });
        // the default-order form also starts with the values
        const MatX def = BSplineBasis::EvaluateAll(p, kv, u);
        c.check(def.rows() == 2 && def.cols() == p + 1, "default order must give values and first derivatives");
        for (int i = 0; i <= p; ++i)
            c.check(std::fabs(def(0, i) - r.N[0][i]) <= 1e-12L, "values in the all-orders table differ from the definition");
    }
}

const pbt::Property THE_PROPERTY{"C01", prop, 500000, 15000000,
    "degree >= 2, at least one interior knot; 1-6 parameters per case incl. knots, neighbours of knots and both ends"};
