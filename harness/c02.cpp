#include "gen.hpp"
using namespace gen;
using libnurbs::BSplineBasis;
using libnurbs::VecX;
using libnurbs::MatX;

static void prop(Case& c)
{
    int p = c.pick({30, 1}) == 0 ? degree(c, 20) : 0;
    auto U = knots(c, p, KnotOpt{.maxMult = p + 1, .maxRatio = 100000000, .veryRare = 200});
    KnotVector kv(U);
    double u = param(c, U);
    int order = c.pick({3, 3}) == 0 ? c.range(1, 3) : c.range(0, p + 3);
    c.log([&](std::ostream& o) { o << "degree=" << p << " knots="; put(o, U); o << " u=" << u << " order=" << order; });
    c.label_if(order > p, "order above degree");
    c.label_if(order >= 3, "order>=3");
    c.label_if(mult(U, u) > 0 && u > 0 && u < 1, "u at interior knot");
    if (order >= 2 && p >= 2 && (int)U.size() > 2 * p + 2) c.nontrivial();
    auto r = ref::basis(p, U, u, order);
    const MatX a = BSplineBasis::EvaluateAll(p, kv, u, order);
    const MatX b = BSplineBasis::EvaluateAll(p, U, r.k, u, order);
    c.check(a.rows() == order + 1 && a.cols() == p + 1 && b.rows() == order + 1 && b.cols() == p + 1,
            [&](std::ostream& o) { o << "table is " << a.rows() << "x" << a.cols() << ", expected " << order + 1 << "x" << p + 1; });
    for (int d = 0; d <= order; ++d)
    {
        const VecX e1 = BSplineBasis::EvaluateDerivative(p, kv, u, d);
        const VecX e2 = BSplineBasis::EvaluateDerivative(p, U, r.k, u, d);
        c.check(e1.size() == p + 1 && e2.size() == p + 1, "wrong number of derivative values");
        L big = 0;
        for (int i = 0; i <= p; ++i) big = std::max(big, r.A[d][i]);
        L tol = d > p ? 0 : 1e-11L * big + 1e-13L;
        L sum = 0;
        for (int i = 0; i <= p; ++i)
        {
            L e = r.N[d][i];
            sum += a(d, i);
            bool ok = within(c, std::fabs(a(d, i) - e), tol) && within(c, std::fabs(b(d, i) - e), tol) &&
                      within(c, std::fabs(e1[i] - e), tol) && within(c, std::fabs(e2[i] - e), tol);
            c.check(ok, [&](std::ostream& o)
            {
                o << "derivative " << d << " of basis function " << i << " at u=" << u << ": got " << a(d, i) << "/" << b(d, i) << "/"
                  << e1[i] << "/" << e2[i] << ", definition gives " << (double)e << " (tolerance " << (double)tol << ")";
            });
        }
        if (d > 0)
            c.check(within(c, std::fabs(sum), tol * (p + 1)), [&](std::ostream& o) { o << "derivatives of order " << d << " sum to " << (double)sum; });
    }
}

const pbt::Property THE_PROPERTY{"C02", prop, 600000, 20000000,
    "derivative order >= 2, degree >= 2 and at least one interior knot"};
