#include "gen.hpp"
#include <libnurbs/Algorithm/MathUtils.hpp>
using namespace gen;
using libnurbs::Approx;
using libnurbs::Vec3;
using libnurbs::VecX;

namespace
{
    void combinatorics(Case& c)
    {
        static const std::vector<std::vector<long>> pascal = []
        {
            std::vector<std::vector<long>> t(30, std::vector<long>(30, 0));
            for (int n = 0; n < 30; ++n)
            {
                t[n][0] = 1;
                for (int k = 1; k <= n; ++k) t[n][k] = t[n - 1][k - 1] + t[n - 1][k];
            }
            return t;
        }();
        const int n = c.range(0, 29), k = c.pick({8, 1}) ? c.range(0, 2000000000) : c.range(0, 34), f = c.range(0, 9);
        c.log([&](std::ostream& o) { o << "Binomial(" << n << "," << k << "), Factorial(" << f << ")"; });
        const long b = k <= n ? pascal[n][k] : 0;
        c.check(libnurbs::Binomial(n, k) == b, [&](std::ostream& o) { o << "Binomial is " << libnurbs::Binomial(n, k) << ", not " << b; });
        long p = 1;
        for (int i = 2; i <= f; ++i) p *= i;
        c.check(libnurbs::Factorial(f) == p, [&](std::ostream& o) { o << "Factorial is " << libnurbs::Factorial(f) << ", not " << p; });
        c.label("combinatorics");
        if (k > 0) c.nontrivial();
    }

    double magnitude(Case& c)
    {
        switch (c.pick({3, 3, 2, 1}))
        {
        case 0: return c.range(0, 40) - 20;
        case 1: return c.unit() * 2 - 1;
        case 2: return (c.chance(50) ? -1 : 1) * std::pow(10.0, c.unit() * 20 - 10);
        default: return 0;
        }
    }

    double epsilon(Case& c)
    {
        switch (c.pick({3, 3, 1}))
        {
        case 0: return 1e-6;
        case 1: return std::ldexp(1.0, -c.range(0, 40));
        default: return std::pow(10.0, c.unit() * 12 - 9);
        }
    }

    // another number whose distance lies on one or the other side of eps, often hardly
    double partner(Case& c, double a, double eps)
    {
        double s = c.chance(50) ? -1 : 1;
        switch (c.pick({2, 3, 2, 2, 1}))
        {
        case 0: return a;
        case 1: return a + s * eps * c.unit() * 2;
        case 2: return a + s * eps;
        case 3:
        {
            double b = a + s * eps;
            for (int n = c.range(1, 3), up = c.chance(50); n > 0; --n) b = std::nextafter(b, up ? 1e300 : -1e300);
            return b;
        }
        default: return magnitude(c);
        }
    }

    void numbers(Case& c)
    {
        const double eps = epsilon(c), a = magnitude(c), b = partner(c, a, eps);
        c.log([&](std::ostream& o) { o << "Approx(" << a << ", " << b << ", " << eps << ")"; });
        const bool want = std::fabs(a - b) < eps;
        c.check(Approx(a, b, eps) == want, [&](std::ostream& o) { o << "Approx says " << !want << " at distance " << std::fabs(a - b); });
        c.check(Approx(b, a, eps) == want, "Approx is not symmetric");
        const bool def = std::fabs(a - b) < 1e-6;
        c.check(Approx(a, b) == def, [&](std::ostream& o) { o << "Approx with the default epsilon says " << !def << " at distance " << std::fabs(a - b); });
        c.check(Approx(b, a) == def, "Approx with the default epsilon is not symmetric");
        c.label(want ? "equal" : "different");
        if (a != b) c.nontrivial();
    }

    template <class V>
    void vectors(Case& c, V a, V b)
    {
        const double eps = epsilon(c);
        for (int i = 0; i < a.size(); ++i)
        {
            a[i] = magnitude(c);
            b[i] = c.chance(50) ? partner(c, a[i], eps) : a[i];
        }
        c.log([&](std::ostream& o) { o << "Approx([" << a.transpose() << "], [" << b.transpose() << "], " << eps << ")"; });
        bool want = true, def = true;
        for (int i = 0; i < a.size(); ++i)
        {
            want = want && std::fabs(a[i] - b[i]) < eps;
            def = def && std::fabs(a[i] - b[i]) < 1e-6;
        }
        c.check(Approx(a, b, eps) == want, [&](std::ostream& o) { o << "vector Approx says " << !want; });
        c.check(Approx(b, a, eps) == want, "vector Approx is not symmetric");
        c.check(Approx(a, b) == def, "vector Approx with the default epsilon is wrong");
        c.check(Approx(b, a) == def, "vector Approx with the default epsilon is not symmetric");
        c.label(want ? "vectors equal" : "vectors different");
        if (a != b) c.nontrivial();
    }

    void homogeneous(Case& c)
    {
        Vec4 p;
        for (int i = 0; i < 3; ++i) p[i] = magnitude(c);
        double w = std::fabs(magnitude(c));
        if (w == 0) w = 1;
        if (c.chance(10)) w = -w;
        p[3] = w;
        const Vec4 q = p;
        Vec4 h = libnurbs::ToHomo(p), back = libnurbs::FromHomo(h), f = libnurbs::FromHomo(p), again = libnurbs::ToHomo(f);
        c.log([&](std::ostream& o) { o << "point " << p.transpose(); });
        c.check(p == q, "the conversion changed its argument");
        c.check(sameBits(h[3], w) && sameBits(f[3], w) && sameBits(back[3], w) && sameBits(again[3], w), "the weight is not kept");
        for (int i = 0; i < 3; ++i)
        {
            const L prod = (L)p[i] * w, quot = (L)p[i] / w;
            c.check(std::fabs((L)h[i] - prod) <= 1e-15L * std::fabs(prod), [&](std::ostream& o) { o << "homogeneous coordinate " << i << " is " << h[i]; });
            c.check(std::fabs((L)f[i] - quot) <= 1e-15L * std::fabs(quot), [&](std::ostream& o) { o << "Cartesian coordinate " << i << " is " << f[i]; });
            c.check(std::fabs((L)back[i] - p[i]) <= 1e-15L * std::fabs(p[i]), [&](std::ostream& o) { o << "coordinate " << i << " comes back as " << back[i]; });
            c.check(std::fabs((L)again[i] - p[i]) <= 1e-15L * std::fabs(p[i]), [&](std::ostream& o) { o << "homogeneous coordinate " << i << " comes back as " << again[i]; });
        }
        c.label("homogeneous");
        if (w != 1) c.nontrivial();
    }

    void prop(Case& c)
    {
        switch (c.pick({2, 2, 1, 1, 1, 2}))
        {
        case 0: combinatorics(c); break;
        case 1: numbers(c); break;
        case 2: vectors(c, Vec3(Vec3::Zero()), Vec3(Vec3::Zero())); break;
        case 3: vectors(c, Vec4(Vec4::Zero()), Vec4(Vec4::Zero())); break;
        case 4:
        {
            int n = c.range(1, 9);
            vectors(c, VecX(VecX::Zero(n)), VecX(VecX::Zero(n)));
            break;
        }
        default: homogeneous(c); break;
        }
    }
}

const pbt::Property THE_PROPERTY{"C32", prop, 12000000, 100000000, "k > 0, two different arguments, or a weight other than 1"};
