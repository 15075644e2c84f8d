// Generators and helpers shared by the properties.
#pragma once
#include "pbt.hpp"
#include "ref.hpp"
#include <algorithm>
#include <cfloat>
#include <string>
#include <vector>

namespace gen
{
    using libnurbs::Curve;
    using libnurbs::KnotVector;
    using libnurbs::Surface;
    using libnurbs::Vec3;
    using libnurbs::Vec4;
    using pbt::Case;
    using ref::L;

    // ---- degrees ------------------------------------------------------------------------------------------
    inline int degree(Case& c, int hi = 9)
    {
        int d;
        if (hi > 9 && c.pick({24, 1}) == 1) return c.range(10, hi);
        switch (c.pick({6, 5, 2}))
        {
        case 0: d = c.range(1, 3); break;
        case 1: d = c.range(1, 5); break;
        default: d = c.range(1, 9); break;
        }
        return std::min(d, hi);
    }

    struct KnotOpt
    {
        int maxMult = 1;     // of interior knots
        int maxDistinct = 6; // usual number of distinct interior knots
        int rareDistinct = 40;
        int maxRatio = 1000; // ratio of the longest to the shortest span
        int minDistinct = 0;
        int veryRare = 0;    // in about 1 of 500 cases up to so many distinct interior knots
        bool tiny = false;   // rarely knots next to each other or to an end, down to neighbouring doubles
    };

    // strictly increasing interior values in (0,1), gaps bounded below by construction
    inline std::vector<double> distinctInterior(Case& c, const KnotOpt& o)
    {
        int n;
        switch (o.veryRare ? c.pick({1400, 100, 3}) : c.pick({14, 1}))
        {
        case 0: n = c.range(o.minDistinct, std::max(o.minDistinct, o.maxDistinct)); break;
        case 1: n = c.range(o.minDistinct, std::max(o.minDistinct, o.rareDistinct)); break;
        default: n = c.range(o.rareDistinct, o.veryRare); break;
        }
        std::vector<double> r;
        if (n == 0) return r;
        int style = o.maxRatio > 1000 ? c.pick({4, 3, 3, 2, 1, 1, 2}) : c.pick({4, 3, 3, 2, 1, 1});
        std::vector<double> gaps(n + 1);
        const double decades = o.maxRatio > 1000 ? c.range(3, (int)std::log10((double)o.maxRatio)) : 3;
        int ratio = o.maxRatio > 1000 ? (int)std::pow(10.0, decades) : n > 12 ? std::min(o.maxRatio, 50) : o.maxRatio;
        for (int i = 0; i <= n; ++i)
        {
            switch (style)
            {
            case 0: gaps[i] = 1; break;                                     // uniform
            case 1: gaps[i] = c.range(1, std::min(4, ratio)); break;        // small integers
            case 2: gaps[i] = 1 + c.unit() * (std::min(ratio, 20) - 1); break; // random
            case 3: gaps[i] = c.range(0, 2) ? 1 : ratio; break;             // clusters
            case 4: gaps[i] = (i == 0 || i == n) ? 1 : ratio; break;        // knots close to both ends
            case 5: gaps[i] = std::min<double>(ratio, std::pow(4.0, c.range(0, 5))); break; // graded
            default: gaps[i] = std::pow(10.0, decades * c.unit()); break;   // spread over many decades
            }
        }
        double total = 0;
        for (double g : gaps) total += g;
        double acc = 0;
        for (int i = 0; i < n; ++i)
        {
            acc += gaps[i];
            double v = acc / total;
            if (v > 0 && v < 1 && (r.empty() || v > r.back())) r.push_back(v);
        }
        return r;
    }

    // a value next to 0, 1 or an existing knot
    inline double nextTo(Case& c, const std::vector<double>& in)
    {
        const int k = c.range(0, 2 + (int)in.size() - 1);
        const double e = std::pow(10.0, -c.range(7, 17)) * c.range(1, 9);
        if (k == 0) return c.chance(70) ? e : std::pow(10.0, -c.range(17, 100));
        const double x = k == 1 ? 1.0 : in[k - 2];
        if (c.chance(25)) return std::nextafter(x, k == 1 || c.chance(50) ? 0.0 : 1.0);
        return k == 1 || c.chance(50) ? x - e : x + e;
    }

    // clamped knot vector on [0,1]
    inline std::vector<double> knots(Case& c, int p, KnotOpt o)
    {
        auto in = distinctInterior(c, o);
        if (o.tiny && c.pick({14, 1}))
        {
            for (int n = c.range(1, 4); n > 0; --n)
            {
                const double x = nextTo(c, in);
                if (x > 0 && x < 1 && std::count(in.begin(), in.end(), x) == 0) in.insert(std::upper_bound(in.begin(), in.end(), x), x);
            }
        }
        std::vector<double> U(p + 1, 0.0);
        int mstyle = c.pick({5, 3, 1});
        for (double v : in)
        {
            int m = 1;
            if (o.maxMult > 1)
            {
                if (mstyle == 1) m = c.chance(40) ? c.range(1, o.maxMult) : 1;
                if (mstyle == 2) m = o.maxMult - c.range(0, 1);
            }
            for (int k = 0; k < std::max(1, m); ++k) U.push_back(v);
        }
        U.insert(U.end(), p + 1, 1.0);
        return U;
    }

    // ---- parameters -----------------------------------------------------------------------------------------
    inline double param(Case& c, const std::vector<double>& U)
    {
        switch (c.pick({4, 3, 2, 2, 3, 2, 1}))
        {
        case 0: return c.range(0, 8) / 8.0;
        case 1: return U[c.draw(U.size())];
        case 2:
        {
            double k = U[c.draw(U.size())];
            bool up = c.chance(50);
            double r = std::nextafter(k, up ? 2.0 : -1.0);
            return std::clamp(r, 0.0, 1.0);
        }
        case 3:
        {
            size_t i = c.draw(U.size() - 1);
            return std::clamp(U[i] + (U[i + 1] - U[i]) * (c.range(1, 7) / 8.0), 0.0, 1.0);
        }
        case 4: return c.unit();
        case 5:
        {
            double e = std::pow(10.0, -c.range(1, 15)) * (1 + c.range(0, 8));
            double k = U[c.draw(U.size())];
            return std::clamp(c.chance(50) ? k - e : k + e, 0.0, 1.0);
        }
        default: return c.chance(50) ? 1.0 - DBL_EPSILON / 2 : DBL_MIN * std::pow(2.0, c.range(0, 900));
        }
    }

    // parameter not closer than 1e-3 of its span to a knot and not a knot
    inline double interiorParam(Case& c, const std::vector<double>& U)
    {
        std::vector<size_t> s;
        for (size_t i = 0; i + 1 < U.size(); ++i)
            if (U[i] < U[i + 1]) s.push_back(i);
        size_t i = s[c.draw(s.size())];
        double f = c.chance(50) ? c.range(1, 7) / 8.0 : 0.01 + 0.98 * c.unit();
        return U[i] + (U[i + 1] - U[i]) * f;
    }

    // ---- weights and points ---------------------------------------------------------------------------------
    inline std::vector<double> weights(Case& c, size_t n, int maxStyle = 4, int maxFactor = 0)
    {
        // 5: also ratios up to 1e24
        int style = maxStyle >= 5   ? c.pick({15, 3, 9, 12, 3, 1})
                    : maxStyle == 4 ? c.pick({5, 1, 3, 4, 1})
                    : maxStyle == 3 ? c.pick({5, 1, 3, 4})
                                    : c.pick({5, 1, 3});
        std::vector<double> w(n, 1.0);
        double eq = style == 1 ? (c.range(1, 40) / 8.0) : 1.0;
        const int close = style <= 1 && c.pick({12, 1}) ? c.range(2, 13) : 0; // almost equal weights
        double common = maxFactor > 0 && c.pick({24, 1}) ? std::pow(10.0, c.range(-maxFactor, maxFactor)) : 1.0;
        for (auto& x : w)
        {
            switch (style)
            {
            case 0: x = 1; break;
            case 1: x = eq; break;
            case 2: x = c.range(1, 4); break;
            case 3: x = std::pow(10.0, -1 + 2 * c.unit()); break;
            case 4: x = std::pow(10.0, c.range(-3, 3)); break;
            default: x = std::pow(10.0, c.range(-12, 12)); break; // dominating control points
            }
            if (close) x *= 1 + c.range(-4, 4) * std::pow(10.0, -close);
            x *= common;
        }
        return w;
    }

    inline std::vector<Vec3> points(Case& c, size_t n, int maxStyle = 6, bool wide = false)
    {
        int style = maxStyle >= 6 ? c.pick({5, 3, 4, 2, 2, 1, 1}) : c.pick({5, 3, 4});
        std::vector<Vec3> r(n);
        double scale = 1, off[3] = {0, 0, 0};
        if (style == 3) scale = std::pow(10.0, wide && c.chance(30) ? c.range(-12, 12) : c.range(-3, 4));
        if (style == 4)
            for (double& o : off) o = c.range(-1000, 1000);
        Vec3 dir(c.range(1, 4), 0, 0);
        if (style == 5) dir = Vec3(c.range(1, 4), c.range(-3, 3), c.range(-3, 3));
        for (size_t i = 0; i < n; ++i)
        {
            Vec3 v;
            for (int k = 0; k < 3; ++k)
            {
                switch (style)
                {
                case 0: v[k] = c.range(0, 10) - 5; break;
                case 1: v[k] = c.range(0, 160) / 8.0 - 10; break;
                case 2: v[k] = c.unit() * 2 - 1; break;
                case 3: v[k] = scale * (c.unit() * 2 - 1); break;
                case 4: v[k] = off[k] + c.range(0, 200) / 16.0; break;
                case 5: v[k] = dir[k] * (double)i; break;
                default: v[k] = c.range(0, 2) ? 0 : c.range(-2, 2); break;
                }
            }
            if (style != 5 && i > 0 && c.pick({14, 1}) == 1) v = r[i - 1]; // coincident control points
            r[i] = v;
        }
        if (n > 1)
        {
            switch (c.pick({40, 4, 1}))
            {
            case 0: break;
            case 1: // flat: one coordinate is the same everywhere
            {
                const int k = c.range(0, 2);
                const double level = c.chance(50) ? 0.0 : r[0][k];
                for (auto& v : r) v[k] = level;
                break;
            }
            default: // everything in one point
                for (auto& v : r) v = r[0];
            }
        }
        return r;
    }

    struct CurveOpt
    {
        int maxDegree = 9;
        int exactDegree = 0;
        KnotOpt k{};
        bool multToDegree = true; // interior multiplicity up to p (else up to k.maxMult)
        int extraMult = 0;        // up to p + extraMult
        int weightStyle = 4;
        int pointStyle = 6;
        bool wide = false;        // coordinates of magnitude 1e-12 .. 1e12 (only where the judgement is relative)
        int maxFactor = 0;        // rarely a common weight factor of up to 10^+-maxFactor
    };

    inline Curve curve(Case& c, CurveOpt o = {})
    {
        int p = o.exactDegree ? o.exactDegree : degree(c, o.maxDegree);
        KnotOpt ko = o.k;
        if (o.multToDegree) ko.maxMult = p + o.extraMult;
        auto U = knots(c, p, ko);
        size_t n = U.size() - p - 1;
        auto w = weights(c, n, o.weightStyle, o.maxFactor);
        auto P = points(c, n, o.pointStyle, o.wide);
        if (c.pick({20, 1})) // closed
        {
            P.back() = P.front();
            if (c.chance(50)) w.back() = w.front();
        }
        Curve r;
        r.Degree = p;
        r.Knots = KnotVector(U);
        r.ControlPoints.resize(n);
        for (size_t i = 0; i < n; ++i) r.ControlPoints[i] << P[i].x(), P[i].y(), P[i].z(), w[i];
        return r;
    }

    struct SurfOpt
    {
        int maxDegree = 6;
        int exactU = 0, exactV = 0;
        KnotOpt k{.maxDistinct = 3, .rareDistinct = 8};
        int extraMult = 0;
        int weightStyle = 4;
        int pointStyle = 6;
        bool wide = false;        // coordinates of magnitude 1e-12 .. 1e12 (only where the judgement is relative)
        int maxFactor = 0;        // rarely a common weight factor of up to 10^+-maxFactor
        int longDir = 0;          // rarely up to so many distinct interior knots in one direction, few in the other
    };

    inline Surface surface(Case& c, SurfOpt o = {})
    {
        int pu = o.exactU ? o.exactU : degree(c, o.maxDegree), pv = o.exactV ? o.exactV : degree(c, o.maxDegree);
        KnotOpt ku = o.k, kv = o.k;
        ku.maxMult = pu + o.extraMult;
        kv.maxMult = pv + o.extraMult;
        if (o.longDir && c.pick({600, 1}))
        {
            const bool inV = c.chance(50);
            (inV ? pu : pv) = std::min(inV ? pu : pv, 2);
            (inV ? pv : pu) = std::min(inV ? pv : pu, 3);
            KnotOpt &l = inV ? kv : ku, &f = inV ? ku : kv;
            l.minDistinct = o.longDir / 2;
            l.maxDistinct = l.rareDistinct = o.longDir;
            l.maxMult = l.veryRare = 0;
            f.maxDistinct = f.rareDistinct = 1;
            f.veryRare = 0;
            f.maxMult = 1;
        }
        auto U = knots(c, pu, ku), V = knots(c, pv, kv);
        int nu = (int)U.size() - pu - 1, nv = (int)V.size() - pv - 1;
        size_t n = (size_t)nu * nv;
        auto w = weights(c, n, o.weightStyle, o.maxFactor);
        auto P = points(c, n, o.pointStyle, o.wide);
        switch (c.pick({40, 1, 1, 2}))
        {
        case 0: break;
        case 1: // closed in u
            for (int j = 0; j < nv; ++j) P[(size_t)j * nu + nu - 1] = P[(size_t)j * nu], w[(size_t)j * nu + nu - 1] = w[(size_t)j * nu];
            break;
        case 2: // closed in v
            for (int i = 0; i < nu; ++i) P[(size_t)(nv - 1) * nu + i] = P[i], w[(size_t)(nv - 1) * nu + i] = w[i];
            break;
        default: // a pole: one edge shrunk to a point
        {
            const int e = c.range(0, 3);
            if (e < 2)
                for (int i = 0; i < nu; ++i) P[(size_t)(e ? nv - 1 : 0) * nu + i] = P[(size_t)(e ? nv - 1 : 0) * nu];
            else
                for (int j = 0; j < nv; ++j) P[(size_t)j * nu + (e == 3 ? nu - 1 : 0)] = P[e == 3 ? nu - 1 : 0];
        }
        }
        Surface r;
        r.DegreeU = pu;
        r.DegreeV = pv;
        r.KnotsU = KnotVector(U);
        r.KnotsV = KnotVector(V);
        r.ControlPoints.UCount = nu;
        r.ControlPoints.VCount = nv;
        r.ControlPoints.Values.resize(n);
        for (size_t i = 0; i < n; ++i) r.ControlPoints.Values[i] << P[i].x(), P[i].y(), P[i].z(), w[i];
        return r;
    }

    // ---- printing -------------------------------------------------------------------------------------------
    inline void put(std::ostream& o, const std::vector<double>& v)
    {
        o << "[";
        for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i];
        o << "]";
    }

    inline void put(std::ostream& o, const std::vector<Vec4>& v)
    {
        o << "[";
        for (size_t i = 0; i < v.size(); ++i)
            o << (i ? "," : "") << "(" << v[i].x() << "," << v[i].y() << "," << v[i].z() << ";" << v[i].w() << ")";
        o << "]";
    }

    inline void put(std::ostream& o, const Curve& c)
    {
        o << "curve{p=" << c.Degree << ",U=";
        put(o, c.Knots.Values());
        o << ",P=";
        put(o, c.ControlPoints);
        o << "}";
    }

    inline void put(std::ostream& o, const Surface& s)
    {
        o << "surface{pu=" << s.DegreeU << ",pv=" << s.DegreeV << ",U=";
        put(o, s.KnotsU.Values());
        o << ",V=";
        put(o, s.KnotsV.Values());
        o << ",grid=" << s.ControlPoints.UCount << "x" << s.ControlPoints.VCount << ",P=";
        put(o, s.ControlPoints.Values);
        o << "}";
    }

    inline void put(std::ostream& o, const ref::P3& p)
    {
        o << "(" << (double)p.v[0] << "," << (double)p.v[1] << "," << (double)p.v[2] << ")";
    }

    inline void put(std::ostream& o, const Vec3& p) { o << "(" << p.x() << "," << p.y() << "," << p.z() << ")"; }

    // ---- comparisons (NaN-safe) -----------------------------------------------------------------------------
    inline bool sameBits(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0; }

    inline bool same(const std::vector<double>& a, const std::vector<double>& b)
    {
        if (a.size() != b.size()) return false;
        for (size_t i = 0; i < a.size(); ++i)
            if (!(a[i] == b[i])) return false;
        return true;
    }

    inline bool same(const std::vector<Vec4>& a, const std::vector<Vec4>& b)
    {
        if (a.size() != b.size()) return false;
        for (size_t i = 0; i < a.size(); ++i)
            for (int k = 0; k < 4; ++k)
                if (!(a[i][k] == b[i][k])) return false;
        return true;
    }

    inline bool same(const Curve& a, const Curve& b)
    {
        return a.Degree == b.Degree && same(a.Knots.Values(), b.Knots.Values()) && same(a.ControlPoints, b.ControlPoints);
    }

    inline bool same(const Surface& a, const Surface& b)
    {
        return a.DegreeU == b.DegreeU && a.DegreeV == b.DegreeV && same(a.KnotsU.Values(), b.KnotsU.Values()) &&
               same(a.KnotsV.Values(), b.KnotsV.Values()) && a.ControlPoints.UCount == b.ControlPoints.UCount &&
               a.ControlPoints.VCount == b.ControlPoints.VCount && same(a.ControlPoints.Values, b.ControlPoints.Values);
    }

    // err <= tol with NaN counted as failure; records the worst ratio
    inline bool within(Case& c, L err, L tol)
    {
        if (!(err <= tol)) return false;
        if (tol > 0) c.worst = std::max(c.worst, (double)(err / tol));
        return true;
    }

    inline bool wellFormed(const Curve& c)
    {
        return c.Degree >= 1 && (int)c.Knots.Values().size() == (int)c.ControlPoints.size() + c.Degree + 1;
    }

    inline bool wellFormed(const Surface& s)
    {
        return s.DegreeU >= 1 && s.DegreeV >= 1 && s.ControlPoints.UCount >= 1 && s.ControlPoints.VCount >= 1 &&
               (int)s.KnotsU.Values().size() == s.ControlPoints.UCount + s.DegreeU + 1 &&
               (int)s.KnotsV.Values().size() == s.ControlPoints.VCount + s.DegreeV + 1 &&
               (int)s.ControlPoints.Values.size() == s.ControlPoints.UCount * s.ControlPoints.VCount;
    }

    // clamped on [0,1] for its degree, non-decreasing
    inline bool clamped(int p, const std::vector<double>& U)
    {
        if ((int)U.size() < 2 * p + 2) return false;
        for (int i = 0; i <= p; ++i)
            if (!(U[i] == 0.0) || !(U[U.size() - 1 - i] == 1.0)) return false;
        for (size_t i = 1; i < U.size(); ++i)
            if (!(U[i - 1] <= U[i])) return false;
        return true;
    }

    // are the two curves the same map u -> R^3 ?  (sampled densely enough to decide for piecewise rationals)
    inline void checkSameShape(Case& c, const Curve& a, const Curve& b, L relTol, const char* what, int perSpan = 0)
    {
        auto sz = ref::sizeOf(a.ControlPoints);
        L tol = relTol * (sz.maxP + 1e-30L) * 1;
        int per = perSpan ? perSpan : std::min(2 * a.Degree + 1, 9);
        for (double u : ref::samples(a.Knots.Values().size() > b.Knots.Values().size() ? a.Knots.Values() : b.Knots.Values(), per))
        {
            auto x = ref::at(a, u), y = ref::at(b, u);
            L e = ref::dist(x, y);
            c.check(within(c, e, tol), [&](std::ostream& o)
            {
                o << what << ": curves differ at u=" << u << ": ";
                put(o, x);
                o << " vs ";
                put(o, y);
                o << " (distance " << (double)e << ", tolerance " << (double)tol << ")";
            });
        }
    }

    inline void checkSameShape(Case& c, const Surface& a, const Surface& b, L relTol, const char* what, int maxPer = 4)
    {
        auto sz = ref::sizeOf(a.ControlPoints.Values);
        L tol = relTol * (sz.maxP + 1e-30L);
        auto& U = a.KnotsU.Values().size() > b.KnotsU.Values().size() ? a.KnotsU.Values() : b.KnotsU.Values();
        auto& V = a.KnotsV.Values().size() > b.KnotsV.Values().size() ? a.KnotsV.Values() : b.KnotsV.Values();
        auto us = ref::samples(U, std::min(maxPer, a.DegreeU + 1));
        auto vs = ref::samples(V, std::min(maxPer, a.DegreeV + 1));
        // bound the number of samples
        size_t su = us.size() > 24 ? us.size() / 24 + 1 : 1, sv = vs.size() > 24 ? vs.size() / 24 + 1 : 1;
        std::vector<ref::Basis0> ua, ub;
        for (double u : us)
        {
            ua.push_back(ref::basis0(a.DegreeU, a.KnotsU.Values(), u));
            ub.push_back(ref::basis0(b.DegreeU, b.KnotsU.Values(), u));
        }
        for (size_t j = 0; j < vs.size(); j += sv)
        {
            auto va = ref::basis0(a.DegreeV, a.KnotsV.Values(), vs[j]), vb = ref::basis0(b.DegreeV, b.KnotsV.Values(), vs[j]);
            for (size_t i = 0; i < us.size(); i += su)
            {
                double u = us[i], v = vs[j];
                auto x = ref::surfAt(a, ua[i], va), y = ref::surfAt(b, ub[i], vb);
                L e = ref::dist(x, y);
                c.check(within(c, e, tol), [&](std::ostream& o)
                {
                    o << what << ": surfaces differ at (" << u << "," << v << "): ";
                    put(o, x);
                    o << " vs ";
                    put(o, y);
                    o << " (distance " << (double)e << ", tolerance " << (double)tol << ")";
                });
            }
        }
    }

    inline std::vector<double> sortedInsert(std::vector<double> U, const std::vector<double>& add)
    {
        U.insert(U.end(), add.begin(), add.end());
        std::sort(U.begin(), U.end());
        return U;
    }

    inline int mult(const std::vector<double>& U, double v) { return (int)std::count(U.begin(), U.end(), v); }

    // growth of rounding errors when v (multiplicity s) is taken out of U once: the unknown control points follow from
    // the outer ones by the insertion equations, solved from both ends to the middle
    inline L growth(const std::vector<double>& U, int p, double v, int s)
    {
        int r = (int)(std::upper_bound(U.begin(), U.end(), v) - U.begin()) - 1;
        int i = r - p, j = r - s;
        L a = 1, b = 1;
        while (j > i)
        {
            L x = (v - U[i]) / (U[i + p + 1] - U[i]), y = (v - U[j]) / (U[j + p + 1] - U[j]);
            a = (1 + (1 - x) * a) / x;
            b = (1 + y * b) / (1 - y);
            ++i;
            --j;
        }
        return std::max(a, b);
    }

    inline L growth(std::vector<double> U, int p, double v, int s, int times)
    {
        L g = 1;
        for (int k = 0; k < times; ++k)
        {
            g *= growth(U, p, v, s - k);
            U.erase(std::find(U.begin(), U.end(), v));
        }
        return g;
    }

    // the value a caller may use for the knot v: mostly v itself, sometimes off by rounding (still within the library's comparison
    // tolerance of 1e-6)
    inline double aboutKnot(Case& c, double v)
    {
        if (c.pick({9, 1}) == 0) return v;
        double d = c.chance(40) ? std::nextafter(v, 2.0) - v : std::pow(10.0, -c.range(7, 15)) * c.range(1, 4);
        double q = c.chance(50) ? v + d : v - d;
        return q > 0 && q < 1 ? q : v;
    }

    inline Curve isoU(const Surface& s, int row) // control row at v index
    {
        Curve c;
        c.Degree = s.DegreeU;
        c.Knots = s.KnotsU;
        for (int i = 0; i < s.ControlPoints.UCount; ++i) c.ControlPoints.push_back(s.ControlPoints.Values[row * s.ControlPoints.UCount + i]);
        return c;
    }

    // the surface with u and v exchanged, done on plain data
    inline Surface transposed(const Surface& s)
    {
        Surface t;
        t.DegreeU = s.DegreeV;
        t.DegreeV = s.DegreeU;
        t.KnotsU = s.KnotsV;
        t.KnotsV = s.KnotsU;
        int nu = s.ControlPoints.UCount, nv = s.ControlPoints.VCount;
        t.ControlPoints.UCount = nv;
        t.ControlPoints.VCount = nu;
        t.ControlPoints.Values.resize(s.ControlPoints.Values.size());
        for (int j = 0; j < nv; ++j)
            for (int i = 0; i < nu; ++i) t.ControlPoints.Values[i * nv + j] = s.ControlPoints.Values[j * nu + i];
        return t;
    }
}
