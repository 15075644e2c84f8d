// Reference model: B-spline / NURBS by definition, in long double.
#pragma once
#include <Eigen/Dense>
#include <libnurbs/libnurbs.hpp>
#include <algorithm>
#include <cmath>
#include <vector>

namespace ref
{
    using L = long double;
    using libnurbs::Vec3;
    using libnurbs::Vec4;

    struct H4 // homogeneous value
    {
        L v[4]{0, 0, 0, 0};
    };

    struct P3
    {
        L v[3]{0, 0, 0};
    };

    inline L norm(const P3& a) { return std::sqrt(a.v[0] * a.v[0] + a.v[1] * a.v[1] + a.v[2] * a.v[2]); }

    inline P3 p3(const Vec3& a) { return P3{{a.x(), a.y(), a.z()}}; }

    inline L dist(const P3& a, const P3& b)
    {
        return norm(P3{{a.v[0] - b.v[0], a.v[1] - b.v[1], a.v[2] - b.v[2]}});
    }

    // the span that defines the value at u: the last k with U[k] <= u < U[k+1]; at the right end the last
    // non-empty span (limit from the left)
    inline int span(const std::vector<double>& U, double u)
    {
        int m = (int)U.size() - 1, k = -1;
        for (int i = 0; i < m; ++i)
        {
            if (U[i] < U[i + 1] && U[i] <= u && u < U[i + 1]) k = i;
        }
        if (k >= 0) return k;
        for (int i = m - 1; i >= 0; --i)
            if (U[i] < U[i + 1]) return i;
        return -1;
    }

    struct Basis
    {
        int k = 0, p = 0;
        // value and absolute-value scale, [derivative order][local index 0..p] for functions k-p..k
        std::vector<std::vector<L>> N, A;
    };

    // Cox - de Boor by definition (0/0 = 0), derivatives by the defining recursion
    inline Basis basis(int p, const std::vector<double>& U, double ud, int order, int forceSpan = -1)
    {
        Basis b;
        b.p = p;
        b.k = forceSpan >= 0 ? forceSpan : span(U, ud);
        const int k = b.k;
        const L u = ud;
        const int m = (int)U.size() - 1;
        auto knot = [&](int i) -> L { return U[(size_t)(i < 0 ? 0 : i > m ? m : i)]; };
        // f[q][i-(k-p)] for degree q and i in k-p..k+1
        int w = p + 2;
        auto tab = std::vector<std::vector<L>>(p + 1, std::vector<L>(w, 0));
        auto idx = [&](int i) { return i - (k - p); };
        tab[0][idx(k)] = 1;
        for (int q = 1; q <= p; ++q)
        {
            for (int i = k - q; i <= k; ++i)
            {
                L a = 0, c = 0;
                L d1 = knot(i + q) - knot(i), d2 = knot(i + q + 1) - knot(i + 1);
                L n1 = tab[q - 1][idx(i)], n2 = tab[q - 1][idx(i + 1)];
                if (d1 > 0 && n1 != 0) a = (u - knot(i)) / d1 * n1;
                if (d2 > 0 && n2 != 0) c = (knot(i + q + 1) - u) / d2 * n2;
                tab[q][idx(i)] = a + c;
            }
        }
        b.N.assign(order + 1, std::vector<L>(p + 1, 0));
        b.A = b.N;
        // D[q][i]: derivative of current order of degree-q functions
        auto D = tab;
        auto S = tab;
        for (int i = 0; i <= p; ++i)
        {
            b.N[0][i] = tab[p][i];
            b.A[0][i] = std::fabs(tab[p][i]);
        }
        for (int d = 1; d <= order; ++d)
        {
            auto D2 = std::vector<std::vector<L>>(p + 1, std::vector<L>(w, 0));
            auto S2 = D2;
            for (int q = d; q <= p; ++q)
            {
                for (int i = k - q; i <= k; ++i)
                {
                    L d1 = knot(i + q) - knot(i), d2 = knot(i + q + 1) - knot(i + 1);
                    L v = 0, s = 0;
                    if (d1 > 0)
                    {
                        v += D[q - 1][idx(i)] / d1;
                        s += S[q - 1][idx(i)] / d1;
                    }
                    if (d2 > 0)
                    {
                        v -= D[q - 1][idx(i + 1)] / d2;
                        s += S[q - 1][idx(i + 1)] / d2;
                    }
                    D2[q][idx(i)] = q * v;
                    S2[q][idx(i)] = q * s;
                }
            }
            D = D2;
            S = S2;
            if (d <= p)
                for (int i = 0; i <= p; ++i)
                {
                    b.N[d][i] = D[p][i];
                    b.A[d][i] = S[p][i];
                }
        }
        return b;
    }

    inline L binom(int n, int k)
    {
        L r = 1;
        for (int i = 1; i <= k; ++i) r = r * (n - k + i) / i;
        return r;
    }

    // values only, on the stack (same definition, same conventions)
    struct Basis0
    {
        int k = 0, p = 0;
        L N[34];
    };

    inline Basis0 basis0(int p, const std::vector<double>& U, double ud)
    {
        Basis0 b;
        b.p = p;
        const double* K = U.data();
        const int m = (int)U.size() - 1;
        // same span as span(): non-empty, half open, last non-empty one at the right end
        int k = (int)(std::upper_bound(U.begin(), U.end(), ud) - U.begin()) - 1;
        if (k >= m)
        {
            k = m - 1;
            while (k > 0 && !(K[k] < K[k + 1])) --k;
        }
        b.k = k;
        auto knot = [&](int i) -> L { return K[i < 0 ? 0 : i > m ? m : i]; };
        L f[36] = {0};
        const L u = ud;
        f[p] = 1; // f[i-(k-p)]
        for (int q = 1; q <= p; ++q)
            for (int i = k - q; i <= k; ++i)
            {
                L a = 0, c = 0;
                L d1 = knot(i + q) - knot(i), d2 = knot(i + q + 1) - knot(i + 1);
                L n1 = f[i - (k - p)], n2 = f[i - (k - p) + 1];
                if (d1 > 0 && n1 != 0) a = (u - knot(i)) / d1 * n1;
                if (d2 > 0 && n2 != 0) c = (knot(i + q + 1) - u) / d2 * n2;
                f[i - (k - p)] = a + c;
            }
        for (int i = 0; i <= p; ++i) b.N[i] = f[i];
        return b;
    }

    struct Ders
    {
        std::vector<P3> D;   // derivative values
        std::vector<L> S;    // magnitude scale for rounding errors
    };

    inline Ders curveDers(int p, const std::vector<double>& U, const std::vector<Vec4>& P, double u, int order)
    {
        Basis b = basis(p, U, u, order);
        std::vector<H4> A(order + 1), B(order + 1);
        for (int d = 0; d <= order; ++d)
            for (int i = 0; i <= p; ++i)
            {
                const Vec4& q = P[(size_t)(b.k - p + i)];
                L w = q.w();
                L h[4] = {q.x() * w, q.y() * w, q.z() * w, w};
                for (int c = 0; c < 4; ++c)
                {
                    A[d].v[c] += b.N[d][i] * h[c];
                    B[d].v[c] += b.A[d][i] * std::fabs(h[c]);
                }
            }
        Ders r;
        r.D.resize(order + 1);
        r.S.resize(order + 1);
        L w0 = A[0].v[3];
        for (int d = 0; d <= order; ++d)
        {
            P3 x{{A[d].v[0], A[d].v[1], A[d].v[2]}};
            L s = B[d].v[0] + B[d].v[1] + B[d].v[2];
            for (int i = 1; i <= d; ++i)
            {
                L bi = binom(d, i);
                for (int c = 0; c < 3; ++c) x.v[c] -= bi * A[i].v[3] * r.D[d - i].v[c];
                s += bi * B[i].v[3] * r.S[d - i];
            }
            for (int c = 0; c < 3; ++c) x.v[c] /= w0;
            r.D[d] = x;
            r.S[d] = s / w0;
        }
        return r;
    }

    inline P3 curveAt(int p, const std::vector<double>& U, const std::vector<Vec4>& P, double u)
    {
        Basis0 b = basis0(p, U, u);
        L h[4] = {0, 0, 0, 0};
        for (int i = 0; i <= p; ++i)
        {
            const double* q = P[(size_t)(b.k - p + i)].data();
            L n = b.N[i] * q[3];
            h[0] += n * q[0];
            h[1] += n * q[1];
            h[2] += n * q[2];
            h[3] += n;
        }
        return P3{{h[0] / h[3], h[1] / h[3], h[2] / h[3]}};
    }

    inline P3 at(const libnurbs::Curve& c, double u) { return curveAt(c.Degree, c.Knots.Values(), c.ControlPoints, u); }

    struct Ders2
    {
        int ou = 0, ov = 0;
        std::vector<P3> D;
        std::vector<L> S;
        const P3& d(int i, int j) const { return D[(size_t)(j * (ou + 1) + i)]; }
        L s(int i, int j) const { return S[(size_t)(j * (ou + 1) + i)]; }
    };

    inline Ders2 surfDers(const libnurbs::Surface& s, double u, double v, int ou, int ov)
    {
        const int pu = s.DegreeU, pv = s.DegreeV, nu = s.ControlPoints.UCount;
        Basis bu = basis(pu, s.KnotsU.Values(), u, ou), bv = basis(pv, s.KnotsV.Values(), v, ov);
        auto at = [&](int i, int j) { return (size_t)(j * (ou + 1) + i); };
        std::vector<H4> A((ou + 1) * (ov + 1)), B(A.size());
        for (int j = 0; j <= pv; ++j)
            for (int i = 0; i <= pu; ++i)
            {
                const Vec4& q = s.ControlPoints.Values[(size_t)((bv.k - pv + j) * nu + bu.k - pu + i)];
                L w = q.w();
                L h[4] = {q.x() * w, q.y() * w, q.z() * w, w};
                for (int b = 0; b <= ov; ++b)
                    for (int a = 0; a <= ou; ++a)
                    {
                        L n = bu.N[a][i] * bv.N[b][j], m = bu.A[a][i] * bv.A[b][j];
                        for (int c = 0; c < 4; ++c)
                        {
                            A[at(a, b)].v[c] += n * h[c];
                            B[at(a, b)].v[c] += m * std::fabs(h[c]);
                        }
                    }
            }
        Ders2 r;
        r.ou = ou;
        r.ov = ov;
        r.D.resize(A.size());
        r.S.resize(A.size());
        L w0 = A[0].v[3];
        for (int b = 0; b <= ov; ++b)
            for (int a = 0; a <= ou; ++a)
            {
                const H4& h = A[at(a, b)];
                P3 x{{h.v[0], h.v[1], h.v[2]}};
                L sc = B[at(a, b)].v[0] + B[at(a, b)].v[1] + B[at(a, b)].v[2];
                // Leibniz: (wS)^(a,b) = sum C(a,i)C(b,j) w^(i,j) S^(a-i,b-j)
                for (int j = 0; j <= b; ++j)
                    for (int i = 0; i <= a; ++i)
                    {
                        if (i == 0 && j == 0) continue;
                        L f = binom(a, i) * binom(b, j);
                        for (int c = 0; c < 3; ++c) x.v[c] -= f * A[at(i, j)].v[3] * r.D[at(a - i, b - j)].v[c];
                        sc += f * B[at(i, j)].v[3] * r.S[at(a - i, b - j)];
                    }
                for (int c = 0; c < 3; ++c) x.v[c] /= w0;
                r.D[at(a, b)] = x;
                r.S[at(a, b)] = sc / w0;
            }
        return r;
    }

    inline P3 surfAt(const libnurbs::Surface& s, const Basis0& bu, const Basis0& bv)
    {
        L h[4] = {0, 0, 0, 0};
        for (int j = 0; j <= bv.p; ++j)
        {
            const Vec4* row = s.ControlPoints.Values.data() + (size_t)((bv.k - bv.p + j) * s.ControlPoints.UCount + bu.k - bu.p);
            for (int i = 0; i <= bu.p; ++i)
            {
                const double* q = row[i].data();
                L n = bu.N[i] * bv.N[j] * q[3];
                h[0] += n * q[0];
                h[1] += n * q[1];
                h[2] += n * q[2];
                h[3] += n;
            }
        }
        return P3{{h[0] / h[3], h[1] / h[3], h[2] / h[3]}};
    }

    inline P3 at(const libnurbs::Surface& s, double u, double v)
    {
        return surfAt(s, basis0(s.DegreeU, s.KnotsU.Values(), u), basis0(s.DegreeV, s.KnotsV.Values(), v));
    }

    // sample parameters that decide equality of two piecewise rational functions of degree p: enough interior
    // points in every span of the given knots, plus the knots themselves
    inline std::vector<double> samples(const std::vector<double>& U, int perSpan)
    {
        std::vector<double> r{0.0, 1.0};
        for (size_t i = 0; i + 1 < U.size(); ++i)
        {
            if (!(U[i] < U[i + 1])) continue;
            if (U[i] > 0) r.push_back(U[i]);
            for (int k = 1; k <= perSpan; ++k)
            {
                double t = U[i] + (U[i + 1] - U[i]) * k / (perSpan + 1);
                if (t > U[i] && t < U[i + 1]) r.push_back(t);
            }
        }
        return r;
    }

    struct Size // magnitudes of an object
    {
        L maxP = 0, wMin = 1e300L, wMax = 0;
        L ratio() const { return wMax / wMin; }
    };

    inline Size sizeOf(const std::vector<Vec4>& P)
    {
        Size s;
        for (auto& q : P)
        {
            for (int c = 0; c < 3; ++c) s.maxP = std::max(s.maxP, (L)std::fabs(q[c]));
            s.wMin = std::min(s.wMin, (L)q.w());
            s.wMax = std::max(s.wMax, (L)q.w());
        }
        return s;
    }
}
