// Inputs for the parameter searches.
#pragma once
#include "gen.hpp"

namespace search
{
    using namespace gen;

    inline Vec3 direction(Case& c)
    {
        if (c.chance(40))
        {
            Vec3 d = Vec3::Zero();
            d[c.range(0, 2)] = c.chance(50) ? -1 : 1;
            return d;
        }
        Vec3 d(c.unit() - 0.5, c.unit() - 0.5, c.unit() + 0.25);
        return d / d.norm();
    }

    // some unit vector orthogonal to d
    inline Vec3 orthogonal(Case& c, const Vec3& d)
    {
        Vec3 a = std::fabs(d.x()) < 0.6 ? Vec3(1, 0, 0) : Vec3(0, 1, 0);
        Vec3 e = d.cross(a);
        e /= e.norm();
        Vec3 f = d.cross(e);
        double t = c.range(0, 16) * 0.4;
        return std::cos(t) * e + std::sin(t) * f;
    }

    // an edge of length 0.05..2 within 38 degrees of d
    inline Vec3 coneEdge(Case& c, const Vec3& d)
    {
        double len = c.chance(50) ? c.range(1, 8) / 4.0 : 0.05 + 1.9 * c.unit();
        double ang = c.unit() * 0.66;
        return len * (std::cos(ang) * d + std::sin(ang) * orthogonal(c, d));
    }

    inline std::vector<double> greville(int p, const std::vector<double>& U)
    {
        std::vector<double> g;
        for (size_t i = 0; i + p + 1 < U.size(); ++i)
        {
            double s = 0;
            for (int j = 1; j <= p; ++j) s += U[i + j];
            g.push_back(s / p);
        }
        return g;
    }

    // smaller distance to a neighbour
    inline double room(const std::vector<double>& g, size_t i)
    {
        double lo = i ? g[i] - g[i - 1] : 1, hi = i + 1 < g.size() ? g[i + 1] - g[i] : 1;
        return std::min(lo, hi);
    }

    inline double epsilon(Case& c) { return std::pow(10.0, -c.range(2, 9)) * (1 + c.range(0, 4)); }

    // bound of the speed of the rational curve with these data
    inline double speedBound(int p, const std::vector<double>& U, double maxEdge, double ratio)
    {
        double m = 1;
        for (size_t i = 1; i < U.size(); ++i)
            if (U[i] > U[i - 1]) m = std::min(m, U[i] - U[i - 1]);
        return p * maxEdge * ratio * ratio / m;
    }

    inline bool inUnit(double x) { return x >= 0 && x <= 1; }
}
