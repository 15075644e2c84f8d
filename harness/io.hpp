// Generators and helpers for serialisation properties.
#pragma once
#include "gen.hpp"
#include <fstream>
#include <iomanip>
#include <unistd.h>

namespace io
{
    using namespace gen;

    // zero or any normal double
    inline double wild(Case& c)
    {
        double s = c.chance(50) ? -1 : 1;
        switch (c.pick({4, 4, 3, 2, 2, 3}))
        {
        case 0: return c.range(0, 20) - 10;
        case 1: return s * c.unit();
        case 2: return s * c.unit() * std::pow(10.0, c.range(-30, 30));
        case 3:
        {
            static const double t[] = {0.0, 0.1, 1.0 / 3, 2.0 / 3, 0.7, 1e-5, 1e-17, 1e-18, 123456789.123456789, 1e15 + 0.5, 4503599627370497.5, 9007199254740993.0, 1e22, 1e23, DBL_MAX, DBL_MIN, DBL_EPSILON};
            return s * t[c.draw(sizeof t / sizeof *t)];
        }
        case 4: return s * std::nextafter((double)c.range(0, 100), c.chance(50) ? 1e300 : -1e300) + 0.0;
        default:
        {
            // any normal bit pattern
            uint64_t m = c.draw(1ull << 52), e = 1 + c.draw(2046), b = e << 52 | m;
            double d;
            std::memcpy(&d, &b, 8);
            return s * d;
        }
        }
    }

    inline double normalised(double d) { return std::fabs(d) < DBL_MIN ? std::copysign(0.0, d) : d; }

    inline std::vector<double> wildKnots(Case& c, size_t n)
    {
        std::vector<double> k(n);
        if (c.chance(50))
        {
            for (auto& x : k) x = c.chance(60) ? c.unit() : std::pow(10.0, -c.range(0, 300)) * c.unit();
            for (auto& x : k) x = normalised(x);
            std::sort(k.begin(), k.end());
            if (n > 0 && c.chance(50)) k[0] = 0;
            if (n > 1 && c.chance(50)) k[n - 1] = 1;
        }
        else
        {
            for (auto& x : k) x = normalised(wild(c));
        }
        return k;
    }

    inline Vec4 wildPoint(Case& c)
    {
        Vec4 v;
        for (int k = 0; k < 4; ++k) v[k] = normalised(wild(c));
        return v;
    }

    inline Curve wildCurve(Case& c)
    {
        if (c.chance(35)) return curve(c, {.maxDegree = 6, .k = {.maxDistinct = 4, .rareDistinct = 20}});
        Curve r;
        r.Degree = c.chance(80) ? c.range(1, 9) : c.range(0, 100000);
        static const int HI[] = {8, 300, 2500};
        int n = c.range(1, HI[c.pick({1200, 100, 3})]);
        r.Knots.Values() = wildKnots(c, n + std::min(r.Degree, 12) + 1);
        for (int i = 0; i < n; ++i) r.ControlPoints.push_back(wildPoint(c));
        return r;
    }

    inline Surface wildSurface(Case& c)
    {
        if (c.chance(35)) return surface(c, {.maxDegree = 4});
        Surface r;
        r.DegreeU = c.chance(80) ? c.range(1, 9) : c.range(0, 100000);
        r.DegreeV = c.chance(80) ? c.range(1, 9) : c.range(0, 100000);
        static const int HI[] = {5, 30, 70};
        int k = c.pick({1200, 100, 3, 3}), nu = k == 3 ? c.range(250, 700) : c.range(1, HI[k]), nv = k == 2 ? c.range(1, 70) : c.range(1, k == 3 ? 3 : 6);
        if (k == 3 && c.chance(50)) std::swap(nu, nv);
        r.KnotsU.Values() = wildKnots(c, nu + std::min(r.DegreeU, 12) + 1);
        r.KnotsV.Values() = wildKnots(c, nv + std::min(r.DegreeV, 12) + 1);
        r.ControlPoints.UCount = nu;
        r.ControlPoints.VCount = nv;
        for (int i = 0; i < nu * nv; ++i) r.ControlPoints.Values.push_back(wildPoint(c));
        return r;
    }

    inline bool bits(const std::vector<double>& a, const std::vector<double>& b)
    {
        if (a.size() != b.size()) return false;
        for (size_t i = 0; i < a.size(); ++i)
            if (!sameBits(a[i], b[i])) return false;
        return true;
    }

    inline bool bits(const std::vector<Vec4>& a, const std::vector<Vec4>& b)
    {
        if (a.size() != b.size()) return false;
        for (size_t i = 0; i < a.size(); ++i)
            for (int k = 0; k < 4; ++k)
                if (!sameBits(a[i][k], b[i][k])) return false;
        return true;
    }

    inline bool bits(const Curve& a, const Curve& b) { return a.Degree == b.Degree && bits(a.Knots.Values(), b.Knots.Values()) && bits(a.ControlPoints, b.ControlPoints); }

    inline bool bits(const Surface& a, const Surface& b)
    {
        return a.DegreeU == b.DegreeU && a.DegreeV == b.DegreeV && bits(a.KnotsU.Values(), b.KnotsU.Values()) && bits(a.KnotsV.Values(), b.KnotsV.Values()) &&
               a.ControlPoints.UCount == b.ControlPoints.UCount && a.ControlPoints.VCount == b.ControlPoints.VCount && bits(a.ControlPoints.Values, b.ControlPoints.Values);
    }

    inline std::string scratchFile(const char* name) { return pbt::tmpDir() + "/" + name + std::to_string(getpid()); }

    inline void presetStream(Case& c, std::ostream& os)
    {
        switch (c.pick({6, 1, 1, 1, 1}))
        {
        case 0: break;
        case 1: os << std::setprecision(3); break;
        case 2: os << std::fixed << std::setprecision(1); break;
        case 3: os << std::scientific << std::setprecision(2); break;
        default: os << std::setprecision(30) << std::showpoint; break;
        }
    }

    // a round trip history on one target object
    template <class T>
    void roundTrips(Case& c, T (*make)(Case&))
    {
        T target;
        bool used = false;
        int steps = c.range(1, 4);
        for (int k = 0; k < steps; ++k)
        {
            int op = c.pick({8, 2});
            if (op == 1)
            {
                // a load that fails part way
                T other = make(c);
                bool bin = c.chance(50);
                std::ostringstream os(std::ios::binary);
                other.SaveToFile(os, bin);
                std::string data = os.str();
                size_t cut = c.draw(data.size());
                data.resize(cut);
                if (c.chance(50) && !bin) data += "\n*Nonsense: 1\n";
                std::istringstream is(data, std::ios::binary);
                try
                {
                    target.LoadFromFile(is);
                }
                catch (const std::exception&)
                {
                    c.label("after a failed load");
                }
                c.log([&](std::ostream& o) { o << "load of a file cut at byte " << cut << " of " << (bin ? "BIN " : "TXT "); put(o, other); });
                used = true;
                continue;
            }
            const T x = make(c);
            T src = x;
            const bool bin = c.chance(40), file = c.pick({9, 1}) == 1;
            c.log([&](std::ostream& o) { o << (bin ? "BIN " : "TXT ") << (file ? "file " : "stream ") << (used ? "into the used object " : "into a fresh object "); put(o, x); });
            c.label(bin ? "binary" : "text");
            c.label_if(file, "file");
            c.label_if(used, "target used before");
            if (file)
            {
                std::string f = scratchFile("rt");
                if (c.chance(50)) std::ofstream(f) << std::string(c.range(0, 3000), 'x'); // an existing, longer file is replaced
                if (bin) src.SaveToFile(f, true);
                else if (c.chance(50)) src.SaveToFile(f);
                else src.SaveToFile(f, false);
                T& ret = target.LoadFromFile(f);
                unlink(f.c_str());
                c.check(&ret == &target, "LoadFromFile does not return the object itself");
            }
            else
            {
                std::stringstream st(std::ios::in | std::ios::out | std::ios::binary);
                presetStream(c, st);
                // binary objects in front of it in the same stream are read one by one
                std::vector<T> before;
                for (int n = c.pick({8, 1, 1}); n > 0; --n) before.push_back(make(c));
                for (auto& b : before) b.SaveToFile(st, true);
                src.SaveToFile(st, bin);
                c.label_if(!before.empty(), "several objects in one stream");
                for (auto& b : before)
                {
                    c.log([&](std::ostream& o) { o << "behind the binary "; put(o, b); });
                    target.LoadFromFile(st);
                    c.check(bits(target, b), "an object in front in the same binary stream came back different");
                }
                T& ret = target.LoadFromFile(st);
                c.check(&ret == &target, "LoadFromFile does not return the object itself");
            }
            c.check(bits(src, x), "saving modified the object");
            c.check(bits(target, x), [&](std::ostream& o)
            {
                o << "round trip (" << (bin ? "BIN" : "TXT") << (used ? ", target used before" : "") << ") gave ";
                put(o, target);
            });
            if (!bin || used) c.nontrivial();
            used = true;
        }
    }
}
