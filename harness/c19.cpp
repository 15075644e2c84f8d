#include "gen.hpp"
using namespace gen;
using libnurbs::BoundingBox;

static double coord(Case& c)
{
    switch (c.pick({6, 3, 1, 1, 1}))
    {
    case 0: return c.range(0, 12) - 6;
    case 1: return c.unit() * 20 - 10;
    case 2: return (c.unit() * 2 - 1) * std::pow(10.0, c.range(-12, 12));
    case 3: return 0.0;
    default: return (c.chance(50) ? -1 : 1) * std::pow(10.0, c.range(0, 100));
    }
}

static Vec3 point(Case& c)
{
    double x = coord(c), y = coord(c), z = coord(c);
    return Vec3(x, y, z);
}

struct Model
{
    double lo[3], hi[3];
    bool has(const Vec3& p) const
    {
        for (int k = 0; k < 3; ++k)
            if (p[k] < lo[k] || p[k] > hi[k]) return false;
        return true;
    }
    void join(const Vec3& p)
    {
        for (int k = 0; k < 3; ++k)
        {
            if (p[k] < lo[k]) lo[k] = p[k];
            if (p[k] > hi[k]) hi[k] = p[k];
        }
    }
};

static void putB(std::ostream& o, const BoundingBox& b)
{
    o << "[";
    put(o, b.Min);
    o << "..";
    put(o, b.Max);
    o << "]";
}

static void compare(Case& c, const BoundingBox& b, const Model& m, const char* what)
{
    for (int k = 0; k < 3; ++k)
        c.check(b.Min[k] == m.lo[k] && b.Max[k] == m.hi[k], [&](std::ostream& o)
        {
            o << what << ": box is ";
            putB(o, b);
            o << ", component " << k << " should be " << m.lo[k] << ".." << m.hi[k];
        });
}

static BoundingBox make(Case& c, Model& m)
{
    if (c.pick({6, 1}) == 1)
    {
        for (int k = 0; k < 3; ++k) m.lo[k] = m.hi[k] = 0;
        return BoundingBox();
    }
    Vec3 a = point(c), b = c.pick({5, 1}) == 1 ? a : point(c);
    for (int k = 0; k < 3; ++k)
    {
        m.lo[k] = std::min(a[k], b[k]);
        m.hi[k] = std::max(a[k], b[k]);
    }
    c.log([&](std::ostream& o) { o << "box of "; put(o, a); o << " and "; put(o, b); });
    const Vec3 ka = a, kb = b;
    BoundingBox r(a, b);
    c.check((a.array() == ka.array()).all() && (b.array() == kb.array()).all(), "constructor modified its arguments");
    return r;
}

static void prop(Case& c)
{
    Model m;
    BoundingBox b = make(c, m);
    compare(c, b, m, "construction");
    int n = c.pick({300, 1}) ? c.range(0, 100) : c.range(0, 10), grew = 0;
    for (int k = 0; k < n; ++k)
    {
        switch (c.pick({4, 3, 2, 2, 1}))
        {
        case 0:
        {
            Vec3 p = point(c);
            c.log([&](std::ostream& o) { o << "expand by point "; put(o, p); });
            grew += !m.has(p);
            b.ExpandToInclude(p);
            m.join(p);
            c.label("point");
            c.check(b.Contains(p), "an expanded box does not contain the new point");
            break;
        }
        case 1:
        {
            Model q;
            BoundingBox other = make(c, q);
            c.log([&](std::ostream& o) { o << "expand by box "; putB(o, other); });
            Vec3 lo(q.lo[0], q.lo[1], q.lo[2]), hi(q.hi[0], q.hi[1], q.hi[2]);
            grew += !(m.has(lo) && m.has(hi));
            b.ExpandToInclude(other);
            m.join(lo);
            m.join(hi);
            compare(c, other, q, "argument of ExpandToInclude");
            c.check(b.Contains(other), "an expanded box does not contain the new box");
            c.label("box");
            break;
        }
        case 2:
        {
            // containment of a point, often one on or next to the boundary
            Vec3 p = point(c);
            for (int i = 0; i < 3; ++i)
                switch (c.pick({2, 2, 2, 1, 1, 2}))
                {
                case 0: break;
                case 1: p[i] = m.lo[i]; break;
                case 2: p[i] = m.hi[i]; break;
                case 3: p[i] = std::nextafter(m.lo[i], -1e300); break;
                case 4: p[i] = std::nextafter(m.hi[i], 1e300); break;
                default: p[i] = m.lo[i] + (m.hi[i] - m.lo[i]) * c.unit(); break;
                }
            c.log([&](std::ostream& o) { o << "contains "; put(o, p); });
            c.check(b.Contains(p) == m.has(p), [&](std::ostream& o)
            {
                o << "Contains says " << b.Contains(p) << " for point ";
                put(o, p);
                o << " and box ";
                putB(o, b);
            });
            c.label(m.has(p) ? "contained" : "not contained");
            break;
        }
        case 3:
        {
            Model q;
            BoundingBox other = make(c, q);
            if (c.chance(60))
                for (int i = 0; i < 3; ++i)
                {
                    double f = c.unit(), g = c.unit();
                    double x = m.lo[i] + (m.hi[i] - m.lo[i]) * std::min(f, g), y = m.lo[i] + (m.hi[i] - m.lo[i]) * std::max(f, g);
                    x = std::clamp(x, m.lo[i], m.hi[i]);
                    y = std::clamp(y, x, m.hi[i]);
                    if (c.pick({8, 1}) == 1) y = std::nextafter(m.hi[i], 1e300);
                    other.Min[i] = q.lo[i] = x;
                    other.Max[i] = q.hi[i] = y;
                }
            bool want = m.has(Vec3(q.lo[0], q.lo[1], q.lo[2])) && m.has(Vec3(q.hi[0], q.hi[1], q.hi[2]));
            c.log([&](std::ostream& o) { o << "contains box "; putB(o, other); });
            c.check(b.Contains(other) == want, [&](std::ostream& o)
            {
                o << "Contains says " << b.Contains(other) << " for box ";
                putB(o, other);
                o << " in ";
                putB(o, b);
            });
            c.label(want ? "box contained" : "box not contained");
            break;
        }
        default:
        {
            BoundingBox copy = b;
            copy.ExpandToInclude(copy); // aliasing
            compare(c, copy, m, "expansion by itself");
            break;
        }
        }
        compare(c, b, m, "after the history so far");
    }
    if (grew >= 2) c.nontrivial();
    c.check(b.Contains(b), "a box does not contain itself");
    Vec3 ctr = b.Center(), len = b.Length();
    L vol = 1;
    for (int k = 0; k < 3; ++k)
    {
        L mid = ((L)m.lo[k] + m.hi[k]) / 2, l = (L)m.hi[k] - m.lo[k];
        L tol = 1e-14L * (std::fabs((L)m.lo[k]) + std::fabs((L)m.hi[k]));
        c.check(within(c, std::fabs(mid - ctr[k]), tol + 1e-300L), [&](std::ostream& o) { o << "center component " << k << " is " << ctr[k] << ", expected " << (double)mid; });
        c.check(within(c, std::fabs(l - len[k]), 1e-14L * l + 1e-300L), [&](std::ostream& o) { o << "length component " << k << " is " << len[k] << ", expected " << (double)l; });
        vol *= l;
    }
    c.check(within(c, std::fabs(vol - b.Volume()), 1e-13L * vol + 1e-300L), [&](std::ostream& o) { o << "volume is " << b.Volume() << ", expected " << (double)vol; });
}

const pbt::Property THE_PROPERTY{"C19", prop, 6000000, 60000000, "the history contains at least two expansions that really grow the box"};
