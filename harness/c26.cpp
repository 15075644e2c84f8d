#include "gen.hpp"
#include <libnurbs/Core/Grid.hpp>
#include <memory>
using namespace gen;
using libnurbs::Grid;

// elements
static int make(Case& c, int*) { return c.range(-50, 50); }
static double make(Case& c, double*) { return c.range(-50, 50) / 8.0; }
static Vec4 make(Case& c, Vec4*) { return Vec4(c.range(0, 9), c.range(0, 9), c.range(0, 9), c.range(1, 9)); }
static std::string make(Case& c, std::string*) { return std::string((size_t)c.range(0, 1) * 30 + 1, (char)('a' + c.range(0, 25))) + std::to_string(c.range(0, 99)); }
static std::vector<int> make(Case& c, std::vector<int>*) { return std::vector<int>((size_t)c.range(1, 3), c.range(0, 99)); }
static std::shared_ptr<int> make(Case& c, std::shared_ptr<int>*) { return std::make_shared<int>(c.range(0, 99)); }

template <class T>
static void show(std::ostream& o, const T& x) { o << x; }
static void show(std::ostream& o, const Vec4& x) { o << "(" << x.x() << "," << x.y() << "," << x.z() << "," << x.w() << ")"; }
static void show(std::ostream& o, const std::vector<int>& x)
{
    o << "{";
    for (int i : x) o << i << " ";
    o << "}";
}
static void show(std::ostream& o, const std::shared_ptr<int>& x) { x ? o << "->" << *x : o << "null"; }

// model: rows[v][u]
template <class T>
struct Model
{
    std::vector<std::vector<T>> rows;
    int nu = 0;
};

template <class T>
static void put(std::ostream& o, const Grid<T>& g)
{
    o << g.UCount << "x" << g.VCount << " [";
    for (auto& x : g.Values)
    {
        show(o, x);
        o << " ";
    }
    o << "]";
}

template <class T>
static void compare(Case& c, const Grid<T>& g, const Model<T>& m, const std::string& op)
{
    auto bad = [&](std::ostream& o)
    {
        o << "after " << op << " the grid is ";
        put(o, g);
    };
    const int nv = (int)m.rows.size();
    c.check(g.UCount == m.nu && g.VCount == nv && g.Values.size() == (size_t)m.nu * nv && g.Count() == m.nu * nv, bad);
    for (int v = 0; v < nv; ++v)
        for (int u = 0; u < m.nu; ++u)
        {
            c.check(g.Get(u, v) == m.rows[v][u], [&](std::ostream& o)
            {
                o << "element (" << u << "," << v << ") should be ";
                show(o, m.rows[v][u]);
                o << "; ";
                bad(o);
            });
            c.check(g.Values[(size_t)v * m.nu + u] == m.rows[v][u], bad);
        }
}

template <class T>
static void history(Case& c)
{
    T* tag = nullptr;
    Model<T> m;
    auto extent = [&] { int k = c.pick({300, 100, 1}); return k == 0 ? c.range(1, 4) : k == 1 ? c.range(1, 12) : c.range(1, 70); };
    m.nu = extent();
    int nv = extent();
    Grid<T> g;
    int ctor = c.range(0, 2);
    if (ctor == 0)
    {
        g = Grid<T>(m.nu, nv);
        if constexpr (std::is_same_v<T, Vec4>)
        {
            for (auto& x : g.Values) x = Vec4::Zero(); // Eigen leaves new elements uninitialised
            m.rows.assign(nv, std::vector<T>(m.nu, Vec4::Zero()));
        }
        else m.rows.assign(nv, std::vector<T>(m.nu));
    }
    else if (ctor == 1)
    {
        T x = make(c, tag);
        T y = x;
        g = Grid<T>(m.nu, nv, std::move(y));
        m.rows.assign(nv, std::vector<T>(m.nu, x));
    }
    else
    {
        g.UCount = m.nu;
        g.VCount = nv;
        m.rows.assign(nv, {});
        for (auto& r : m.rows)
            for (int i = 0; i < m.nu; ++i)
            {
                r.push_back(make(c, tag));
                g.Values.push_back(r.back());
            }
    }
    c.log([&](std::ostream& o) { o << "start "; put(o, g); });
    compare(c, g, m, "construction");
    int steps = c.pick({200, 1}) ? c.range(1, 60) : c.range(1, 10);
    for (int s = 0; s < steps; ++s)
    {
        nv = (int)m.rows.size();
        std::string op;
        int u = (int)c.draw(m.nu), v = (int)c.draw(nv);
        switch (c.pick({4, 4, 3, 2, 2, 1}))
        {
        case 0:
        case 1:
        {
            bool inU = c.chance(50);
            int mode = c.pick({4, 1, 2});
            T x{};
            op = std::string(inU ? "InsertU(" : "InsertV(") + std::to_string(inU ? u : v) + ")";
            if (mode == 0)
            {
                x = make(c, tag);
                inU ? g.InsertU(u, x) : g.InsertV(v, x);
            }
            else if (mode == 1 && !std::is_same_v<T, Vec4>)
            {
                op += " without a value";
                inU ? g.InsertU(u) : g.InsertV(v);
            }
            else
            {
                // the value is an element of the grid itself
                int a = (int)c.draw(m.nu), b = (int)c.draw(nv);
                op += " with its own element (" + std::to_string(a) + "," + std::to_string(b) + ")";
                c.label("own element as value");
                x = m.rows[b][a];
                inU ? g.InsertU(u, g.Get(a, b)) : g.InsertV(v, g.Get(a, b));
            }
            if (inU)
            {
                for (auto& r : m.rows) r.insert(r.begin() + u, x);
                ++m.nu;
            }
            else m.rows.insert(m.rows.begin() + v, std::vector<T>(m.nu, x));
            c.nontrivial();
            c.label(inU ? "InsertU" : "InsertV");
            break;
        }
        case 2:
        {
            T x = make(c, tag);
            op = "Get(" + std::to_string(u) + "," + std::to_string(v) + ") = value";
            g.Get(u, v) = x;
            m.rows[v][u] = x;
            break;
        }
        case 3:
        {
            std::vector<T> xs;
            for (int i = 0; i < nv; ++i) xs.push_back(make(c, tag));
            op = "SetU(" + std::to_string(u) + ")";
            g.SetU(u, xs);
            for (int i = 0; i < nv; ++i) m.rows[i][u] = xs[i];
            break;
        }
        case 4:
        {
            std::vector<T> xs;
            for (int i = 0; i < m.nu; ++i) xs.push_back(make(c, tag));
            op = "SetV(" + std::to_string(v) + ")";
            g.SetV(v, xs);
            m.rows[v] = xs;
            break;
        }
        default:
        {
            op = "a copy";
            Grid<T> h = g;
            if (c.chance(50)) h.InsertU(0, make(c, tag)); // changing the copy leaves the original alone
            else g = h;
        }
        }
        c.log([&](std::ostream& o) { o << op; });
        compare(c, g, m, op);
        nv = (int)m.rows.size();
        u = (int)c.draw(m.nu);
        v = (int)c.draw(nv);
        auto gu = std::as_const(g).GetU(u), gv = std::as_const(g).GetV(v);
        bool ok = (int)gu.size() == nv && (int)gv.size() == m.nu;
        for (int i = 0; ok && i < nv; ++i) ok = gu[i] == m.rows[i][u];
        for (int i = 0; ok && i < m.nu; ++i) ok = gv[i] == m.rows[v][i];
        c.check(ok, [&](std::ostream& o) { o << "after " << op << " GetU(" << u << ") or GetV(" << v << ") is wrong: "; put(o, g); });
        c.check(&g.Get(u, v) == &std::as_const(g).Get(u, v), "the two Get overloads disagree");
    }
}

static void prop(Case& c)
{
    switch (c.pick({3, 1, 3, 3, 2, 2}))
    {
    case 0: c.label("int"); return history<int>(c);
    case 1: c.label("double"); return history<double>(c);
    case 2: c.label("Vec4"); return history<Vec4>(c);
    case 3: c.label("string"); return history<std::string>(c);
    case 4: c.label("vector"); return history<std::vector<int>>(c);
    default: c.label("shared_ptr"); return history<std::shared_ptr<int>>(c);
    }
}

const pbt::Property THE_PROPERTY{"C26", prop, 1500000, 30000000, "the history inserts at least one row or column"};
