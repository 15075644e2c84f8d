#include "io.hpp"
using namespace io;

namespace
{
    struct Layout
    {
        Case& c;
        bool crlf, plain;
        std::string out;

        explicit Layout(Case& c_) : c(c_), crlf(c_.chance(25)), plain(false) {}

        std::string ws(int most = 2)
        {
            std::string s;
            for (int n = c.range(0, most); n > 0; --n) s += c.chance(30) ? '\t' : ' ';
            return s;
        }
        std::string gap() { return c.chance(20) ? ws() + (c.chance(50) ? "\t" : " ") + ws() : " "; }

        void eol()
        {
            if (c.chance(15)) out += ws();
            if (crlf) out += '\r';
            out += '\n';
        }
        void blanks()
        {
            while (c.chance(12)) eol();
        }

        std::string integer(int v)
        {
            std::string s = std::to_string(v);
            switch (c.pick({6, 1, 1}))
            {
            case 0: break;
            case 1: s = "+" + s; break;
            default: s = "00" + s; break;
            }
            return s;
        }

        // a notation that stands for exactly this double
        std::string number(double v)
        {
            char b[80];
            switch (c.pick({6, 2, 2, 2, 1, 1, 1}))
            {
            case 0: std::snprintf(b, sizeof b, "%.17g", v); break;
            case 1: std::snprintf(b, sizeof b, "%.17e", v); break;
            case 2: std::snprintf(b, sizeof b, "%.17E", v); break;
            case 3: std::snprintf(b, sizeof b, "%+.17g", v); break;
            case 4: std::snprintf(b, sizeof b, "%.24e", v); break;
            case 5: std::snprintf(b, sizeof b, "%.6g", v); break;
            default:
                if (v == std::floor(v) && std::fabs(v) < 1e9) std::snprintf(b, sizeof b, c.chance(50) ? "%.0f." : "%.3f", v);
                else std::snprintf(b, sizeof b, "%.20g", v);
                break;
            }
            if (!sameBits(std::strtod(b, nullptr), v)) std::snprintf(b, sizeof b, "%.17g", v);
            std::string s = b;
            // leading zero may be dropped or doubled
            size_t d = s.find_first_of("0123456789");
            switch (c.pick({10, 1, 1}))
            {
            case 0: break;
            case 1: s.insert(d, "0"); break;
            default:
                if (s.compare(d, 2, "0.") == 0 && d + 2 < s.size() && std::isdigit(s[d + 2])) s.erase(d, 1);
                break;
            }
            return s;
        }

        std::string point(const Vec4& p) { return number(p.x()) + gap() + number(p.y()) + gap() + number(p.z()) + gap() + number(p.w()); }

        // "*Key:", left open for an inline value
        void key(const char* name)
        {
            blanks();
            if (c.chance(15)) out += ws();
            out += '*';
            if (c.chance(10)) out += ws();
            out += name;
            if (c.chance(10)) out += ws();
            out += ':';
        }
        void inlineOrNot()
        {
            if (c.chance(50)) out += ws();
            else
            {
                eol();
                blanks();
                out += ws();
            }
        }

        void scalar(const char* name, int v)
        {
            key(name);
            inlineOrNot();
            out += integer(v);
            eol();
        }

        void list(const char* name, const std::vector<std::string>& items)
        {
            key(name);
            inlineOrNot();
            const int breaks = c.chance(50) ? 0 : c.range(0, 100);
            for (size_t i = 0; i < items.size(); ++i)
            {
                if (i && c.chance(10)) out += ws();
                out += items[i];
                if (i + 1 == items.size()) break;
                bool br = breaks && c.chance(breaks);
                if (!br || !c.chance(40))
                {
                    if (c.chance(10)) out += ws();
                    out += ',';
                }
                else c.label("line break as the only separator");
                if (br)
                {
                    eol();
                    blanks();
                    c.label("list over several lines");
                }
                else out += gap();
            }
            if (c.chance(30)) out += ',';
            eol();
        }

        void header(const char* type)
        {
            out += "LIBNURBS" + gap() + "TXT" + gap() + type;
            eol();
        }

        // the final newline is optional
        std::string done()
        {
            blanks();
            if (c.chance(20))
                while (!out.empty() && (out.back() == '\n' || out.back() == '\r')) out.pop_back();
            return out;
        }
    };

    std::vector<int> order(Case& c, int n)
    {
        std::vector<int> o(n);
        for (int i = 0; i < n; ++i) o[i] = i;
        if (!c.chance(60)) return o;
        for (int i = n - 1; i > 0; --i) std::swap(o[i], o[i - (int)c.draw(i + 1)]);
        c.label("sections permuted");
        return o;
    }

    std::string layOut(Case& c, const Curve& q)
    {
        Layout l(c);
        l.header("CURVE");
        c.label_if(l.crlf, "CRLF");
        for (int s : order(c, 3))
            switch (s)
            {
            case 0: l.scalar("Degree", q.Degree); break;
            case 1:
            {
                std::vector<std::string> it;
                for (double k : q.Knots.Values()) it.push_back(l.number(k));
                l.list("Knots", it);
                break;
            }
            default:
            {
                std::vector<std::string> it;
                for (auto& p : q.ControlPoints) it.push_back(l.point(p));
                l.list("ControlPoints", it);
                break;
            }
            }
        return l.done();
    }

    std::string layOut(Case& c, const Surface& q)
    {
        Layout l(c);
        l.header("SURFACE");
        c.label_if(l.crlf, "CRLF");
        for (int s : order(c, 5))
            switch (s)
            {
            case 0: l.scalar("DegreeU", q.DegreeU); break;
            case 1: l.scalar("DegreeV", q.DegreeV); break;
            case 2:
            case 3:
            {
                std::vector<std::string> it;
                for (double k : (s == 2 ? q.KnotsU : q.KnotsV).Values()) it.push_back(l.number(k));
                l.list(s == 2 ? "KnotsU" : "KnotsV", it);
                break;
            }
            default:
                l.key("ControlPoints");
                l.inlineOrNot();
                l.out += l.integer(q.ControlPoints.UCount) + l.gap() + l.integer(q.ControlPoints.VCount);
                l.eol();
                l.blanks();
                for (auto& p : q.ControlPoints.Values)
                {
                    if (c.chance(10)) l.out += l.ws();
                    l.out += l.point(p);
                    if (c.chance(50)) l.out += c.chance(10) ? " ," : ",";
                    l.eol();
                    l.blanks();
                }
                break;
            }
        return l.done();
    }

    template <class T>
    void check(Case& c, T (*make)(Case&))
    {
        T target;
        const bool used = c.chance(25);
        if (used)
        {
            const T other = make(c);
            std::stringstream st;
            other.SaveToFile(st, false);
            target.LoadFromFile(st);
            c.label("target used before");
        }
        const T x = make(c);
        const std::string text = layOut(c, x);
        c.log([&](std::ostream& o)
        {
            o << "file:\n";
            for (char ch : text)
                if (ch == '\r') o << "\\r";
                else if (ch == '\t') o << "\\t";
                else o << ch;
            o << "\nof ";
            put(o, x);
        });
        try
        {
            if (c.pick({9, 1}) == 1)
            {
                std::string f = scratchFile("lay");
                std::ofstream(f, std::ios::binary) << text;
                target.LoadFromFile(f);
                unlink(f.c_str());
                c.label("file");
            }
            else
            {
                std::istringstream is(text);
                target.LoadFromFile(is);
            }
        }
        catch (const std::exception& e)
        {
            c.fail(std::string("an equivalent layout is rejected: ") + e.what());
        }
        c.check(bits(target, x), [&](std::ostream& o)
        {
            o << "an equivalent layout loads differently: ";
            put(o, target);
        });
        c.nontrivial();
    }

    // only what text can carry: counts > 0
    void prop(Case& c)
    {
        if (c.chance(50))
        {
            c.label("surface");
            check<Surface>(c, wildSurface);
        }
        else
        {
            c.label("curve");
            check<Curve>(c, wildCurve);
        }
    }
}

const pbt::Property THE_PROPERTY{"C31", prop, 150000, 3000000, "the file was laid out by the generator, not by the writer (every case)"};
