#include "io.hpp"
#include <cstdlib>
#include <malloc.h>
#include <new>
#ifdef VERIF_FUZZ
#include <cstdint>
#endif
using namespace io;
using libnurbs::LIBNURBS_MAGIC;

// ---- allocation accounting: how much memory does a load have alive at once? ---------------------------------------
static bool g_Track = false, g_Exceeded = false;
static size_t g_Live = 0, g_Peak = 0, g_Limit = SIZE_MAX;

static void* alloc(size_t n, size_t al)
{
    if (g_Track && (n > g_Limit || g_Live + n > g_Limit))
    {
        g_Exceeded = true;
        throw std::bad_alloc();
    }
    void* p = al <= 16 ? std::malloc(n ? n : 1) : std::aligned_alloc(al, (n + al - 1) / al * al);
    if (!p) throw std::bad_alloc();
    if (g_Track)
    {
        g_Live += malloc_usable_size(p);
        g_Peak = std::max(g_Peak, g_Live);
    }
    return p;
}

static void release(void* q)
{
    if (!q) return;
    if (g_Track) g_Live -= std::min(g_Live, malloc_usable_size(q));
    std::free(q);
}

void* operator new(size_t n) { return alloc(n, 16); }
void* operator new[](size_t n) { return alloc(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return alloc(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return alloc(n, (size_t)a); }
void operator delete(void* p) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, size_t) noexcept { release(p); }
void operator delete[](void* p, size_t) noexcept { release(p); }
void operator delete(void* p, std::align_val_t a) noexcept { release(p); }
void operator delete[](void* p, std::align_val_t a) noexcept { release(p); }
void operator delete(void* p, size_t, std::align_val_t a) noexcept { release(p); }
void operator delete[](void* p, size_t, std::align_val_t a) noexcept { release(p); }

// ---- the oracle ------------------------------------------------------------------------------------------------
struct Outcome
{
    bool ok = false, tooMuch = false, inconsistent = false;
    std::string what;
};

static bool consistent(const Curve&) { return true; }

static bool consistent(const Surface& s)
{
    long long u = s.ControlPoints.UCount, v = s.ControlPoints.VCount;
    if (s.ControlPoints.Values.empty() && (u <= 0 || v <= 0)) return true; // no control point section
    return u > 0 && v > 0 && u * v == (long long)s.ControlPoints.Values.size();
}

// the limit: 4 MB plus 256 bytes per input byte
template <class T>
static Outcome load(T& target, const std::string& data)
{
    Outcome r;
    std::istringstream is(data, std::ios::binary);
    g_Live = g_Peak = 0;
    g_Exceeded = false;
    g_Limit = (4u << 20) + 256 * data.size();
    g_Track = true;
    try
    {
        target.LoadFromFile(is);
        g_Track = false;
        r.ok = true;
    }
    catch (const std::exception& e)
    {
        g_Track = false;
        r.what = e.what();
    }
    g_Track = false;
    r.tooMuch = g_Exceeded;
    if (r.ok) r.inconsistent = !consistent(target);
    return r;
}

// ---- text files as lists of sections -----------------------------------------------------------------------------
struct Section
{
    std::string key;
    std::vector<std::string> lines;
};

struct TextFile
{
    std::string header;
    std::vector<Section> sections;
    std::string str() const
    {
        std::string r = header + "\n";
        for (auto& s : sections)
        {
            r += "*" + s.key + ":\n";
            for (auto& l : s.lines) r += l + "\n";
        }
        return r;
    }
};

static std::string num(double d)
{
    char b[64];
    snprintf(b, sizeof b, "%.17g", d);
    return b;
}

static std::string vec(const Vec4& v) { return num(v.x()) + " " + num(v.y()) + " " + num(v.z()) + " " + num(v.w()); }

static Section knotSection(const char* key, const KnotVector& k)
{
    Section s{key, {""}};
    for (size_t i = 0; i < k.Values().size(); ++i) s.lines[0] += (i ? ", " : "") + num(k.Values()[i]);
    return s;
}

static TextFile text(const Curve& c)
{
    TextFile f{std::string(LIBNURBS_MAGIC) + " TXT CURVE", {{"Degree", {std::to_string(c.Degree)}}, knotSection("Knots", c.Knots), {"ControlPoints", {}}}};
    for (auto& p : c.ControlPoints) f.sections[2].lines.push_back(vec(p) + ",");
    return f;
}

static TextFile text(const Surface& s)
{
    TextFile f{std::string(LIBNURBS_MAGIC) + " TXT SURFACE",
               {{"DegreeU", {std::to_string(s.DegreeU)}}, {"DegreeV", {std::to_string(s.DegreeV)}}, knotSection("KnotsU", s.KnotsU), knotSection("KnotsV", s.KnotsV), {"ControlPoints", {}}}};
    f.sections[4].lines.push_back(std::to_string(s.ControlPoints.UCount) + " " + std::to_string(s.ControlPoints.VCount));
    for (auto& p : s.ControlPoints.Values) f.sections[4].lines.push_back(vec(p));
    return f;
}

// ---- binary files --------------------------------------------------------------------------------------------------
static void add(std::string& s, const void* p, size_t n) { s.append((const char*)p, n); }

// offsets of the count fields are returned: knot counts first, then the point count / grid dimensions
static std::string binary(const Curve& c, std::vector<size_t>& counts)
{
    std::string s = std::string(LIBNURBS_MAGIC) + " BIN CURVE\n";
    add(s, &c.Degree, 4);
    int n = (int)c.Knots.Values().size();
    counts.push_back(s.size());
    add(s, &n, 4);
    add(s, c.Knots.Values().data(), 8 * n);
    n = (int)c.ControlPoints.size();
    counts.push_back(s.size());
    add(s, &n, 4);
    for (auto& p : c.ControlPoints) add(s, p.data(), 32);
    return s;
}

static std::string binary(const Surface& f, std::vector<size_t>& counts)
{
    std::string s = std::string(LIBNURBS_MAGIC) + " BIN SURFACE\n";
    add(s, &f.DegreeU, 4);
    add(s, &f.DegreeV, 4);
    for (auto* k : {&f.KnotsU, &f.KnotsV})
    {
        int n = (int)k->Values().size();
        counts.push_back(s.size());
        add(s, &n, 4);
        add(s, k->Values().data(), 8 * n);
    }
    counts.push_back(s.size());
    add(s, &f.ControlPoints.UCount, 4);
    counts.push_back(s.size());
    add(s, &f.ControlPoints.VCount, 4);
    for (auto& p : f.ControlPoints.Values) add(s, p.data(), 32);
    return s;
}

static const char* otherType(const Curve&) { return "SURFACE"; }
static const char* otherType(const Surface&) { return "CURVE"; }
static constexpr bool isSurface(const Curve&) { return false; }
static constexpr bool isSurface(const Surface&) { return true; }

static std::string junkToken(Case& c)
{
    static const char* t[] = {"abc", "x", "?", "--1", "+-2", "e5", ".", "one", "#", "_1", "NULL", "-", "=3", "(1)"};
    return t[c.draw(sizeof t / sizeof *t)];
}

static std::string damagedWord(Case& c, std::string w)
{
    switch (c.pick({2, 2, 2, 1, 1}))
    {
    case 0: return w + "X";
    case 1: return w.substr(0, w.size() - 1 - c.draw(w.size() - 1));
    case 2:
    {
        size_t i = c.draw(w.size());
        w[i] = w[i] == 'Z' ? 'Y' : 'Z';
        return w;
    }
    case 3:
        for (auto& ch : w) ch = (char)std::tolower(ch);
        return w;
    default: return "Q";
    }
}

// turns a valid file into one that must be rejected; returns what was done
template <class T>
static std::string mustReject(Case& c, const T& x, std::string& data, const char*& label)
{
    TextFile f = text(x);
    std::vector<size_t> counts;
    std::string bin = binary(x, counts);
    auto header = [&](int word, const std::string& w)
    {
        bool b = c.chance(50);
        std::string all = b ? bin : f.str();
        size_t e = all.find('\n');
        std::vector<std::string> words{LIBNURBS_MAGIC, b ? "BIN" : "TXT", isSurface(x) ? "SURFACE" : "CURVE"};
        words[word] = w;
        data = words[0] + " " + words[1] + " " + words[2] + all.substr(e);
    };
    switch (c.pick({2, 2, 2, 6, 3, 4, 2, 6, 3, 2, 3, 4, 1, 2}))
    {
    case 0: label = "wrong magic"; header(0, damagedWord(c, LIBNURBS_MAGIC)); return "damaged magic";
    case 1:
    {
        label = "wrong mode";
        static const char* t[] = {"TXTX", "BINARY", "txt", "bin", "TEXT", "T", "B", "BI", "TX", "0"};
        header(1, t[c.draw(10)]);
        return "unknown mode";
    }
    case 2:
    {
        label = "wrong type";
        header(2, c.chance(50) ? otherType(x) : damagedWord(c, isSurface(x) ? "SURFACE" : "CURVE"));
        return "wrong object type";
    }
    case 3:
    {
        label = "truncated binary";
        size_t cut = c.chance(50) ? c.draw(bin.size()) : bin.size() - 1 - c.draw(std::min<size_t>(bin.size() - 1, 40));
        data = bin.substr(0, cut);
        return "binary file cut at byte " + std::to_string(cut) + " of " + std::to_string(bin.size());
    }
    case 4:
    {
        label = "negative count";
        size_t k = c.draw(counts.size());
        int n = c.chance(50) ? -1 : -(int)c.draw(0x7fffffff) - 1;
        if (isSurface(x) && k >= 2 && c.chance(30)) n = 0;
        data = bin;
        std::memcpy(&data[counts[k]], &n, 4);
        return "count field " + std::to_string(k) + " set to " + std::to_string(n);
    }
    case 5:
    {
        label = "oversized count";
        size_t k = c.draw(counts.size());
        int old;
        std::memcpy(&old, &bin[counts[k]], 4);
        int n = c.chance(40) ? 0x7fffffff - (int)c.draw(8) : old + 1 + (int)c.draw(c.chance(50) ? 0x70000000u : 100000u);
        data = bin;
        std::memcpy(&data[counts[k]], &n, 4);
        // with a larger knot count the bytes that follow are read as knots; the file always ends too early
        size_t need = k + 1 == counts.size() || (isSurface(x) && k >= 2) ? 0 : (size_t)n * 8;
        if (need && counts[k] + 4 + need <= data.size()) data.resize(counts[k] + 4 + need - 1);
        return "count field " + std::to_string(k) + " set to " + std::to_string(n);
    }
    case 6:
    {
        // grid dimensions whose product overflows
        if (!isSurface(x)) { label = "wrong magic"; header(0, "X"); return "damaged magic"; }
        label = "overflowing grid";
        static const int d[][2] = {{65536, 65536}, {1 << 30, 4}, {46341, 46341}, {0x7fffffff, 0x7fffffff}, {1 << 16, 1 << 17}, {0x10001, 0xffff}, {1 << 20, 1 << 12}, {1 << 29, 8}};
        auto& q = d[c.draw(8)];
        bool sw = c.chance(50), b = c.chance(50);
        int u = q[sw], v = q[!sw];
        if (b)
        {
            data = bin;
            std::memcpy(&data[counts[2]], &u, 4);
            std::memcpy(&data[counts[3]], &v, 4);
            if (c.chance(50)) data.resize(counts[3] + 4);
        }
        else
        {
            f.sections.back().lines[0] = std::to_string(u) + " " + std::to_string(v);
            if (c.chance(60)) f.sections.back().lines.resize(1);
            data = f.str();
        }
        return "grid dimensions " + std::to_string(u) + "x" + std::to_string(v);
    }
    case 7:
    {
        // a number that is none
        label = "non-numeric";
        std::string t = junkToken(c);
        size_t k = c.draw(f.sections.size());
        Section& s = f.sections[k];
        size_t li = c.draw(s.lines.size());
        std::string& l = s.lines[li];
        if (s.key[0] == 'D') l = t;
        else if (s.key[0] == 'K')
        {
            std::vector<std::string> parts;
            std::stringstream ss(l);
            for (std::string p; std::getline(ss, p, ',');) parts.push_back(p);
            parts[c.draw(parts.size())] = " " + t;
            l.clear();
            for (size_t i = 0; i < parts.size(); ++i) l += (i ? "," : "") + parts[i];
        }
        else
        {
            std::vector<std::string> parts;
            std::stringstream ss(l);
            for (std::string p; ss >> p;) parts.push_back(p);
            size_t i = c.draw(parts.size());
            parts[i] = t + (parts[i].back() == ',' ? "," : "");
            l.clear();
            for (size_t q = 0; q < parts.size(); ++q) l += (q ? " " : "") + parts[q];
        }
        data = f.str();
        return "token '" + t + "' in section " + s.key + " line " + std::to_string(li);
    }
    case 8:
    {
        label = "unknown section";
        if (c.chance(50))
        {
            Section& s = f.sections[c.draw(f.sections.size())];
            s.key = c.chance(50) ? s.key + "X" : isSurface(x) ? (s.key == "ControlPoints" ? "Control" : s.key.substr(0, s.key.size() - 1)) : s.key + "U";
        }
        else
        {
            static const char* t[] = {"Weights", "Foo", "degree", "KNOTS", "Points", "Degre"};
            f.sections.insert(f.sections.begin() + c.draw(f.sections.size() + 1), Section{t[c.draw(6)], {"1"}});
        }
        data = f.str();
        return "unknown section";
    }
    case 9:
    {
        label = "content before a section";
        data = f.header + "\n" + (c.chance(50) ? "0.5" : "hello") + "\n" + f.str().substr(f.header.size() + 1);
        return "content before any section";
    }
    case 10:
    {
        label = "short control point";
        Section& s = f.sections.back();
        size_t first = isSurface(x) ? 1 : 0;
        std::string& l = s.lines[first + c.draw(s.lines.size() - first)];
        size_t keep = c.draw(4), pos = 0;
        for (size_t i = 0; i < keep; ++i) pos = l.find(' ', pos) + 1;
        // keep that many numbers (one at least, so that the line does not vanish)
        std::vector<std::string> parts;
        std::stringstream ss(l);
        for (std::string p; ss >> p;) parts.push_back(p);
        parts.resize(1 + c.draw(3));
        l.clear();
        for (size_t q = 0; q < parts.size(); ++q) l += (q ? " " : "") + parts[q];
        data = f.str();
        return "control point with " + std::to_string(parts.size()) + " numbers";
    }
    case 11:
    {
        if (!isSurface(x)) { label = "wrong magic"; header(0, "Y"); return "damaged magic"; }
        label = "grid does not match";
        Section& s = f.sections.back();
        int u = 0, v = 0;
        std::stringstream(s.lines[0]) >> u >> v;
        switch (c.pick({2, 2, 2, 1, 1, 1}))
        {
        case 0: u += c.range(1, 4); break;
        case 1: v += c.range(1, 4); break;
        case 2: s.lines.push_back(s.lines.back()); break;
        case 3: s.lines.pop_back(); break;
        case 4: u = -u, v = -v; break;
        default:
            (c.chance(50) ? u : v) = 0;
            if (c.chance(50)) s.lines.resize(1);
            break;
        }
        s.lines[0] = std::to_string(u) + " " + std::to_string(v);
        data = f.str();
        return "grid " + s.lines[0] + " with " + std::to_string(s.lines.size() - 1) + " points";
    }
    case 13:
    {
        label = "degree without one value";
        Section& s = f.sections[isSurface(x) ? c.draw(2) : 0];
        if (c.chance(40)) s.lines.clear();
        else
            for (int k = c.range(1, 2); k > 0; --k) s.lines.insert(s.lines.begin() + c.draw(s.lines.size() + 1), c.chance(50) ? s.lines[0] : "3");
        if (c.chance(30)) std::rotate(f.sections.begin(), f.sections.begin() + c.draw(f.sections.size()), f.sections.end());
        data = f.str();
        return "a degree section without exactly one line";
    }
    default:
        label = "empty";
        data = "";
        return "empty stream";
    }
}

static std::string mutate(Case& c, std::string s)
{
    int n = c.range(1, 6);
    for (int k = 0; k < n; ++k)
    {
        size_t at = s.empty() ? 0 : c.draw(s.size());
        switch (c.pick({4, 2, 2, 2, 2, 2, 1}))
        {
        case 0:
            if (!s.empty()) s[at] = (char)c.draw(256);
            break;
        case 1: s.insert(at, 1, (char)c.draw(256)); break;
        case 2: s.erase(at, 1 + c.draw(8)); break;
        case 3: s.resize(at); break;
        case 4:
        {
            // integer-sized overwrite with an interesting value
            static const int t[] = {-1, 0, 1, 0x7fffffff, (int)0x80000000, 65536, 1 << 24, 1 << 28, 3};
            int v = t[c.draw(9)];
            if (s.size() >= 4)
            {
                at = c.draw(s.size() - 3);
                std::memcpy(&s[at], &v, 4);
            }
            break;
        }
        case 5:
        {
            static const char* t[] = {"*", ":", ",", "\n", " ", "\r\n", "*Knots:", "*ControlPoints: 3 3\n", "1e999", "-", "nan", "inf", "0x1p3", "99999999999999999999", "\0", "*:\n", "::", "65536 65536"};
            s.insert(at, t[c.draw(18)]);
            break;
        }
        default:
        {
            size_t len = std::min<size_t>(s.size() - std::min(at, s.size()), 1 + c.draw(60));
            std::string part = s.substr(std::min(at, s.size()), len);
            s.insert(s.empty() ? 0 : c.draw(s.size()), part);
        }
        }
    }
    return s;
}

static void putData(std::ostream& o, const std::string& d)
{
    o << "data(" << d.size() << " bytes)=\"";
    for (size_t i = 0; i < d.size() && i < 1500; ++i)
    {
        unsigned char ch = (unsigned char)d[i];
        if (ch == '\n') o << "\\n";
        else if (ch == '"' || ch == '\\') o << '\\' << ch;
        else if (ch >= 32 && ch < 127) o << ch;
        else
        {
            char b[8];
            snprintf(b, sizeof b, "\\x%02x", ch);
            o << b;
        }
    }
    o << "\"";
}

template <class T>
static void judge(Case& c, T& target, const std::string& data, bool reject, const std::string& how)
{
    Outcome r = load(target, data);
    c.check(!r.tooMuch, [&](std::ostream& o) { o << "loading " << data.size() << " bytes asked for more than 4 MB + 256 bytes per input byte of memory (" << how << ")"; });
    if (reject) c.check(!r.ok, [&](std::ostream& o) { o << "a malformed file was accepted: " << how; });
    c.check(!r.inconsistent, [&](std::ostream& o) { o << "the loaded surface does not hold as many points as its grid dimensions say (" << how << ")"; });
    c.label(r.ok ? "accepted" : "rejected");
}

template <class T>
static void scenario(Case& c, T (*make)(Case&))
{
    T x = make(c), target;
    std::string data, how;
    if (c.chance(30))
    {
        target = make(c);
        c.label("target used before");
    }
    if (c.chance(60))
    {
        const char* label = "";
        how = mustReject(c, x, data, label);
        c.label(label);
        c.log([&](std::ostream& o) { o << how << ": "; putData(o, data); });
        c.nontrivial();
        judge(c, target, data, true, how);
    }
    else
    {
        std::vector<size_t> counts;
        std::string whole = c.chance(50) ? text(x).str() : binary(x, counts);
        if (c.chance(10)) // a plain file must load: the writer model of this harness agrees with the library
        {
            c.log([&](std::ostream& o) { o << "unmodified: "; putData(o, whole); });
            Outcome r = load(target, whole);
            c.check(r.ok && !r.tooMuch, [&](std::ostream& o) { o << "a well-formed file was rejected: " << r.what; });
            c.check(bits(target, x), "a well-formed file loads to a different object");
            c.label("well-formed");
            return;
        }
        data = mutate(c, whole);
        c.log([&](std::ostream& o) { o << "mutated: "; putData(o, data); });
        c.label("mutated");
        c.nontrivial();
        judge(c, target, data, false, "mutated file");
    }
    // the object stays usable
    T again;
    std::vector<size_t> counts;
    std::string good = c.chance(50) ? text(x).str() : binary(x, counts);
    Outcome r = load(target, good);
    c.check(r.ok && bits(target, x), "after a failed or odd load a well-formed file no longer loads into the same object");
}

static void prop(Case& c)
{
    if (c.chance(50))
    {
        c.label("curve");
        scenario<Curve>(c, wildCurve);
    }
    else
    {
        c.label("surface");
        scenario<Surface>(c, wildSurface);
    }
}

const pbt::Property THE_PROPERTY{"C22", prop, 300000, 6000000, "the file is malformed (a must-reject construction) or mutated"};

#ifdef VERIF_FUZZ
const std::string& pbt::tmpDir()
{
    static std::string d = ".";
    return d;
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t n)
{
    if (n == 0) return 0;
    std::string s((const char*)data + 1, n - 1);
    if (data[0] & 1)
    {
        Curve t;
        Outcome r = load(t, s);
        if (r.tooMuch || r.inconsistent) __builtin_trap();
    }
    else
    {
        Surface t;
        Outcome r = load(t, s);
        if (r.tooMuch || r.inconsistent) __builtin_trap();
    }
    return 0;
}
#endif
