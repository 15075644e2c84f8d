#include "io.hpp"
#include <csignal>
#include <sys/resource.h>
#include <sys/stat.h>
using namespace io;

// accepts `limit` bytes, then fails in one of several ways
class FailBuf : public std::streambuf
{
public:
    FailBuf(size_t limit, int kind, size_t buffer) : m_Limit(limit), m_Kind(kind), m_Area(buffer)
    {
        if (buffer) setp(m_Area.data(), m_Area.data() + buffer);
    }

    std::string taken;
    bool failed = false;

    // everything the stream still holds goes to the sink; false if the sink refuses
    bool drain()
    {
        size_t n = (size_t)(pptr() - pbase());
        bool ok = accept(pbase(), n) == n;
        if (!m_Area.empty()) setp(m_Area.data(), m_Area.data() + m_Area.size());
        return ok;
    }

protected:
    int_type overflow(int_type ch) override
    {
        if (!drain()) return traits_type::eof();
        if (traits_type::eq_int_type(ch, traits_type::eof())) return traits_type::not_eof(ch);
        char c = traits_type::to_char_type(ch);
        if (!m_Area.empty())
        {
            *pptr() = c;
            pbump(1);
            return ch;
        }
        return accept(&c, 1) == 1 ? ch : traits_type::eof();
    }

    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        if (!m_Area.empty()) return std::streambuf::xsputn(s, n);
        return (std::streamsize)accept(s, (size_t)n);
    }

    int sync() override { return drain() ? 0 : -1; }

private:
    size_t accept(const char* s, size_t n)
    {
        size_t room = m_Limit > m_Count ? m_Limit - m_Count : 0;
        if (failed && m_Kind == 2) room = n; // a fault that goes away again
        size_t k = std::min(n, room);
        if (m_Kind == 1 && k < n) k = 0; // all or nothing
        taken.append(s, k);
        m_Count += k;
        if (k < n)
        {
            failed = true;
            if (m_Kind == 3) throw std::runtime_error("injected");
        }
        return k;
    }

    size_t m_Limit, m_Count = 0;
    int m_Kind;
    std::vector<char> m_Area;
};

struct FileLimit
{
    rlimit old{};
    explicit FileLimit(size_t n)
    {
        signal(SIGXFSZ, SIG_IGN);
        getrlimit(RLIMIT_FSIZE, &old);
        rlimit r = old;
        r.rlim_cur = n;
        setrlimit(RLIMIT_FSIZE, &r);
    }
    ~FileLimit() { setrlimit(RLIMIT_FSIZE, &old); }
};

static void enlarge(Case& c, Curve& x)
{
    int n = c.range(50, 700);
    for (int i = 0; i < n; ++i) x.ControlPoints.push_back({i * 0.37, -i * 1.1, i / 3.0, 1});
}

static void enlarge(Case& c, Surface& x)
{
    int nu = c.range(5, 30), nv = c.range(5, 30);
    x.ControlPoints.UCount = nu;
    x.ControlPoints.VCount = nv;
    x.ControlPoints.Values.clear();
    for (int i = 0; i < nu * nv; ++i) x.ControlPoints.Values.push_back({i * 0.37, -i * 1.1, i / 3.0, 1});
}

static std::string slurp(const std::string& f)
{
    std::ifstream is(f, std::ios::binary);
    std::ostringstream o;
    o << is.rdbuf();
    return o.str();
}

template <class T>
static void scenario(Case& c, T (*make)(Case&))
{
    T x = make(c);
    if (c.chance(50)) enlarge(c, x);
    const T copy = x;
    const bool bin = c.chance(50);
    std::ostringstream whole(std::ios::binary);
    x.SaveToFile(whole, bin);
    const std::string data = whole.str();
    c.label(bin ? "binary" : "text");

    auto position = [&]() -> size_t
    {
        switch (c.pick({3, 3, 2, 1}))
        {
        case 0: return c.draw(data.size());
        case 1: return data.size() - 1 - c.draw(std::min<size_t>(data.size() - 1, 40));
        case 2: return c.draw(std::min<size_t>(data.size(), 60));
        default: return data.size() + c.draw(3); // fits
        }
    };
    bool threw = false;
    const int how = c.pick({6, 4, 1, 1, 1});
    switch (how)
    {
    case 0: // a stream that fails at a byte
    {
        size_t at = position();
        int kind = c.pick({3, 2, 2, 2});
        size_t buffer = c.chance(30) ? c.range(1, 300) : 0;
        c.log([&](std::ostream& o) { o << (bin ? "BIN" : "TXT") << " to a stream that fails at byte " << at << " of " << data.size() << ", kind " << kind << ", buffer " << buffer << "; "; put(o, x); });
        FailBuf buf(at, kind, buffer);
        std::ostream os(&buf);
        if (c.chance(20)) os.exceptions(std::ios::badbit | std::ios::failbit);
        try
        {
            x.SaveToFile(os, bin);
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        // a byte refused while saving has to be reported; what is still buffered fails on the user's own flush
        if (buf.failed) c.nontrivial();
        c.label(buf.failed ? "stream failed" : "stream took it all");
        c.check(!buf.failed || threw, [&](std::ostream& o) { o << "the stream refused bytes after " << at << " of " << data.size() << " but saving returned normally"; });
        if (!threw)
        {
            if (at >= data.size()) c.check(buf.drain() && buf.taken == data, "saving returned normally but the stream does not hold the whole object");
        }
        else c.check(buf.failed, "saving threw although the stream took every byte");
        break;
    }
    case 1: // a disk that is full
    {
        size_t at = position();
        std::string f = scratchFile("full");
        c.log([&](std::ostream& o) { o << (bin ? "BIN" : "TXT") << " to a file that can take " << at << " of " << data.size() << " bytes; "; put(o, x); });
        {
            FileLimit l(at);
            try
            {
                x.SaveToFile(f, bin);
            }
            catch (const std::exception&)
            {
                threw = true;
            }
        }
        std::string got = slurp(f);
        T back;
        bool loaded = false;
        if (!threw)
        {
            try
            {
                back.LoadFromFile(f);
                loaded = bits(back, x);
            }
            catch (const std::exception&)
            {
            }
        }
        unlink(f.c_str());
        c.label(at < data.size() ? "disk full" : "disk has room");
        if (at < data.size()) c.nontrivial();
        c.check(threw || got == data, [&](std::ostream& o) { o << "only " << got.size() << " of " << data.size() << " bytes reached the file but saving returned normally"; });
        c.check(threw || loaded, "saving returned normally but the file does not load back to the object");
        c.check(at < data.size() || !threw, "saving threw although the whole file fits");
        break;
    }
    case 2: // full device
        c.log([&](std::ostream& o) { o << (bin ? "BIN" : "TXT") << " to /dev/full; "; put(o, x); });
        try
        {
            x.SaveToFile("/dev/full", bin);
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        c.label("full device");
        c.nontrivial();
        c.check(threw, "saving to a full device returned normally");
        break;
    case 3: // cannot be opened
    {
        std::string base = scratchFile("dir");
        mkdir(base.c_str(), 0700);
        std::string f = c.chance(50) ? base : base + "/no/such/file";
        if (c.chance(20)) f = "";
        c.log([&](std::ostream& o) { o << (bin ? "BIN" : "TXT") << " to an unopenable path; "; put(o, x); });
        try
        {
            x.SaveToFile(f, bin);
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        rmdir(base.c_str());
        c.label("unopenable");
        c.nontrivial();
        c.check(threw, "saving to a path that cannot be opened returned normally");
        break;
    }
    default: // a stream that is already broken
    {
        c.log([&](std::ostream& o) { o << (bin ? "BIN" : "TXT") << " to a failed stream; "; put(o, x); });
        std::ostringstream os(std::ios::binary);
        os.setstate(c.chance(50) ? std::ios::badbit : std::ios::failbit);
        try
        {
            x.SaveToFile(os, bin);
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        c.label("stream failed before");
        c.nontrivial();
        c.check(threw, "saving to a failed stream returned normally");
        break;
    }
    }
    c.check(bits(x, copy), "a failed save modified the object");
    std::ostringstream again(std::ios::binary);
    x.SaveToFile(again, bin);
    c.check(again.str() == data, "saving again after a failure writes something else");
}

static void prop(Case& c)
{
    if (c.chance(50))
    {
        c.label("curve");
        scenario<Curve>(c, wildCurve);
    }
    else
    {
        c.label("surface");
        scenario<Surface>(c, wildSurface);
    }
}

const pbt::Property THE_PROPERTY{"C23", prop, 60000, 1500000, "the write is made to fail (stream, disk, device or path) before the last byte"};
