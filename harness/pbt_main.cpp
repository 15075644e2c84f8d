// Supervisor: forks workers, turns crashes / aborts / hangs / memory runaways
// into failing cases, shrinks, replays, writes a result JSON.
#include "pbt.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace pbt;
using Clock = std::chrono::steady_clock;

extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:alloc_dealloc_mismatch=0:max_malloc_fill_size=1073741824:malloc_fill_byte=255:free_fill_byte=254:"
           "max_free_fill_size=4096:max_allocation_size_mb=768:allocator_may_return_null=0:abort_on_error=1:"
           "handle_abort=0:symbolize=1:quarantine_size_mb=16:detect_stack_use_after_return=0:disable_coredump=1";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:abort_on_error=1"; }
extern "C" const char* __tsan_default_options()
{
    return "halt_on_error=1:abort_on_error=1:exitcode=66:report_signal_unsafe=0:die_after_fork=0";
}

namespace
{
    enum Status : int { S_NONE, S_OK, S_DISCARD, S_FAIL, S_RUNNING };

    constexpr size_t MAX_HASH = 1u << 22;
    constexpr int MAX_LABEL = 96;
    constexpr int MAX_SAMPLE = 4;
    constexpr size_t SAMPLE_LEN = 3000;

    struct Slot
    {
        volatile int status;
        volatile long curIndex;
        volatile uint32_t nchoices;
        volatile uint64_t cases, nontrivial, discarded, checks;
        double worst;
        uint64_t choices[Case::MAX_CHOICES + 8];
        char msg[6000];
        char log[60000];
        struct
        {
            char name[64];
            uint64_t n;
        } labels[MAX_LABEL];
        volatile int nsamples;
        char samples[MAX_SAMPLE][SAMPLE_LEN];
        uint64_t nhash;
        uint64_t hashes[MAX_HASH];
    };

    Slot* newSlot()
    {
        void* p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
        return (Slot*)p;
    }

    int g_CpuLimit = 20;
    bool g_Thorough = false;
    std::string g_TmpDir;
    uint64_t g_Seed = 1;

    void copyStr(char* dst, size_t cap, const std::string& s)
    {
        size_t n = std::min(cap - 1, s.size());
        memcpy(dst, s.data(), n);
        dst[n] = 0;
    }

    void armWatchdog(int sec)
    {
        itimerval it{};
        it.it_value.tv_sec = sec;
        setitimer(ITIMER_PROF, &it, nullptr);
    }

    uint64_t caseSeed(long index)
    {
        uint64_t s = g_Seed * 0x9e3779b97f4a7c15ull;
        for (const char* p = THE_PROPERTY.id; *p; ++p) s = s * 131 + (unsigned char)*p;
        s ^= (uint64_t)index * 0xd1342543de82ef95ull;
        splitmix(s);
        return s;
    }

    // runs one case, returns status; fills slot msg/log
    int runCase(Case& c, Slot* s)
    {
        s->status = S_RUNNING;
        s->msg[0] = 0;
        armWatchdog(g_CpuLimit);
        c.thorough = g_Thorough;
        int st = S_OK;
        try
        {
            c.out.precision(17);
            if (c.wantLog) c.sink = [s](const std::string& t) { copyStr(s->log, sizeof s->log, t); };
            THE_PROPERTY.fn(c);
        }
        catch (Discard&)
        {
            st = S_DISCARD;
        }
        catch (Fail& f)
        {
            st = S_FAIL;
            copyStr(s->msg, sizeof s->msg, f.msg);
        }
        catch (std::exception& e)
        {
            st = S_FAIL;
            copyStr(s->msg, sizeof s->msg, std::string("unexpected exception: ") + e.what());
        }
        catch (...)
        {
            st = S_FAIL;
            copyStr(s->msg, sizeof s->msg, "unexpected exception of unknown type");
        }
        if (c.wantLog) copyStr(s->log, sizeof s->log, c.out.str());
        s->status = st;
        return st;
    }

    void setupChild(const std::string& errFile)
    {
        int fd = open(errFile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        if (fd >= 0) { dup2(fd, 2); close(fd); }
        int nul = open("/dev/null", O_WRONLY);
        if (nul >= 0) { dup2(nul, 1); close(nul); }
        rlimit rl{0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        signal(SIGPROF, SIG_DFL);
        std::set_terminate([] { _exit(4); });
    }

    void workerLoop(Slot* s, long start, long end, long step, double deadline_s, Clock::time_point t0)
    {
        for (long i = start; i < end; i += step)
        {
            if ((i / step) % 16 == 0 && std::chrono::duration<double>(Clock::now() - t0).count() > deadline_s) break;
            s->curIndex = i;
            s->nchoices = 0;
            Case c(caseSeed(i), s->choices, &s->nchoices);
            c.wantLog = s->nsamples < MAX_SAMPLE && (i / step) % 7 == 3;
            int st = runCase(c, s);
            if (st == S_FAIL) _exit(3);
            if (st == S_DISCARD) { s->discarded = s->discarded + 1; continue; }
            s->cases = s->cases + 1;
            s->checks = s->checks + c.checks;
            s->worst = std::max(s->worst, c.worst);
            for (auto& l : c.labels)
            {
                for (int k = 0; k < MAX_LABEL; ++k)
                {
                    if (s->labels[k].n == 0) copyStr(s->labels[k].name, 64, l);
                    if (l.compare(0, 63, s->labels[k].name) == 0) { s->labels[k].n++; break; }
                }
            }
            if (c.isNontrivial)
            {
                s->nontrivial = s->nontrivial + 1;
                if (s->nhash < MAX_HASH) s->hashes[s->nhash++] = c.hash;
                if (c.wantLog && s->nsamples < MAX_SAMPLE)
                {
                    copyStr(s->samples[s->nsamples], SAMPLE_LEN, s->log);
                    s->nsamples = s->nsamples + 1;
                }
            }
        }
        s->status = S_OK;
    }

    std::string slurpTail(const std::string& f, size_t cap = 4000)
    {
        std::ifstream is(f);
        std::string t((std::istreambuf_iterator<char>(is)), {});
        if (t.size() > cap) t = t.substr(0, cap);
        return t;
    }

    long rssMb(pid_t p)
    {
        char b[64];
        snprintf(b, sizeof b, "/proc/%d/statm", (int)p);
        FILE* f = fopen(b, "r");
        if (!f) return 0;
        long a = 0, r = 0;
        int n = fscanf(f, "%ld %ld", &a, &r);
        fclose(f);
        return n == 2 ? r / 256 : 0;
    }

    // waits for a child, watching memory; returns description ("" = clean exit, "FAIL" = property failure)
    std::string outcome(int wst, bool memKill, const std::string& errFile)
    {
        if (memKill) return "memory runaway (resident set above limit)";
        if (WIFEXITED(wst))
        {
            if (WEXITSTATUS(wst) == 0) return "";
            if (WEXITSTATUS(wst) == 3) return "FAIL";
            if (WEXITSTATUS(wst) == 4) return "std::terminate called: " + slurpTail(errFile);
            return "process exited with " + std::to_string(WEXITSTATUS(wst)) + ": " + slurpTail(errFile);
        }
        int sig = WTERMSIG(wst);
        if (sig == SIGPROF) return "did not terminate within " + std::to_string(g_CpuLimit) + " s of CPU time";
        return std::string("crashed with signal ") + strsignal(sig) + ": " + slurpTail(errFile);
    }

    struct Result
    {
        bool failed = false;
        std::string msg, log;
        std::vector<uint64_t> choices;
    };

    Slot* g_Rep = nullptr;

    std::string waitChild(pid_t pid, const std::string& err)
    {
        bool memKill = false;
        int wst = 0;
        for (int spin = 0;; ++spin)
        {
            pid_t r = waitpid(pid, &wst, WNOHANG);
            if (r == pid) break;
            if (r < 0) break;
            usleep(spin < 50 ? 300 : 2000);
            if (spin % 16 == 15 && rssMb(pid) > 2500) { memKill = true; kill(pid, SIGKILL); }
        }
        return outcome(wst, memKill, err);
    }

    Result replayOnce(const std::vector<uint64_t>& ch, bool wantLog)
    {
        Slot* s = g_Rep;
        s->status = S_NONE;
        s->nchoices = 0;
        s->msg[0] = s->log[0] = 0;
        std::string err = g_TmpDir + "/rep.err";
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0)
        {
            setupChild(err);
            Case c(ch.data(), ch.size(), s->choices, &s->nchoices);
            c.wantLog = wantLog;
            int st = runCase(c, s);
            _exit(st == S_FAIL ? 3 : 0);
        }
        std::string o = waitChild(pid, err);
        Result r;
        r.failed = !o.empty();
        r.msg = o == "FAIL" ? s->msg : o;
        r.log = s->log;
        r.choices.assign(s->choices, s->choices + s->nchoices);
        return r;
    }

    Result runRange(long start, long end, long step)
    {
        Slot* s = g_Rep;
        s->status = S_NONE;
        s->nchoices = 0;
        s->msg[0] = s->log[0] = 0;
        s->nsamples = MAX_SAMPLE;
        std::string err = g_TmpDir + "/rep.err";
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0)
        {
            setupChild(err);
            workerLoop(s, start, end, step, 1e9, Clock::now());
            _exit(0);
        }
        std::string o = waitChild(pid, err);
        Result r;
        r.failed = !o.empty();
        r.msg = o == "FAIL" ? s->msg : o;
        r.choices.assign(s->choices, s->choices + s->nchoices);
        return r;
    }

    Result shrink(Result best, double budget_s, long& tried)
    {
        auto t0 = Clock::now();
        auto over = [&] { return std::chrono::duration<double>(Clock::now() - t0).count() > budget_s || tried > 3000; };
        auto better = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b)
        {
            if (a.size() != b.size()) return a.size() < b.size();
            return a < b;
        };
        auto attempt = [&](const std::vector<uint64_t>& cand) -> bool
        {
            if (cand == best.choices) return false;
            ++tried;
            Result r = replayOnce(cand, false);
            if (!r.failed) return false;
            // r.choices is the normalised sequence actually consumed
            if (r.choices.empty() && !cand.empty()) r.choices = cand;
            if (!better(r.choices, best.choices)) return false;
            best = r;
            return true;
        };
        bool progress = true;
        while (progress && !over())
        {
            progress = false;
            for (size_t chunk : {64, 32, 16, 8, 4, 2, 1})
            {
                for (size_t i = best.choices.size(); i-- > 0 && !over();)
                {
                    if (i + chunk > best.choices.size()) continue;
                    auto c = best.choices;
                    c.erase(c.begin() + i, c.begin() + i + chunk);
                    if (attempt(c)) progress = true;
                    else if (chunk > 1) i = i >= chunk - 1 ? i - (chunk - 1) : 0;
                }
            }
            for (size_t chunk : {16, 4, 1})
            {
                for (size_t i = 0; i < best.choices.size() && !over(); i += chunk)
                {
                    auto c = best.choices;
                    bool any = false;
                    for (size_t k = i; k < std::min(c.size(), i + chunk); ++k)
                    {
                        any |= c[k] != 0;
                        c[k] = 0;
                    }
                    if (any && attempt(c)) progress = true;
                }
            }
            for (size_t i = 0; i < best.choices.size() && !over(); ++i)
            {
                uint64_t lo = 0;
                for (int it = 0; it < 12 && i < best.choices.size() && !over(); ++it)
                {
                    uint64_t hi = best.choices[i];
                    if (hi <= lo) break;
                    auto c = best.choices;
                    c[i] = lo + (hi - lo) / 2;
                    if (attempt(c)) progress = true;
                    else
                    {
                        lo = c[i] + 1;
                        if (hi - lo > (1ull << 40)) break;
                    }
                }
                if (i < best.choices.size() && best.choices[i] > 0)
                {
                    auto c = best.choices;
                    c[i]--;
                    if (attempt(c)) progress = true;
                }
            }
        }
        return best;
    }

    std::string jstr(const std::string& s)
    {
        std::string o = "\"";
        for (unsigned char ch : s)
        {
            if (ch == '"') o += "\\\"";
            else if (ch == '\\') o += "\\\\";
            else if (ch == '\n') o += "\\n";
            else if (ch == '\t') o += "\\t";
            else if (ch < 32 || ch > 126)
            {
                char b[8];
                snprintf(b, sizeof b, "\\u%04x", ch);
                o += b;
            }
            else o += (char)ch;
        }
        return o + "\"";
    }

    std::vector<uint64_t> readChoices(const std::string& f)
    {
        std::ifstream is(f);
        std::string t((std::istreambuf_iterator<char>(is)), {});
        auto p = t.find("\"choices\"");
        std::vector<uint64_t> v;
        if (p == std::string::npos) return v;
        p = t.find('[', p);
        while (p != std::string::npos && t[p] != ']')
        {
            ++p;
            while (p < t.size() && (t[p] == ' ' || t[p] == ',' || t[p] == '\n')) ++p;
            if (p >= t.size() || t[p] == ']') break;
            v.push_back(strtoull(t.c_str() + p, nullptr, 10));
            while (p < t.size() && t[p] >= '0' && t[p] <= '9') ++p;
            if (p < t.size() && t[p] == ']') break;
        }
        return v;
    }

    long readNum(const std::string& f, const char* key, long def)
    {
        std::ifstream is(f);
        std::string t((std::istreambuf_iterator<char>(is)), {});
        auto p = t.find(std::string("\"") + key + "\":");
        if (p == std::string::npos) return def;
        return strtol(t.c_str() + p + strlen(key) + 3, nullptr, 10);
    }
}

#ifndef PBT_NO_MAIN
const std::string& pbt::tmpDir() { return g_TmpDir; }

int main(int argc, char** argv)
{
    std::map<std::string, std::string> opt;
    for (int i = 1; i + 1 < argc; i += 2) opt[argv[i]] = argv[i + 1];
    g_Seed = opt.count("--seed") ? strtoull(opt["--seed"].c_str(), nullptr, 10) : 1;
    g_Thorough = opt["--tier"] == "thorough";
    g_TmpDir = opt.count("--tmp") ? opt["--tmp"] : "/tmp";
    long total = opt.count("--cases") ? atol(opt["--cases"].c_str()) : (g_Thorough ? THE_PROPERTY.thorough : THE_PROPERTY.quick);
    double budget = opt.count("--budget") ? atof(opt["--budget"].c_str()) : (g_Thorough ? 600 : 75);
    int workers = opt.count("--workers") ? atoi(opt["--workers"].c_str()) : 8;
    g_Rep = newSlot();

    if (opt.count("--replay"))
    {
        const std::string f = opt["--replay"];
        long s0 = readNum(f, "sequence_start", -1);
        if (s0 >= 0)
        {
            g_Seed = (uint64_t)readNum(f, "seed", 1);
            g_Thorough = readNum(f, "thorough", 0) != 0;
            Result r = runRange(s0, readNum(f, "sequence_end", s0 + 1), readNum(f, "sequence_step", 1));
            printf("%s\n%s\n", r.failed ? "REPRODUCED" : "NOT-REPRODUCED", r.msg.c_str());
            return r.failed ? 1 : 0;
        }
        g_Thorough = readNum(f, "thorough", 0) != 0;
        auto ch = readChoices(f);
        int tries = THE_PROPERTY.repeatFlaky ? 30 : 1;
        for (int k = 0; k < tries; ++k)
        {
            Result r = replayOnce(ch, true);
            if (r.failed || k == tries - 1)
            {
                printf("%s\n%s\n%s\n", r.log.c_str(), r.failed ? "REPRODUCED" : "NOT-REPRODUCED", r.msg.c_str());
                return r.failed ? 1 : 0;
            }
        }
    }

    auto t0 = Clock::now();
    std::vector<Slot*> slots(workers);
    std::vector<pid_t> pids(workers);
    std::vector<bool> alive(workers, true), memk(workers, false);
    for (int w = 0; w < workers; ++w)
    {
        slots[w] = newSlot();
        fflush(nullptr);
        pids[w] = fork();
        if (pids[w] == 0)
        {
            setupChild(g_TmpDir + "/w" + std::to_string(w) + ".err");
            workerLoop(slots[w], w, total, workers, budget, t0);
            _exit(0);
        }
    }
    int left = workers;
    std::vector<std::pair<int, std::string>> bad;
    long inconclusive = 0;
    bool violation = false;
    Result fin;
    long seqStart = -1, seqEnd = -1;
    long tried = 0;
    std::string firstMsg;

    auto pump = [&]
    {
        while (left > 0 && bad.empty())
        {
            bool any = false;
            for (int w = 0; w < workers; ++w)
            {
                if (!alive[w]) continue;
                int st = 0;
                if (waitpid(pids[w], &st, WNOHANG) == pids[w])
                {
                    any = true;
                    alive[w] = false;
                    --left;
                    std::string o = outcome(st, memk[w], g_TmpDir + "/w" + std::to_string(w) + ".err");
                    if (!o.empty()) bad.push_back({w, o == "FAIL" ? std::string(slots[w]->msg) : o});
                }
                else if (rssMb(pids[w]) > 2500)
                {
                    memk[w] = true;
                    kill(pids[w], SIGKILL);
                }
            }
            if (!any) usleep(20000);
        }
    };

    for (int round = 0; round < 8; ++round)
    {
        pump();
        if (bad.empty()) break;
        auto [w, msg] = bad.front();
        bad.clear();
        firstMsg = msg;
        std::vector<uint64_t> ch(slots[w]->choices, slots[w]->choices + slots[w]->nchoices);
        long idx = slots[w]->curIndex;
        // confirm three times
        int ok = 0, tries = THE_PROPERTY.repeatFlaky ? 40 : 3;
        Result r;
        for (int k = 0; k < tries && ok < 3; ++k)
        {
            Result q = replayOnce(ch, false);
            if (q.failed) { ++ok; r = q; }
        }
        if (ok == 3 || (THE_PROPERTY.repeatFlaky && ok > 0))
        {
            violation = true;
            r.choices = ch;
            for (int v = 0; v < workers; ++v)
                if (alive[v]) { kill(pids[v], SIGKILL); waitpid(pids[v], nullptr, 0); alive[v] = false; }
            left = 0;
            fin = shrink(r, THE_PROPERTY.repeatFlaky ? 10 : 45, tried);
            Result withLog;
            for (int k = 0; k < (THE_PROPERTY.repeatFlaky ? 30 : 1); ++k)
            {
                withLog = replayOnce(fin.choices, true);
                if (withLog.failed) break;
            }
            if (withLog.failed) fin.msg = withLog.msg;
            fin.log = withLog.log;
            break;
        }
        // only in sequence?  re-run this worker's prefix in a fresh process
        int seqOk = 0;
        for (int k = 0; k < 3; ++k)
        {
            Result q = runRange(w, idx + 1, workers);
            if (q.failed) { ++seqOk; fin = q; }
            else break;
        }
        if (seqOk == 3)
        {
            violation = true;
            for (int v = 0; v < workers; ++v)
                if (alive[v]) { kill(pids[v], SIGKILL); waitpid(pids[v], nullptr, 0); alive[v] = false; }
            left = 0;
            // shorten the prefix
            long lo = w, hi = idx;
            while (lo < hi)
            {
                long mid = lo + ((hi - lo) / workers + 1) / 2 * workers;
                if (mid <= lo) break;
                ++tried;
                if (runRange(mid, idx + 1, workers).failed) lo = mid;
                else hi = mid - workers;
            }
            seqStart = lo;
            seqEnd = idx + 1;
            fin.msg = "only after preceding calls in the same process (hidden state between calls): " + firstMsg;
            fin.log = "history: cases " + std::to_string(lo) + ".." + std::to_string(idx) + " step " + std::to_string(workers);
            break;
        }
        ++inconclusive;
        fprintf(stderr, "INCONCLUSIVE: case %ld failed once (%s) and did not reproduce\n", idx, firstMsg.c_str());
        // continue this worker after the irreproducible case
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0)
        {
            setupChild(g_TmpDir + "/w" + std::to_string(w) + ".err");
            workerLoop(slots[w], idx + workers, total, workers, budget, t0);
            _exit(0);
        }
        pids[w] = pid;
        alive[w] = true;
        ++left;
    }
    for (int v = 0; v < workers; ++v)
        if (alive[v] && left > 0 && violation) { kill(pids[v], SIGKILL); waitpid(pids[v], nullptr, 0); }

    uint64_t cases = 0, nt = 0, disc = 0, checks = 0;
    double worst = 0;
    std::map<std::string, uint64_t> labels;
    std::vector<uint64_t> hashes;
    std::vector<std::string> samples;
    for (auto* s : slots)
    {
        cases += s->cases;
        nt += s->nontrivial;
        disc += s->discarded;
        checks += s->checks;
        worst = std::max(worst, s->worst);
        for (auto& l : s->labels)
            if (l.n) labels[l.name] += l.n;
        hashes.insert(hashes.end(), s->hashes, s->hashes + s->nhash);
        if (s->nsamples > 0 && samples.size() < 5) samples.push_back(s->samples[0]);
    }
    std::sort(hashes.begin(), hashes.end());
    size_t distinct = std::unique(hashes.begin(), hashes.end()) - hashes.begin();
    double wall = std::chrono::duration<double>(Clock::now() - t0).count();

    std::ostringstream js;
    js.precision(10);
    js << "{\"property\":" << jstr(THE_PROPERTY.id) << ",\"planned\":" << total << ",\"cases\":" << cases
       << ",\"nontrivial\":" << nt << ",\"distinct_nontrivial\":" << distinct << ",\"discarded\":" << disc
       << ",\"checks\":" << checks << ",\"inconclusive\":" << inconclusive << ",\"worst_error_ratio\":"
       << (std::isfinite(worst) ? worst : -1) << ",\"rule\":" << jstr(THE_PROPERTY.rule) << ",\"wall_s\":" << wall
       << ",\"labels\":{";
    bool first = true;
    for (auto& [k, v] : labels)
    {
        js << (first ? "" : ",") << jstr(k) << ":" << v;
        first = false;
    }
    js << "},\"samples\":[";
    first = true;
    for (auto& s : samples)
    {
        js << (first ? "" : ",") << jstr(s);
        first = false;
    }
    js << "],\"violation\":" << (violation ? "true" : "false") << "}";
    if (opt.count("--out")) { std::ofstream o(opt["--out"]); o << js.str() << "\n"; }

    if (violation)
    {
        std::ostringstream rp;
        rp << "{\"property\":" << jstr(THE_PROPERTY.id) << ",\n \"seed\":" << g_Seed << ",\n \"thorough\":" << (g_Thorough ? 1 : 0);
        if (seqStart >= 0)
            rp << ",\n \"sequence_start\":" << seqStart << ",\n \"sequence_end\":" << seqEnd << ",\n \"sequence_step\":" << workers;
        rp << ",\n \"shrink_runs\":" << tried << ",\n \"message\":" << jstr(fin.msg) << ",\n \"first_message\":" << jstr(firstMsg)
           << ",\n \"input\":" << jstr(fin.log) << ",\n \"choices\":[";
        for (size_t i = 0; i < fin.choices.size(); ++i) rp << (i ? "," : "") << fin.choices[i];
        rp << "]}\n";
        if (opt.count("--replay-out")) { std::ofstream o(opt["--replay-out"]); o << rp.str(); }
        fprintf(stdout, "failure: %s\n%s\n", fin.msg.c_str(), fin.log.c_str());
        return 1;
    }
    return 0;
}
#endif
