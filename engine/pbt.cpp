#include "pbt.hpp"

#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <ctime>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <set>
#include <algorithm>
#include <unordered_set>
#include <typeinfo>
#include <cxxabi.h>

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#endif

extern "C" char const* __asan_default_options()
{
    return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:max_allocation_size_mb=2048:"
           "handle_abort=1:detect_stack_use_after_return=0:symbolize=1:print_summary=1:malloc_context_size=6";
}
extern "C" char const* __tsan_default_options()
{
    return "halt_on_error=1:exitcode=77:report_signal_unsafe=0:second_deadlock_stack=1";
}
extern "C" char const* __ubsan_default_options()
{
    return "print_stacktrace=1:halt_on_error=1:exitcode=77";
}

namespace pbt
{

std::string fmt(char const* f, ...)
{
    char buf[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof(buf), f, ap);
    va_end(ap);
    return buf;
}

std::string hex(std::uint8_t const* p, std::size_t n, std::size_t max)
{
    static char const* d = "0123456789abcdef";
    std::string s;
    for (std::size_t i = 0; i < n && i < max; ++i)
    {
        s += d[p[i] >> 4];
        s += d[p[i] & 15];
    }
    if (n > max) s += fmt("..(%zu bytes)", n);
    return s;
}

static std::uint64_t splitmix(std::uint64_t& s)
{
    std::uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

std::uint64_t Src::below(std::uint64_t bound)
{
    if (n >= limit) throw Discard{};
    std::uint64_t v;
    if (random)
    {
        v = splitmix(state);
        if (bound) v = static_cast<std::uint64_t>((static_cast<unsigned __int128>(v) * bound) >> 64);
    }
    else
    {
        v = n < replay.size() ? replay[n] : 0;
        if (bound && v >= bound) v = bound - 1;
    }
    if (record)
    {
        record[1 + n] = v;
        record[0] = n + 1;
    }
    n += 1;
    h = (h ^ v) * 1099511628211ull;
    h ^= h >> 29;
    return v;
}

std::uint64_t Src::integer(unsigned bits)
{
    std::uint64_t const mask = bits == 64 ? ~0ull : ((1ull << bits) - 1);
    switch (below(6))
    {
    case 0: return below(4);
    case 1: return below(257) & mask;
    case 2: { std::uint64_t b = below(bits); return ((1ull << b) + below(3) - 1) & mask; }
    case 3: return mask - below(3);
    default: return below(bits == 64 ? 0 : mask + 1);
    }
}

std::string Src::bytes(std::size_t maxLen, unsigned mean)
{
    std::string s;
    while (s.size() < maxLen && more(mean))
    {
        s += static_cast<char>(below(256));
    }
    return s;
}

std::string Src::bytesExact(std::size_t len)
{
    std::string s;
    std::uint64_t const mode = len > 16 ? below(3) : 0;
    std::uint64_t const seed = mode ? below(0) : 0;
    std::uint64_t st = seed;
    for (std::size_t i = 0; i < len; ++i)
    {
        if (mode == 0) s += static_cast<char>(below(256));
        else if (mode == 1) s += static_cast<char>(seed + i * 7);
        else s += static_cast<char>(splitmix(st));
    }
    return s;
}

std::vector<Sub>& registry()
{
    static std::vector<Sub> r;
    return r;
}

namespace
{

double now()
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

std::uint64_t strHash(char const* s)
{
    std::uint64_t h = 1469598103934665603ull;
    for (; *s; ++s) h = (h ^ static_cast<unsigned char>(*s)) * 1099511628211ull;
    return h;
}

enum class Verdict : int { running = 0, pass, discard, fail, crash, hang };

struct Shared                         // one per worker, in shared memory
{
    std::uint64_t caseIndex;
    std::uint64_t heartbeat;          // number of cases finished
    int verdict;
    char msg[4096];
    std::uint64_t record[1 + Src::maxChoices];
};

template <typename T>
T* shmAlloc(std::size_t count = 1)
{
    void* p = mmap(nullptr, sizeof(T) * count, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
    return static_cast<T*>(p);
}

std::uint64_t caseSeed(std::uint64_t seed, Sub const& sub, std::uint64_t idx)
{
    std::uint64_t s = seed * 0x9e3779b97f4a7c15ull ^ strHash(sub.name) ^ (strHash(sub.property) << 1) ^ (idx * 0xd1342543de82ef95ull);
    splitmix(s);
    return splitmix(s);
}

std::string describeCurrentException()
{
    try { throw; }
    catch (std::exception const& e) { return fmt("escaped exception %s: %s", typeid(e).name(), e.what()); }
    catch (...)
    {
        auto* t = abi::__cxa_current_exception_type();
        return fmt("escaped exception of type %s", t ? t->name() : "?");
    }
}

Verdict runOne(Sub const& sub, Src& src, Ctx& ctx, std::string& msg)
{
    try
    {
        sub.fn(src, ctx);
        return Verdict::pass;
    }
    catch (Discard const&) { return Verdict::discard; }
    catch (Fail const& f) { msg = f.msg; return Verdict::fail; }
    catch (...) { msg = describeCurrentException(); return Verdict::fail; }
}

struct Totals
{
    std::uint64_t evaluations{0};
    std::uint64_t discarded{0};
    std::uint64_t nontrivial{0};
    std::unordered_set<std::uint64_t> distinct;
    std::map<std::string, std::uint64_t> labels;
    std::vector<std::string> samples;
};

int logFd{-1};

void quietOutput()
{
    // The code under test logs to stdout; nobody reads that.
    int fd = open("/dev/null", O_WRONLY);
    if (fd >= 0) { dup2(fd, 1); close(fd); }
    if (logFd >= 0) dup2(logFd, 2);
}

void childSetup(bool quietErr)
{
    quietOutput();
    if (quietErr)
    {
        int fd = open("/dev/null", O_WRONLY);
        if (fd >= 0) { dup2(fd, 2); close(fd); }
    }
    setpgid(0, 0);
}

struct Outcome
{
    Verdict verdict{Verdict::pass};
    std::string msg;
    std::string stderrText;
    std::string text;
    std::vector<std::uint64_t> choices;
    double secs{0};
};

bool failed(Verdict v) { return v == Verdict::fail || v == Verdict::crash || v == Verdict::hang; }

std::string waitText(int st)
{
    if (WIFSIGNALED(st)) return fmt("killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
    if (WIFEXITED(st))
        return WEXITSTATUS(st) == 77 ? "sanitizer error (exit 77)" : fmt("process exited with status %d in the middle of a case", WEXITSTATUS(st));
    return "abnormal end";
}

std::string summarise(std::string const& err)
{
    // keep the sanitizer/terminate headline and the first frames
    std::string out;
    std::size_t pos = 0;
    int lines = 0;
    bool on = false;
    while (pos < err.size() && lines < 14)
    {
        std::size_t e = err.find('\n', pos);
        if (e == std::string::npos) e = err.size();
        std::string line = err.substr(pos, e - pos);
        if (line.find("ERROR: AddressSanitizer") != std::string::npos || line.find("runtime error") != std::string::npos
            || line.find("terminate called") != std::string::npos || line.find("WARNING: ThreadSanitizer") != std::string::npos)
            on = true;
        if (on && !line.empty()) { out += line.substr(0, 300) + "\n"; ++lines; }
        pos = e + 1;
    }
    return out;
}

// Runs one replay in its own process.
Outcome runIsolated(Sub const& sub, std::vector<std::uint64_t> const& choices, bool wantErr, Shared* sh)
{
    Outcome o;
    sh->verdict = static_cast<int>(Verdict::running);
    sh->msg[0] = 0;
    sh->record[0] = 0;
    char* textShm = shmAlloc<char>(8192);
    int errFile = -1;
    if (wantErr) errFile = memfd_create("err", 0);
    double const t0 = now();
    pid_t pid = fork();
    if (pid == 0)
    {
        childSetup(!wantErr);
        if (errFile >= 0) dup2(errFile, 2);
        Src src;
        src.random = false;
        src.replay = choices;
        src.record = sh->record;
        Ctx ctx;
        ctx.wantText = true;
        std::string msg;
        Verdict v = runOne(sub, src, ctx, msg);
        snprintf(sh->msg, sizeof(sh->msg), "%s", msg.c_str());
        snprintf(textShm, 8192, "%s", ctx.text.c_str());
        sh->verdict = static_cast<int>(v);
        _exit(0);
    }
    int st = 0;
    bool hung = false;
    for (;;)
    {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (now() - t0 > sub.hangSecs)
        {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            hung = true;
            break;
        }
        double const el = now() - t0;
        usleep(el < 0.01 ? 100 : 1000);
    }
    kill(-pid, SIGKILL);
    o.secs = now() - t0;
    o.verdict = static_cast<Verdict>(sh->verdict);
    o.msg = sh->msg;
    o.text = textShm;
    munmap(textShm, 8192);
    if (o.verdict == Verdict::running || o.verdict == Verdict::crash)
    {
        o.verdict = hung ? Verdict::hang : Verdict::crash;
        o.msg = hung ? fmt("no result after %u s", sub.hangSecs) : waitText(st);
    }
    o.choices.assign(sh->record + 1, sh->record + 1 + sh->record[0]);
    if (errFile >= 0)
    {
        lseek(errFile, 0, SEEK_SET);
        char buf[8192];
        ssize_t r;
        while ((r = read(errFile, buf, sizeof(buf))) > 0 && o.stderrText.size() < 60000) o.stderrText.append(buf, r);
        close(errFile);
    }
    return o;
}

struct Failure
{
    Verdict verdict;
    std::string msg;
    std::vector<std::uint64_t> choices;
    std::uint64_t index{0};           // case index in its worker, and the worker's stride
    std::uint64_t stride{1};
    std::uint64_t first{0};
};

// Runs the cases last-(count-1)*stride .. last of a worker one after the other in one process:
// reproduces failures that need state left behind in the code under test by earlier cases.
Outcome runBatch(Sub const& sub, std::uint64_t seed, std::uint64_t last, std::uint64_t stride, std::uint64_t count, Shared* sh)
{
    Outcome o;
    sh->verdict = static_cast<int>(Verdict::running);
    sh->msg[0] = 0;
    char* textShm = shmAlloc<char>(8192);
    int errFile = memfd_create("err", 0);
    pid_t pid = fork();
    if (pid == 0)
    {
        childSetup(false);
        dup2(errFile, 2);
        for (std::uint64_t k = count; k-- > 0;)
        {
            Src src;
            src.state = caseSeed(seed, sub, last - k * stride);
            sh->record[0] = 0;
            src.record = sh->record;
            sh->verdict = static_cast<int>(Verdict::running);
            Ctx ctx;
            ctx.wantText = k == 0;
            std::string msg;
            Verdict v = runOne(sub, src, ctx, msg);
            sh->heartbeat += 1;
            if (failed(v) || k == 0)
            {
                snprintf(sh->msg, sizeof(sh->msg), "%s", msg.c_str());
                snprintf(textShm, 8192, "%s", ctx.text.c_str());
                sh->verdict = static_cast<int>(v);
                _exit(0);
            }
        }
        _exit(0);
    }
    int st = 0;
    bool hung = false;
    std::uint64_t beat = sh->heartbeat;
    double t0 = now();
    for (;;)
    {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (sh->heartbeat != beat) { beat = sh->heartbeat; t0 = now(); }
        if (now() - t0 > sub.hangSecs) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; }
        usleep(500);
    }
    kill(-pid, SIGKILL);
    o.verdict = static_cast<Verdict>(sh->verdict);
    o.msg = sh->msg;
    o.text = textShm;
    munmap(textShm, 8192);
    if (o.verdict == Verdict::running)
    {
        o.verdict = hung ? Verdict::hang : Verdict::crash;
        o.msg = hung ? fmt("no result after %u s", sub.hangSecs) : waitText(st);
    }
    lseek(errFile, 0, SEEK_SET);
    char buf[8192];
    ssize_t r;
    while ((r = read(errFile, buf, sizeof(buf))) > 0 && o.stderrText.size() < 60000) o.stderrText.append(buf, r);
    close(errFile);
    return o;
}

std::vector<std::uint64_t> shrink(Sub const& sub, std::vector<std::uint64_t> best, Verdict kind, double budget)
{
    auto* sh = shmAlloc<Shared>();
    double const deadline = now() + budget;
    unsigned tries = 0;
    auto attempt = [&](std::vector<std::uint64_t> const& cand) -> bool
    {
        if (now() > deadline || cand == best) return false;
        ++tries;
        Outcome o = runIsolated(sub, cand, false, sh);
        if (!failed(o.verdict)) return false;
        if ((o.verdict == Verdict::hang) != (kind == Verdict::hang)) return false;
        // normalise: only the choices actually drawn
        std::vector<std::uint64_t> c = o.choices;
        while (!c.empty() && c.back() == 0) c.pop_back();
        if (c.size() < best.size() || (c.size() == best.size() && c < best)) { best = c; return true; }
        return false;
    };
    if (kind == Verdict::hang) return best;
    bool improved = true;
    while (improved && now() < deadline)
    {
        improved = false;
        for (std::size_t block : {256, 64, 16, 8, 4, 2, 1})
        {
            for (std::size_t i = best.size(); i-- > 0 && now() < deadline;)
            {
                if (i + block > best.size()) continue;
                auto c = best;
                c.erase(c.begin() + i, c.begin() + i + block);
                if (attempt(c)) { improved = true; if (i > best.size()) i = best.size(); }
            }
        }
        for (std::size_t block : {16, 4})
        {
            for (std::size_t i = 0; i + block <= best.size() && now() < deadline; i += block)
            {
                auto c = best;
                std::fill(c.begin() + i, c.begin() + i + block, 0);
                if (attempt(c)) improved = true;
            }
        }
        for (std::size_t i = 0; i < best.size() && now() < deadline; ++i)
        {
            if (best[i] == 0) continue;
            auto c = best;
            c[i] = 0;
            if (attempt(c)) { improved = true; continue; }
            std::uint64_t lo = 0;
            while (i < best.size() && best[i] - lo > 1 && now() < deadline)
            {
                std::uint64_t mid = lo + (best[i] - lo) / 2;
                auto c2 = best;
                c2[i] = mid;
                if (attempt(c2)) improved = true; else lo = mid;
            }
        }
    }
    fprintf(stderr, "  shrink: %u candidates tried, %zu choices left\n", tries, best.size());
    munmap(sh, sizeof(Shared));
    return best;
}

std::string jsonEsc(std::string const& s)
{
    std::string o;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c > 0x7e) o += fmt("\\u%04x", c);
        else o += c;
    }
    return o;
}

struct Options
{
    std::string property;
    std::string sub;
    std::string tier{"quick"};
    std::string evidence;
    std::string variant; // another build of the same harness; runs the sub-checks with threads only
    std::string replayDir{"."};
    std::string replay;
    std::string level{"exploration"};
    std::uint64_t seed{1};
    double scale{1.0};
    unsigned workers{8};
    double timeCap{600};
};

// returns true when a failing case was found
bool search(Sub const& sub, Options const& opt, std::uint64_t cases, double cap, Totals& tot, Failure& out)
{
    unsigned W = std::min<unsigned>(opt.workers, sub.maxWorkers);
    if (W > cases) W = cases ? cases : 1;
    auto* sh = shmAlloc<Shared>(W);
    struct Worker { pid_t pid; int pipe; std::string buf; bool done; std::uint64_t lastBeat; double beatAt; };
    std::vector<Worker> ws(W);
    double const start = now();
    double const deadline = start + cap;
    for (unsigned w = 0; w < W; ++w)
    {
        int p[2];
        if (pipe(p)) { perror("pipe"); _exit(3); }
        pid_t pid = fork();
        if (pid == 0)
        {
            for (unsigned k = 0; k < w; ++k) close(ws[k].pipe);
            close(p[0]);
            childSetup(true);
            Totals t;
            Shared& s = sh[w];
            for (std::uint64_t i = w; i < cases; i += W)
            {
                if (now() > deadline) break;
                s.caseIndex = i;
                s.record[0] = 0;
                s.verdict = static_cast<int>(Verdict::running);
                Src src;
                src.state = caseSeed(opt.seed, sub, i);
                src.record = s.record;
                Ctx ctx;
                ctx.wantText = t.samples.size() < 2 || (i / W) % 97 == 0;
                std::string msg;
                Verdict v = runOne(sub, src, ctx, msg);
                if (failed(v))
                {
                    snprintf(s.msg, sizeof(s.msg), "%s", msg.c_str());
                    s.verdict = static_cast<int>(v);
                    _exit(9);
                }
                s.verdict = static_cast<int>(v);
                s.heartbeat += 1;
                if (v == Verdict::discard) { t.discarded += 1; continue; }
                t.evaluations += 1;
                for (auto const& [k, n] : ctx.labels) t.labels[k] += n;
                if (ctx.isNontrivial)
                {
                    t.nontrivial += 1;
                    if (t.distinct.size() < 2000000) t.distinct.insert(src.hash());
                    if (ctx.wantText && !ctx.text.empty() && t.samples.size() < 3) t.samples.push_back(ctx.text.substr(0, 700));
                }
            }
            std::string o = fmt("T %llu %llu %llu\n", (unsigned long long)t.evaluations, (unsigned long long)t.discarded, (unsigned long long)t.nontrivial);
            for (auto const& [k, n] : t.labels) o += fmt("L %llu ", (unsigned long long)n) + k + "\n";
            for (auto const& smp : t.samples) { std::string e = smp; std::replace(e.begin(), e.end(), '\n', '\x1f'); o += "S " + e + "\n"; }
            for (auto hsh : t.distinct) o += fmt("D %llx\n", (unsigned long long)hsh);
            o += "E\n";
            for (std::size_t off = 0; off < o.size();)
            {
                ssize_t r = write(p[1], o.data() + off, o.size() - off);
                if (r <= 0) break;
                off += r;
            }
            _exit(0);
        }
        close(p[1]);
        ws[w] = Worker{pid, p[0], {}, false, 0, now()};
    }
    bool found = false;
    unsigned left = W;
    std::uint64_t bestIdx = ~0ull;
    while (left && !found)
    {
        std::vector<pollfd> fds;
        std::vector<unsigned> idx;
        for (unsigned w = 0; w < W; ++w) if (!ws[w].done) { fds.push_back({ws[w].pipe, POLLIN, 0}); idx.push_back(w); }
        poll(fds.data(), fds.size(), 200);
        for (std::size_t k = 0; k < fds.size(); ++k)
        {
            unsigned const w = idx[k];
            auto& wk = ws[w];
            if (fds[k].revents)
            {
                char buf[65536];
                ssize_t r = read(wk.pipe, buf, sizeof(buf));
                if (r > 0) { wk.buf.append(buf, r); continue; }
                wk.done = true;
                left -= 1;
                int st = 0;
                waitpid(wk.pid, &st, 0);
                kill(-wk.pid, SIGKILL);
                bool const complete = wk.buf.size() >= 2 && wk.buf.compare(wk.buf.size() - 2, 2, "E\n") == 0;
                if (!complete)
                {
                    Verdict v = static_cast<Verdict>(sh[w].verdict);
                    std::string msg = sh[w].msg;
                    if (v == Verdict::running) { v = Verdict::crash; msg = waitText(st); }
                    if (!found || sh[w].caseIndex < bestIdx)
                    {
                        bestIdx = sh[w].caseIndex;
                        out.verdict = v;
                        out.msg = msg;
                        out.choices.assign(sh[w].record + 1, sh[w].record + 1 + sh[w].record[0]);
                        out.index = sh[w].caseIndex;
                        out.stride = W;
                    }
                    found = true;
                }
                continue;
            }
            if (sh[w].heartbeat != wk.lastBeat) { wk.lastBeat = sh[w].heartbeat; wk.beatAt = now(); }
            else if (now() - wk.beatAt > sub.hangSecs + 5)
            {
                out.verdict = Verdict::hang;
                out.msg = fmt("no result after %u s", sub.hangSecs);
                out.choices.assign(sh[w].record + 1, sh[w].record + 1 + sh[w].record[0]);
                out.index = sh[w].caseIndex;
                out.stride = W;
                found = true;
            }
        }
    }
    for (auto& wk : ws)
    {
        if (!wk.done) { kill(wk.pid, SIGKILL); kill(-wk.pid, SIGKILL); waitpid(wk.pid, nullptr, 0); }
        close(wk.pipe);
        std::size_t pos = 0;
        while (pos < wk.buf.size())
        {
            std::size_t e = wk.buf.find('\n', pos);
            if (e == std::string::npos) break;
            char const* l = wk.buf.c_str() + pos;
            unsigned long long a, b, c;
            if (l[0] == 'T' && sscanf(l, "T %llu %llu %llu", &a, &b, &c) == 3) { tot.evaluations += a; tot.discarded += b; tot.nontrivial += c; }
            else if (l[0] == 'L') { char* q; a = strtoull(l + 2, &q, 10); tot.labels[std::string(q + 1, wk.buf.c_str() + e - q - 1)] += a; }
            else if (l[0] == 'S') { std::string s = wk.buf.substr(pos + 2, e - pos - 2); std::replace(s.begin(), s.end(), '\x1f', '\n'); tot.samples.push_back(s); }
            else if (l[0] == 'D' && sscanf(l, "D %llx", &a) == 1) tot.distinct.insert(a);
            pos = e + 1;
        }
    }
    if (found) for (unsigned w = 0; w < W; ++w) tot.evaluations += sh[w].heartbeat;
    munmap(sh, sizeof(Shared) * W);
    return found;
}

Sub const* findSub(std::string const& prop, std::string const& name)
{
    for (auto const& s : registry()) if (prop == s.property && name == s.name) return &s;
    return nullptr;
}

int doReplay(Options const& opt)
{
    FILE* f = fopen(opt.replay.c_str(), "r");
    if (!f) { perror(opt.replay.c_str()); return 2; }
    char line[1 << 16];
    std::string prop, name;
    std::vector<std::uint64_t> choices;
    bool inChoices = false, batch = false;
    unsigned long long bs = 0, bl = 0, bst = 0, bc = 0;
    while (fgets(line, sizeof(line), f))
    {
        char a[256];
        if (line[0] == '#') continue;
        if (sscanf(line, "property %255s", a) == 1) prop = a;
        else if (sscanf(line, "sub %255s", a) == 1) name = a;
        else if (sscanf(line, "batch %llu %llu %llu %llu", &bs, &bl, &bst, &bc) == 4) { batch = true; }
        else if (strncmp(line, "choices", 7) == 0) { inChoices = true; }
        else if (inChoices)
        {
            char* p = line;
            for (;;) { char* q; unsigned long long v = strtoull(p, &q, 10); if (q == p) break; choices.push_back(v); p = q; }
        }
    }
    fclose(f);
    Sub const* s = findSub(prop, name);
    if (!s) { fprintf(stderr, "unknown sub-check %s/%s\n", prop.c_str(), name.c_str()); return 2; }
    auto* sh = shmAlloc<Shared>();
    Outcome o = batch ? runBatch(*s, bs, bl, bst, bc, sh) : runIsolated(*s, choices, true, sh);
    double const until = now() + 60;
    for (int k = 0; k < 5000 && s->racy && !failed(o.verdict) && now() < until; ++k) o = runIsolated(*s, choices, true, sh);
    printf("%s", o.text.c_str());
    if (!o.stderrText.empty()) printf("%s\n", summarise(o.stderrText).c_str());
    printf("replay %s/%s: %s %s\n", prop.c_str(), name.c_str(), failed(o.verdict) ? "FAILS" : "passes", o.msg.c_str());
    if (failed(o.verdict)) printf("VIOLATION property=%s replay=%s\n", prop.c_str(), opt.replay.c_str());
    return failed(o.verdict) ? 1 : 0;
}

} // namespace

int main(int argc, char** argv)
{
    Options opt;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--prop") opt.property = next();
        else if (a == "--sub") opt.sub = next();
        else if (a == "--tier") opt.tier = next();
        else if (a == "--seed") opt.seed = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--evidence") opt.evidence = next();
        else if (a == "--replay-dir") opt.replayDir = next();
        else if (a == "--replay") opt.replay = next();
        else if (a == "--scale") opt.scale = atof(next().c_str());
        else if (a == "--workers") opt.workers = atoi(next().c_str());
        else if (a == "--time-cap") opt.timeCap = atof(next().c_str());
        else if (a == "--level") opt.level = next();
        else if (a == "--variant") opt.variant = next();
        else if (a == "--list") { for (auto const& s : registry()) printf("%s %s %u %u\n", s.property, s.name, s.quickCases, s.thoroughCases); return 0; }
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    signal(SIGPIPE, SIG_DFL);
    if (!opt.replay.empty()) return doReplay(opt);

    double const t0 = now();
    Totals all;
    std::vector<std::string> rules, samples;
    std::string perSub;
    bool violated = false;
    unsigned nviol = 0;
    std::string violationsJson;
    unsigned nsubs = 0;
    unsigned long long totalWeight = 0;
    for (auto const& s : registry()) if (opt.property == s.property) totalWeight += 1;
    std::uint64_t distinct = 0;
    for (auto const& s : registry())
    {
        if (opt.property != s.property) continue;
        if (!opt.sub.empty() && opt.sub != s.name) continue;
        if (!opt.variant.empty() && !s.racy) continue;
        if (violated && now() - t0 > 200) break;      // decided; the rest would only take time
        std::string const name = s.name + (opt.variant.empty() ? "" : "-" + opt.variant);
        nsubs += 1;
        std::uint64_t cases = static_cast<std::uint64_t>((opt.tier == "thorough" ? s.thoroughCases : s.quickCases) * opt.scale);
        if (cases < 1) cases = 1;
        double const cap = opt.timeCap / totalWeight;
        double const ts = now();
        Totals t;
        Failure f;
        bool bad = search(s, opt, cases, cap, t, f);
        if (bad)
        {
            // Confirm in isolation before believing it.
            auto* sh = shmAlloc<Shared>();
            auto shr = f.choices;
            unsigned fails = 0;
            Outcome o;
            bool steady = true;
            for (int k = 0; k < 3; ++k)
            {
                Outcome c = runIsolated(s, f.choices, true, sh);
                if (failed(c.verdict)) { ++fails; o = c; }
                if (c.verdict == Verdict::hang && fails >= 2) break;
            }
            if (s.racy && fails < 2)
            {
                steady = false;
                double const until = now() + 30;
                for (int k = 0; k < 2000 && !fails && now() < until; ++k)
                {
                    Outcome c = runIsolated(s, f.choices, true, sh);
                    if (failed(c.verdict)) { ++fails; o = c; }
                }
                if (fails) fails = 2;
            }
            std::uint64_t batch = 0;
            std::uint64_t batchSeed = opt.seed;
            auto tryBatch = [&](Failure const& ff, std::uint64_t seed) -> std::uint64_t
            {
                std::uint64_t const all = ff.index / ff.stride + 1;
                auto ok = [&](std::uint64_t n) { Outcome c = runBatch(s, seed, ff.index, ff.stride, n, sh); if (failed(c.verdict)) o = c; return failed(c.verdict); };
                if (!ok(all) || !ok(all)) return 0;
                double const until = now() + 20;
                for (std::uint64_t n = 2; n < all && now() < until; n *= 2) if (ok(n) && ok(n)) return n;
                ok(all);
                return all;
            };
            if (fails < 2 && (batch = tryBatch(f, opt.seed)) != 0) fails = 3;
            if (fails < 2)
            {
                fprintf(stderr, "%s/%s: a failing case (%s) did not reproduce (%u of 3); ignored\n", s.property, name.c_str(), f.msg.c_str(), fails);
                t.labels["unreproducible"] += 1;
                // Look again with other cases: the rest of the budget, from another seed.
                Options o2 = opt;
                o2.seed = opt.seed + 1000003;
                Failure f2;
                bad = search(s, o2, cases, cap, t, f2);
                if (bad)
                {
                    fails = 0;
                    for (int k = 0; k < 3; ++k)
                    {
                        Outcome c = runIsolated(s, f2.choices, true, sh);
                        if (failed(c.verdict)) { ++fails; o = c; }
                    }
                    if (fails < 2 && (batch = tryBatch(f2, o2.seed)) != 0) { fails = 3; batchSeed = o2.seed; }
                    bad = fails >= 2;
                    f = f2;
                    shr = f2.choices;
                }
            }
            if (bad)
            {
                fprintf(stderr, "%s/%s: FAILED: %s\n", s.property, name.c_str(), f.msg.c_str());
                Outcome fin = o;
                if (!batch && steady && o.verdict != Verdict::hang)
                {
                    shr = shrink(s, o.choices.empty() ? f.choices : o.choices, o.verdict, opt.tier == "thorough" ? 60 : 20);
                    fin = runIsolated(s, shr, true, sh);
                    if (!failed(fin.verdict)) { shr = f.choices; fin = runIsolated(s, shr, true, sh); }
                }
                mkdir(opt.replayDir.c_str(), 0777);
                std::string path = opt.replayDir + "/" + s.property + "-" + name + ".replay";
                if (FILE* rf = fopen(path.c_str(), "w"))
                {
                    fprintf(rf, "# minimal failing case; replay with: /verif/check.sh --replay %s\n", path.c_str());
                    fprintf(rf, "property %s\nsub %s\nseed %llu\n", s.property, s.name, (unsigned long long)opt.seed);
                    if (!opt.variant.empty()) fprintf(rf, "variant %s\n", opt.variant.c_str());
                    std::string d = "failure: " + fin.msg + "\n" + fin.text + summarise(fin.stderrText);
                    std::size_t pos = 0;
                    while (pos < d.size())
                    {
                        std::size_t e = d.find('\n', pos);
                        if (e == std::string::npos) e = d.size();
                        fprintf(rf, "# %s\n", d.substr(pos, e - pos).c_str());
                        pos = e + 1;
                    }
                    if (batch) fprintf(rf, "# needs the cases before it in the same process: batch <seed> <last case> <stride> <cases>\nbatch %llu %llu %llu %llu\n",
                        (unsigned long long)batchSeed, (unsigned long long)f.index, (unsigned long long)f.stride, (unsigned long long)batch);
                    fprintf(rf, "choices\n");
                    for (std::size_t k = 0; k < shr.size(); ++k) fprintf(rf, "%llu%c", (unsigned long long)shr[k], k % 24 == 23 ? '\n' : ' ');
                    fprintf(rf, "\n");
                    fclose(rf);
                }
                printf("--- %s/%s\n%s", s.property, name.c_str(), fin.text.c_str());
                printf("failure: %s\n%s", fin.msg.c_str(), summarise(fin.stderrText).c_str());
                printf("VIOLATION property=%s replay=%s\n", s.property, path.c_str());
                violated = true;
                nviol += 1;
                violationsJson += (violationsJson.empty() ? "" : ", ") + ("{\"replay\": \"" + jsonEsc(path) + "\", \"what\": \"" + jsonEsc(fin.msg) + "\"}");
            }
            munmap(sh, sizeof(Shared));
        }
        distinct += t.distinct.size();
        all.evaluations += t.evaluations;
        all.discarded += t.discarded;
        rules.push_back(name + ": " + s.rule);
        std::string labels;
        for (auto const& [k, n] : t.labels) labels += (labels.empty() ? "" : ", ") + ("\"" + jsonEsc(k) + "\": ") + std::to_string(n);
        perSub += (perSub.empty() ? "" : ", ") + fmt("{\"name\": \"%s\", \"evaluations\": %llu, \"discarded\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %zu, \"wall_s\": %.1f, \"labels\": {",
            name.c_str(), (unsigned long long)t.evaluations, (unsigned long long)t.discarded, (unsigned long long)t.nontrivial, t.distinct.size(), now() - ts) + labels + "}}";
        for (std::size_t k = 0; k < t.samples.size() && k < 3; ++k) samples.push_back("[" + name + "] " + t.samples[k]);
        printf("%s/%s: %llu cases (%llu discarded), %llu non-trivial, %zu distinct, %.1fs%s\n", s.property, name.c_str(), (unsigned long long)t.evaluations,
            (unsigned long long)t.discarded, (unsigned long long)t.nontrivial, t.distinct.size(), now() - ts, bad ? "  FAILED" : "");
        for (auto const& [k, n] : t.labels) printf("    %-40s %llu\n", k.c_str(), (unsigned long long)n);
    }
    if (nsubs == 0) { fprintf(stderr, "no sub-check for property %s\n", opt.property.c_str()); return 2; }
    if (!opt.evidence.empty())
    {
        FILE* ef = fopen(opt.evidence.c_str(), "w");
        if (!ef) { perror(opt.evidence.c_str()); return 2; }
        std::string ruleText, smp;
        for (auto const& r : rules) ruleText += (ruleText.empty() ? "" : "; ") + r;
        for (auto const& s : samples) smp += (smp.empty() ? "" : ", ") + ("\"" + jsonEsc(s) + "\"");
        fprintf(ef, "{\"property\": \"%s\", \"tier\": \"%s\", \"seed\": %llu, \"level\": \"%s\", \"coverage\": {\"evaluations\": %llu, \"discarded\": %llu, \"distinct_nontrivial\": %llu, \"rule\": \"%s\", \"samples\": [%s], \"sub_checks\": [%s], \"violations_found\": [%s]}, \"wall_s\": %.2f, \"violations\": %u}\n",
            opt.property.c_str(), opt.tier.c_str(), (unsigned long long)opt.seed, opt.level.c_str(), (unsigned long long)all.evaluations, (unsigned long long)all.discarded,
            (unsigned long long)distinct, jsonEsc(ruleText).c_str(), smp.c_str(), perSub.c_str(), violationsJson.c_str(), now() - t0, nviol);
        fclose(ef);
    }
    return violated ? 1 : 0;
}

} // namespace pbt

int main(int argc, char** argv) { return pbt::main(argc, argv); }
