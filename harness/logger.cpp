// C26: the log.  Everything written to stdout by one case goes to a memory file and is compared with the calls made.
#include "pbt.hpp"
#include "Logger.hpp"

#include <atomic>
#include <cctype>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <thread>
#include <unistd.h>
#include <vector>

using namespace pbt;
using namespace app;

namespace
{

struct Capture
{
    int saved, mem;
    Capture()
    {
        fflush(stdout);
        saved = dup(1);
        mem = memfd_create("log", MFD_CLOEXEC);
        if (saved < 0 || mem < 0 || dup2(mem, 1) < 0) fail("harness: cannot redirect stdout");
    }
    std::string take()
    {
        fflush(stdout);
        std::string s;
        char buf[65536];
        off_t at = 0;
        ssize_t n;
        while ((n = pread(mem, buf, sizeof buf, at)) > 0) { s.append(buf, n); at += n; }
        return s;
    }
    ~Capture() { fflush(stdout); dup2(saved, 1); close(saved); close(mem); }
};

char const* const taskNames[] = {"GEN", "CTRL", "MODBUS", "UATL", "UASC", "UASRV", "UA"};
char const* const levelNames[] = {"DBG", "INF", "WRN", "ERR"};
constexpr unsigned nTasks = 7, nLevels = 4;

// One call of the macro for every task and level; its line number is returned.
#define CALL(T, L) case static_cast<int>(LogTask::T) * 8 + static_cast<int>(LogLevel::L): line = __LINE__; \
    switch (form) { case 0: LM(T, L, "%s", text.c_str()); break; case 1: LM(T, L, "<%s> %u", text.c_str(), number); break; default: LM(T, L, "plain"); break; } break;
#define CALLS(T) CALL(T, LD) CALL(T, LI) CALL(T, LW) CALL(T, LE)
int log(unsigned task, unsigned level, unsigned form, std::string const& text, unsigned number)
{
    int line = 0;
    switch (task * 8 + level)
    {
    CALLS(GEN)
    CALLS(CTRL)
    CALLS(MODBUS)
    CALLS(UATL)
    CALLS(UASC)
    CALLS(UASRV)
    CALLS(UA)
    }
    return line;
}
std::string expected(unsigned form, std::string const& text, unsigned number)
{
    if (form == 0) return text;
    if (form == 1) return "<" + text + "> " + std::to_string(number);
    return "plain";
}

struct Line { bool ok{false}; unsigned level, task; std::string file; int line{0}; std::string text, why; };

// DD-MM-YYYY HH:MM:SS.mmm LVL [TASK] file line: text
Line parse(std::string const& s)
{
    Line l;
    char const* shape = "dd-dd-dddd dd:dd:dd.ddd ";
    std::size_t const n = strlen(shape);
    if (s.size() < n) { l.why = "no time"; return l; }
    for (std::size_t k = 0; k < n; ++k)
        if (shape[k] == 'd' ? !isdigit((unsigned char)s[k]) : s[k] != shape[k]) { l.why = "bad time"; return l; }
    std::size_t p = n;
    l.level = nLevels;
    for (unsigned k = 0; k < nLevels; ++k) if (s.compare(p, 4, std::string(levelNames[k]) + " ") == 0) l.level = k;
    if (l.level == nLevels) { l.why = "bad level"; return l; }
    p += 4;
    if (p >= s.size() || s[p] != '[') { l.why = "no task"; return l; }
    std::size_t q = s.find(']', p);
    if (q == std::string::npos) { l.why = "no task"; return l; }
    l.task = nTasks;
    for (unsigned k = 0; k < nTasks; ++k) if (s.substr(p + 1, q - p - 1) == taskNames[k]) l.task = k;
    if (l.task == nTasks) { l.why = "bad task"; return l; }
    p = q + 1;
    if (p >= s.size() || s[p] != ' ') { l.why = "no file"; return l; }
    q = s.find(' ', ++p);
    if (q == std::string::npos) { l.why = "no file"; return l; }
    l.file = s.substr(p, q - p);
    p = q + 1;
    q = s.find(": ", p);
    if (q == std::string::npos) { l.why = "no line"; return l; }
    l.line = atoi(s.substr(p, q - p).c_str());
    l.text = s.substr(q + 2);
    l.ok = true;
    return l;
}

std::vector<std::string> lines(std::string const& s)
{
    std::vector<std::string> v;
    std::size_t p = 0;
    while (p < s.size())
    {
        std::size_t q = s.find('\n', p);
        if (q == std::string::npos) fail("the last line is not ended: " + s.substr(p, 80));
        v.push_back(s.substr(p, q - p));
        p = q + 1;
    }
    return v;
}

// Texts around every size that matters, without newline.
std::string genText(Src& src)
{
    std::size_t n;
    switch (src.below(8))
    {
    case 0: n = src.below(4); break;
    case 1: n = 1000 + src.below(40); break;
    case 2: n = src.below(1024); break;
    case 3: n = 1 + src.below(5000); break;
    case 4: n = src.pick({255, 256, 511, 512, 900, 1022, 1023, 1024, 1025, 2048, 4096, 20000}); break;
    default: n = src.below(60); break;
    }
    std::string s;
    std::string const unit = src.pick(std::vector<std::string>{"a", "%", "%s%n%d", "\\", "[GEN] ", "0123456789", "\xff\x80", ": "});
    while (s.size() < n) s += unit;
    s.resize(n);
    for (unsigned k = src.below(4); n && k > 0; --k) s[src.below(n)] = static_cast<char>(1 + src.below(255));
    for (auto& c : s) if (c == '\n') c = ' ';
    return s;
}

// Messages of 900 characters and less appear in full; of longer ones at least the first 900 do.
constexpr std::size_t whole = 900;
void sameText(std::string const& got, std::string const& want)
{
    if (want.size() <= whole) { PBT_REQUIRE(got == want, "logged %zu characters %s, expected %zu characters %s", got.size(), hex(got, 40).c_str(), want.size(), hex(want, 40).c_str()); return; }
    PBT_REQUIRE(got.size() >= whole && want.compare(0, got.size(), got) == 0, "a message of %zu characters is logged as %zu others", want.size(), got.size());
}

void setLevels(std::vector<unsigned> const& lv)
{
    for (unsigned t = 0; t < nTasks; ++t) Logger::getInst().setTaskLogLevel(static_cast<LogTask>(t), static_cast<LogLevel>(lv[t]));
}

void sequence(Src& src, Ctx& ctx)
{
    std::vector<unsigned> lv(nTasks);
    for (auto& l : lv) l = src.below(5);
    setLevels(lv);
    struct Want { unsigned task, level; int line; std::string text; };
    std::vector<Want> want;
    unsigned silent = 0, cut = 0;
    Capture cap;
    for (unsigned n = 0; n < 40 * src.scale && src.goOn(12); ++n)
    {
        if (src.chance(1, 6))
        {
            unsigned const t = src.below(nTasks);
            lv[t] = src.below(5);
            Logger::getInst().setTaskLogLevel(static_cast<LogTask>(t), static_cast<LogLevel>(lv[t]));
            if (ctx.wantText) ctx.say(fmt("task %s logs from level %u", taskNames[t], lv[t]));
            for (unsigned k = 0; k < nTasks; ++k)
                PBT_REQUIRE(static_cast<unsigned>(Logger::getInst().getTaskLogLevel(static_cast<LogTask>(k))) == lv[k], "the level of task %s is not the one set", taskNames[k]);
            continue;
        }
        unsigned const t = src.below(nTasks), l = src.below(nLevels), form = src.below(3), number = src.integer(32);
        std::string const text = genText(src);
        if (ctx.wantText) ctx.say(fmt("%s %s, %zu characters, form %u", taskNames[t], levelNames[l], text.size(), form));
        int const line = log(t, l, form, text, number);
        if (l >= lv[t]) want.push_back({t, l, line, expected(form, text, number)}); else ++silent;
        if (l >= lv[t] && text.size() > 1000) ++cut;
    }
    auto const got = lines(cap.take());
    PBT_REQUIRE(got.size() == want.size(), "%zu lines are logged, expected %zu", got.size(), want.size());
    for (std::size_t k = 0; k < got.size(); ++k)
    {
        Line const l = parse(got[k]);
        PBT_REQUIRE(l.ok, "%s in line %s", l.why.c_str(), got[k].substr(0, 120).c_str());
        PBT_REQUIRE(l.level == want[k].level && l.task == want[k].task, "line %zu is logged as %s %s, expected %s %s", k, levelNames[l.level], taskNames[l.task], levelNames[want[k].level], taskNames[want[k].task]);
        PBT_REQUIRE(l.file == "logger.cpp" && l.line == want[k].line, "logged as %s line %d, expected logger.cpp line %d", l.file.c_str(), l.line, want[k].line);
        sameText(l.text, want[k].text);
    }
    ctx.labels["logged"] += want.size();
    ctx.labels["filtered"] += silent;
    ctx.labels["long messages"] += cut;
    if (want.size() >= 2 && silent >= 1) ctx.nontrivial();
}

// Several threads log at once: every message is one whole line, those of one thread in order.
void threads(Src& src, Ctx& ctx)
{
    std::vector<unsigned> lv(nTasks);
    for (auto& l : lv) l = src.below(3);
    setLevels(lv);
    struct Call { unsigned task, level; std::string text; };
    unsigned const nt = 2 + src.below(5);
    std::vector<std::vector<Call>> calls(nt);
    std::size_t total = 0;
    for (unsigned t = 0; t < nt; ++t)
    {
        unsigned const n = 1 + src.below(30);
        for (unsigned k = 0; k < n; ++k)
        {
            std::string text = fmt("thread %u message %u ", t, k);
            std::size_t const len = src.pick({0, 10, 100, 500, 800});
            text.append(len, static_cast<char>('a' + t));
            calls[t].push_back({static_cast<unsigned>(src.below(nTasks)), static_cast<unsigned>(src.below(nLevels)), text});
            if (calls[t].back().level >= lv[calls[t].back().task]) ++total;
        }
    }
    if (ctx.wantText) ctx.say(fmt("%u threads, %zu lines", nt, total));
    Capture cap;
    {
        std::atomic<unsigned> ready{0};
        std::vector<std::thread> ts;
        for (unsigned t = 0; t < nt; ++t)
            ts.emplace_back([&, t]()
            {
                ready += 1;
                while (ready != nt) {}
                for (auto& c : calls[t]) log(c.task, c.level, 0, c.text, 0);
            });
        for (auto& t : ts) t.join();
    }
    auto const got = lines(cap.take());
    PBT_REQUIRE(got.size() == total, "%zu lines are logged, expected %zu", got.size(), total);
    std::vector<std::size_t> at(nt, 0);
    for (auto& g : got)
    {
        Line const l = parse(g);
        PBT_REQUIRE(l.ok, "%s in line %s", l.why.c_str(), g.substr(0, 120).c_str());
        unsigned t = nt, k = 0;
        PBT_REQUIRE(sscanf(l.text.c_str(), "thread %u message %u ", &t, &k) == 2 && t < nt, "a mixed line: %s", g.substr(0, 120).c_str());
        auto& c = calls[t];
        while (at[t] < c.size() && c[at[t]].level < lv[c[at[t]].task]) at[t] += 1;
        PBT_REQUIRE(at[t] < c.size() && c[at[t]].text == l.text && c[at[t]].level == l.level && c[at[t]].task == l.task, "thread %u: the line of message %u is mixed up or out of order: %s", t, k, g.substr(0, 120).c_str());
        at[t] += 1;
    }
    ctx.labels["lines"] += total;
    if (total >= 20) ctx.nontrivial();
}

PBT_SUB("C26", "sequence", "up to 40 calls for all tasks and levels with texts of 0-20000 characters (format characters, sizes around powers of two) and changing levels; every line is compared with its call; non-trivial: at least 2 lines written and 1 filtered", 60000, 2000000, sequence);
PBT_SUB("C26", "long-sequence", "the histories of sequence, 30 times as long; non-trivial by the same rule", 400, 10000, longer<30>(sequence), 90);
PBT_SUB("C26", "threads", "2-6 threads with up to 30 calls each, started together; non-trivial: at least 20 lines", 3000, 100000, threads, 60, 3, true);

} // namespace
