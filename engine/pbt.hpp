// Small property-based-testing engine.
//
// A case is a finite sequence of bounded choices.  A generator draws choices from a
// Src; the engine either draws them at random (search) or replays a recorded list
// (shrinking, replay).  Shrinking edits the list of choices, so every generator gets an
// integrated shrinker for free.  Search runs in forked workers, so that a crash, a
// sanitizer report, std::terminate, a fatal signal, an escaped exception or a hang of the
// code under test is a failing case like any other and is shrunk and saved the same way.
#pragma once

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <exception>
#include <stdexcept>

namespace pbt
{

struct Discard {};

struct Fail
{
    std::string msg;
};

[[gnu::format(printf, 1, 2)]] std::string fmt(char const*, ...);
std::string hex(std::uint8_t const*, std::size_t, std::size_t max = 64);
inline std::string hex(std::vector<std::uint8_t> const& v, std::size_t max = 64) { return hex(v.data(), v.size(), max); }
inline std::string hex(std::string const& v, std::size_t max = 64) { return hex(reinterpret_cast<std::uint8_t const*>(v.data()), v.size(), max); }

[[noreturn]] inline void fail(std::string msg) { throw Fail{std::move(msg)}; }

#define PBT_REQUIRE(COND, ...) do { if (!(COND)) ::pbt::fail(std::string(#COND) + " -- " + ::pbt::fmt(__VA_ARGS__)); } while (0)

class Src
{
public:
    static constexpr std::size_t maxChoices = 60000;

    // uniform in [0, n); n == 0 means the full 64 bit range.  0 is the simplest choice.
    std::uint64_t below(std::uint64_t n);
    std::uint64_t range(std::uint64_t lo, std::uint64_t hi) { return lo + below(hi - lo + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }   // shrinks to false
    bool coin() { return below(2); }
    // "one more element?": used to build lists whose elements can be deleted by the shrinker
    bool more(unsigned mean) { return below(mean + 1) != 0; }
    bool goOn(unsigned mean) { return more(mean * scale); }             // one more step of a history?
    template <typename T> T const& pick(std::vector<T> const& v) { return v[below(v.size())]; }
    template <typename T, std::size_t N> T const& pick(T const (&v)[N]) { return v[below(N)]; }
    // integer biased to boundaries of the given bit width
    std::uint64_t integer(unsigned bits);
    std::string bytes(std::size_t maxLen, unsigned mean = 8);
    std::string bytesExact(std::size_t len);

    // as many further choices as wanted from one choice: for cases of thousands of steps, which are not worth recording one by one
    Src fork() { Src c; c.state = below(0); c.limit = ~std::size_t(0); return c; }

    std::size_t drawn() const { return n; }
    std::uint64_t hash() const { return h; }

    // engine side
    bool random{true};
    std::uint64_t state{0};
    std::vector<std::uint64_t> replay;
    std::uint64_t* record{nullptr};      // shared memory, record[0] = count
    std::size_t n{0}, limit{maxChoices};
    unsigned scale{1};                   // histories are so many times longer than usual
    std::uint64_t h{1469598103934665603ull};
};

class Ctx
{
public:
    // marks the case as non trivial (by the sub-check's stated rule)
    void nontrivial() { isNontrivial = true; }
    void label(std::string const& l) { labels[l] += 1; }
    void say(std::string const& s) { if (text.size() < 6000) { text += s; text += '\n'; } }
    bool wantText{false};
    bool isNontrivial{false};
    std::string text;
    std::map<std::string, std::uint64_t> labels;
};

using PropFn = std::function<void(Src&, Ctx&)>;

struct Sub
{
    char const* property;
    char const* name;
    char const* rule;          // when is a case non-trivial
    unsigned quickCases;
    unsigned thoroughCases;
    PropFn fn;
    unsigned hangSecs{30};
    unsigned maxWorkers{8};
    bool racy{false};          // real threads: a failing case need not fail every time it is run again
};

std::vector<Sub>& registry();

struct Register
{
    Register(Sub s) { registry().push_back(std::move(s)); }
};

// the same sub-check with histories many times as long, from one choice
template <unsigned Scale> PropFn longer(PropFn fn) { return [fn](Src& src, Ctx& ctx) { Src s = src.fork(); s.scale = Scale; fn(s, ctx); }; }

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PBT_SUB(...) static ::pbt::Register PBT_CAT(pbtReg, __LINE__)(::pbt::Sub{__VA_ARGS__})

int main(int argc, char** argv);

} // namespace pbt
