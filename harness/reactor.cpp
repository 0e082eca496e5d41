// The event loop itself, on real threads, descriptors and loopback sockets.
// C16 messages, C17 failing handlers, C18 timers, C19 links, C20 addresses, C21 resources, C22 stop.

#include "pbt.hpp"

#include "Reactor.hpp"
#include "ReactorManager.hpp"
#include "ComponentInterface.hpp"
#include "MsgBase.hpp"
#include "MaxMsgSize.hpp"
#include "LinkInterface.hpp"
#include "TimerInterface.hpp"
#include "AcceptorInterface.hpp"
#include "LinkAddr.hpp"
#include "Logger.hpp"

#include <arpa/inet.h>
#include <dirent.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <atomic>
#include <condition_variable>
#include <deque>
#include <memory>
#include <mutex>
#include <set>
#include <thread>

using namespace pbt;
using namespace app;
using namespace app::reactor;

// Fault injection: the next registrations with epoll fail.
static std::atomic<int> epollFaults{0}, listenFaults{0};
extern "C" int epoll_ctl(int ep, int op, int fd, struct epoll_event* ev) noexcept
{
    if (op != EPOLL_CTL_DEL && epollFaults > 0) { epollFaults -= 1; errno = ENOSPC; return -1; }
    return static_cast<int>(syscall(SYS_epoll_ctl, ep, op, fd, ev));
}
extern "C" int listen(int fd, int backlog) noexcept
{
    if (listenFaults > 0) { listenFaults -= 1; errno = EADDRINUSE; return -1; }
    return static_cast<int>(syscall(SYS_listen, fd, backlog));
}

namespace
{

std::int64_t usNow()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec * 1000000ll + t.tv_nsec / 1000;
}

void quiet(bool on)
{
    for (int t = 0; t < static_cast<int>(LogTask::NUM); ++t)
        Logger::getInst().setTaskLogLevel(static_cast<LogTask>(t), getenv("PBT_LOG") || on ? LogLevel::LD : LogLevel::NA);
}

constexpr std::int64_t patience = 8000000;   // how long something that must happen may take on a busy machine

// ------------------------------------------------------------------ messages

struct Blob : MsgInterface
{
    MsgId id;
    ComponentId comp;
    std::uint32_t bytes, sender, seq, flags;
    MsgId getMsgId() const override { return id; }
    ComponentId getCompId() const override { return comp; }
    std::size_t size() const override { return bytes; }
};

struct BlobStore
{
    alignas(64) unsigned char mem[16384];
    Blob& b;
    static unsigned char at(std::uint32_t sender, std::uint32_t seq, std::size_t k) { return static_cast<unsigned char>((sender * 131 + seq * 7 + k * 13 + (k >> 8)) ^ 0x5a); }
    BlobStore(MsgId id, ComponentId comp, std::uint32_t bytes, std::uint32_t sender, std::uint32_t seq, std::uint32_t flags = 0) : b(*new (mem) Blob)
    {
        b.id = id; b.comp = comp; b.bytes = std::max<std::uint32_t>(bytes, sizeof(Blob)); b.sender = sender; b.seq = seq; b.flags = flags;
        for (std::size_t k = sizeof(Blob); k < b.bytes; ++k) mem[k] = at(sender, seq, k);
    }
    static void check(Blob const& b)
    {
        unsigned char const* p = reinterpret_cast<unsigned char const*>(&b);
        for (std::size_t k = sizeof(Blob); k < b.bytes; ++k)
            PBT_REQUIRE(p[k] == at(b.sender, b.seq, k), "message %u of sender %u (%u bytes) arrives with byte %zu changed", b.seq, b.sender, b.bytes, k);
    }
};

std::uint32_t blobSize(Src& src)
{
    switch (src.below(5))
    {
    case 0: return sizeof(Blob);
    case 1: return sizeof(Blob) + src.below(200);
    case 2: return 4096 - src.below(17);
    case 3: return 4096;
    default: return sizeof(Blob) + src.below(4096 - sizeof(Blob) + 1);
    }
}

// ------------------------------------------------------------------ one reactor driven from inside

constexpr MsgId tickId = 900001;
struct Tick : MsgBase<Tick, 99, tickId> {};

struct Loop
{
    Reactor r{Reactor::Init{0, 1, 0}};
    std::mutex m;
    std::condition_variable cv;
    bool done{false};
    std::string err;
    std::function<bool()> step;
    std::int64_t waitingSince{0};
    bool byTimer{false};          // steps run from a timer, so that the message queue holds nothing of the harness
    TimerPtr stepTimer;

    // Runs harness code inside a handler of the code under test.
    template <typename F> void guard(F&& f)
    {
        try { f(); }
        catch (Fail const& e) { note(e.msg); }
        catch (Discard const&) { discarded = true; note("discarded"); }
    }
    bool discarded{false};
    void note(std::string const& msg) { std::lock_guard<std::mutex> g(m); if (err.empty()) err = msg.empty() ? "failed" : msg; }
    void tick() { Tick t; r.send(t); }
    void finish() { { std::lock_guard<std::mutex> g(m); done = true; } cv.notify_all(); }

    // Calls step in the loop's own thread, again and again, until it returns false.
    void go(std::function<bool()> s)
    {
        step = s;
        auto body = [this]()
        {
            if (done) return;
            bool more = false;
            try { more = step(); }
            catch (Fail const& e) { note(e.msg); }
            catch (Discard const&) { discarded = true; note("discarded"); }
            catch (std::exception const& e) { note(fmt("unexpected exception: %s", e.what())); }
            bool bad;
            { std::lock_guard<std::mutex> g(m); bad = !err.empty(); }
            if (!more || bad) finish();
            else if (byTimer) stepTimer->start(0);
            else tick();
        };
        r.registerHandler(tickId, [body](MsgInterface const&) { body(); });
        if (byTimer) { stepTimer = r.createTimer(body); stepTimer->start(0); }
        r.start();
        if (!byTimer) tick();
        std::unique_lock<std::mutex> l(m);
        bool const ok = cv.wait_for(l, std::chrono::seconds(25), [this] { return done; });
        std::string e = err;
        l.unlock();
        r.stop();
        if (discarded) throw Discard{};
        if (!e.empty()) fail(e);
        if (!ok) fail("the event loop stopped delivering messages");
    }

    // To be used in a step: true once cond holds; fails when it does not within the patience.
    bool until(bool cond, char const* what)
    {
        if (cond) { waitingSince = 0; return true; }
        if (!waitingSince) waitingSince = usNow();
        PBT_REQUIRE(usNow() - waitingSince < patience, "%s", what);
        usleep(20);
        return false;
    }
};

// ------------------------------------------------------------------ raw sockets: the other side

struct Addr { std::uint8_t ip[4]; std::uint16_t port; };

Addr freshAddr()
{
    static std::uint32_t n = static_cast<std::uint32_t>(static_cast<std::uint64_t>(usNow()) * 2654435761u);
    std::uint32_t const pid = static_cast<std::uint32_t>(getpid());
    n += 1;
    return Addr{{127, static_cast<std::uint8_t>(1 + (pid >> 8) % 250), static_cast<std::uint8_t>(pid), static_cast<std::uint8_t>(1 + n / 60000 % 250)}, static_cast<std::uint16_t>(2000 + n % 60000)};
}

sockaddr_in sa(Addr const& a)
{
    sockaddr_in s{};
    s.sin_family = AF_INET;
    s.sin_port = htons(a.port);
    std::memcpy(&s.sin_addr, a.ip, 4);
    return s;
}

LinkAddr la(Addr const& a)
{
    LinkAddr l{};
    l.type = LinkAddr::Type::ipv4;
    std::memcpy(l.data, a.ip, 4);
    l.data[4] = static_cast<char>(a.port >> 8);
    l.data[5] = static_cast<char>(a.port);
    return l;
}

struct Sock
{
    int fd{-1};
    bool ended{false};
    Sock() = default;
    explicit Sock(int f) : fd(f) {}
    Sock(Sock&& o) : fd(o.fd), ended(o.ended) { o.fd = -1; }
    Sock& operator=(Sock&& o) { if (this != &o) { shut(); fd = o.fd; ended = o.ended; o.fd = -1; } return *this; }
    ~Sock() { shut(); }
    void shut() { if (fd >= 0) ::close(fd); fd = -1; }
    void reset() { if (fd < 0) return; struct linger l{1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof(l)); shut(); }
    static Sock listen(Addr const& a, int backlog = 16)
    {
        Sock s(::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0));
        auto x = sa(a);
        if (s.fd < 0 || ::bind(s.fd, reinterpret_cast<sockaddr*>(&x), sizeof(x)) || ::listen(s.fd, backlog)) s.shut();
        return s;
    }
    static Sock listenAnywhere(Addr& a)
    {
        for (unsigned k = 0; k < 50; ++k) { a = freshAddr(); Sock s = listen(a); if (s.fd >= 0) return s; }
        throw Discard{};
    }
    Sock accept(int ms)
    {
        pollfd p{fd, POLLIN, 0};
        if (poll(&p, 1, ms) != 1) return Sock();
        return Sock(::accept4(fd, nullptr, nullptr, SOCK_CLOEXEC));
    }
    static Sock dial(Addr const& a)
    {
        Sock s(::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0));
        auto x = sa(a);
        if (s.fd < 0 || ::connect(s.fd, reinterpret_cast<sockaddr*>(&x), sizeof(x))) s.shut();
        else { int one = 1; setsockopt(s.fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one)); }
        return s;
    }
    bool put(std::string const& d) { return ::send(fd, d.data(), d.size(), MSG_NOSIGNAL) == static_cast<ssize_t>(d.size()); }
    // everything there is to read now; eof or error ends it
    std::string take(std::size_t limit = ~std::size_t(0))
    {
        std::string out;
        char buf[65536];
        while (fd >= 0 && !ended && out.size() < limit)
        {
            ssize_t const n = ::recv(fd, buf, std::min(sizeof(buf), limit - out.size()), MSG_DONTWAIT);
            if (n > 0) { out.append(buf, n); continue; }
            if (n == 0 || (errno != EAGAIN && errno != EINTR)) ended = true;
            break;
        }
        return out;
    }
};

unsigned openDescriptors()
{
    unsigned n = 0;
    if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) ++n; closedir(d); }
    return n;
}

std::string pattern(std::uint32_t id, std::size_t from, std::size_t n)
{
    std::string s(n, 0);
    for (std::size_t k = 0; k < n; ++k) s[k] = static_cast<char>(((from + k) * 31 + (from + k) / 251 + id * 17) ^ 0x33);
    return s;
}

// ------------------------------------------------------------------ C16 messages

struct Comp : ComponentInterface
{
    ComponentId id;
    SenderInterface& s;
    ReactorInterface& r;
    Comp(ComponentId i, SenderInterface& s_, ReactorInterface& r_) : id(i), s(s_), r(r_) {}
    ComponentId getCompId() const override { return id; }
    SenderInterface& getSender() override { return s; }
    ReactorInterface& getReactor() override { return r; }
};

void c16routing(Src& src, Ctx& ctx)
{
    quiet(false);
    unsigned const nr = 1 + src.below(3);
    unsigned const nc = nr + src.below(3);
    unsigned const threads = 1 + src.below(4);
    struct Plan { unsigned comp, msg, size, hops; int oddity; unsigned hopComp[3], hopSize[3]; };
    std::vector<std::vector<Plan>> plans(threads);
    for (auto& p : plans)
    {
        unsigned n = 0;
        while (n++ < 120 && src.more(40))
        {
            Plan q{};
            q.comp = src.below(nc);
            q.msg = src.below(3);
            q.size = blobSize(src);
            q.oddity = src.chance(1, 8) ? 1 + src.below(2) : 0;
            q.hops = src.below(3) == 0 ? src.below(4) : 0;
            for (unsigned h = 0; h < q.hops; ++h) { q.hopComp[h] = src.below(nc); q.hopSize[h] = blobSize(src); }
            p.push_back(q);
        }
    }
    // Everything below outlives the reactors' threads.
    struct State
    {
        std::mutex m;
        std::condition_variable cv;
        std::string err;
        std::map<std::pair<unsigned, unsigned>, std::uint32_t> last;    // (sender, component) -> last sequence number seen
        std::map<unsigned, std::thread::id> home;
        std::atomic<unsigned> handled{0};
        std::vector<int> inFlight;
    } st;
    st.inFlight.assign(threads, 0);
    std::map<std::pair<unsigned, unsigned>, std::uint32_t> sentSeq;       // forwards, one writer per sender component
    std::vector<std::map<unsigned, std::uint32_t>> forwardSeq(nc);
    std::atomic<unsigned> expected{0};
    {
        ReactorManager mgr;
        std::vector<Reactor*> rs;
        std::vector<unsigned> homeOf(nc);
        for (unsigned k = 0; k < nr; ++k) rs.push_back(new Reactor(Reactor::Init{k, 1, 0}));
        for (unsigned k = 0; k < nc; ++k)
        {
            homeOf[k] = k < nr ? k : src.below(nr);
            mgr.addComponent(std::make_unique<Comp>(k, mgr, *rs[homeOf[k]]));
        }
        for (unsigned k = 0; k < nr; ++k)
        {
            for (unsigned msg = 0; msg < 3; ++msg) rs[k]->registerHandler(100 + msg, [&, k, msg](MsgInterface const& mi)
            {
                Blob const& b = static_cast<Blob const&>(mi);
                std::string e;
                try
                {
                    PBT_REQUIRE(b.comp < nc && homeOf[b.comp] == k, "a message for component %zu is handled by the reactor of others", b.comp);
                    PBT_REQUIRE(b.id == 100 + msg, "message %zu is given to the handler of %u", b.id, 100 + msg);
                    BlobStore::check(b);
                    std::lock_guard<std::mutex> g(st.m);
                    auto& home = st.home[k];
                    if (home == std::thread::id()) home = std::this_thread::get_id();
                    PBT_REQUIRE(home == std::this_thread::get_id(), "a reactor runs on two threads");
                    auto& last = st.last[{b.sender, static_cast<unsigned>(b.comp)}];
                    PBT_REQUIRE(b.seq == last + 1, "component %zu: message %u of sender %u follows %u", b.comp, b.seq, b.sender, last);
                    last = b.seq;
                }
                catch (Fail const& f) { e = f.msg; }
                unsigned const owner = b.flags & 0xff, hop = (b.flags >> 8) & 0xff, idx = b.flags >> 16;
                st.handled += 1;
                if (e.empty() && owner < threads && idx < plans[owner].size() && hop < plans[owner][idx].hops)
                {
                    // pass something on to the next component; this reactor's thread is the only sender under this component's name
                    Plan const& q = plans[owner][idx];
                    unsigned const to = q.hopComp[hop];
                    std::uint32_t const seq = ++forwardSeq[b.comp][to];
                    BlobStore s(100 + (hop + idx) % 3, to, q.hopSize[hop], 1000 + static_cast<unsigned>(b.comp), seq, owner | (hop + 1) << 8 | idx << 16);
                    expected += 1;
                    mgr.send(s.b);
                }
                else
                {
                    std::lock_guard<std::mutex> g(st.m);
                    if (owner < threads) st.inFlight[owner] -= 1;
                    if (!e.empty() && st.err.empty()) st.err = e;
                }
                st.cv.notify_all();
            });
        }
        for (auto* r : rs) mgr.addReactor(std::unique_ptr<ReactorInterface>(r));
        mgr.start();
        std::vector<std::thread> ts;
        std::atomic<bool> stuck{false};
        for (unsigned t = 0; t < threads; ++t) ts.emplace_back([&, t]
        {
            std::map<unsigned, std::uint32_t> seq;
            for (unsigned k = 0; k < plans[t].size(); ++k)
            {
                Plan const& q = plans[t][k];
                {
                    std::unique_lock<std::mutex> l(st.m);
                    if (!st.cv.wait_for(l, std::chrono::seconds(10), [&] { return st.inFlight[t] < 6 || !st.err.empty(); })) { stuck = true; return; }
                    if (!st.err.empty()) return;
                    st.inFlight[t] += 1;
                }
                if (q.oddity == 1) { BlobStore s(100, 5000 + q.comp * 17 + k, q.size, t, 0); mgr.send(s.b); }           // nobody has this address
                if (q.oddity == 2) { BlobStore s(777, q.comp, q.size, t, 0); mgr.send(s.b); }                            // nobody handles it
                expected += 1;
                BlobStore s(100 + q.msg, q.comp, q.size, t, ++seq[q.comp], t | k << 16);
                mgr.send(s.b);
            }
        });
        for (auto& t : ts) t.join();
        bool arrived;
        {
            std::unique_lock<std::mutex> l(st.m);
            arrived = st.cv.wait_for(l, std::chrono::seconds(10), [&]
            {
                if (!st.err.empty()) return true;
                for (int n : st.inFlight) if (n) return false;
                return true;
            });
        }
        mgr.stop();
        std::lock_guard<std::mutex> g(st.m);
        if (!st.err.empty()) fail(st.err);
        PBT_REQUIRE(arrived && !stuck, "%u messages were sent with at most 48 pending, only %u arrived", expected.load(), st.handled.load());
        PBT_REQUIRE(expected == st.handled, "%u messages were sent, %u arrived", expected.load(), st.handled.load());
    }
    unsigned total = 0;
    for (auto& p : plans) total += p.size();
    if (ctx.wantText) ctx.say(fmt("%u threads send %u messages to %u components on %u reactors; %u deliveries", threads, total, nc, nr, st.handled.load()));
    ctx.labels["messages"] += st.handled;
    if (threads > 1 && total >= 10) ctx.nontrivial();
}

// Bursts from inside the loop: what happens at and beyond the capacity.
void c16capacity(Src& src, Ctx& ctx)
{
    quiet(src.chance(1, 30));
    Loop l;
    l.byTimer = true;
    std::deque<std::pair<std::uint32_t, bool>> waiting;   // sequence number, must arrive
    std::uint32_t seq = 0, arrived = 0, dropped = 0, rounds = 0, oversized = 0;
    l.r.registerHandler(100, [&](MsgInterface const& mi)
    {
        Blob const& b = static_cast<Blob const&>(mi);
        l.guard([&]
        {
            BlobStore::check(b);
            while (!waiting.empty() && waiting.front().first != b.seq)
            {
                PBT_REQUIRE(!waiting.front().second, "message %u never arrived although less than 64 were waiting when it was sent; %u arrives instead", waiting.front().first, b.seq);
                waiting.pop_front();
                ++dropped;
            }
            PBT_REQUIRE(!waiting.empty(), "message %u arrives twice or was never sent", b.seq);
            waiting.pop_front();
            ++arrived;
        });
    });
    l.go([&]() -> bool
    {
        if (rounds++ >= 40 || !src.more(8)) return false;
        unsigned const n = src.coin() ? src.below(20) : src.below(200);
        for (unsigned k = 0; k < n; ++k)
        {
            if (src.chance(1, 40)) { BlobStore big(100, 0, 4097 + src.below(9000), 1, 0); l.r.send(big.b); ++oversized; continue; }
            bool const must = waiting.size() < 64;
            BlobStore s(100, 0, blobSize(src), 1, ++seq);
            waiting.push_back({seq, must});
            l.r.send(s.b);
        }
        return true;
    });
    if (ctx.wantText) ctx.say(fmt("%u messages, %u arrived, %u dropped, %u too long", seq, arrived, dropped, oversized));
    ctx.labels["arrived"] += arrived;
    ctx.labels["dropped beyond the capacity"] += dropped;
    if (dropped && arrived) ctx.nontrivial();
}

// Several threads send more than fits, at full speed: what arrives is whole, in order and not repeated, and nothing is used up.
void c16flood(Src& src, Ctx& ctx)
{
    quiet(false);
    unsigned const threads = 2 + src.below(3);
    unsigned const rounds = 1 + src.below(4);
    struct Burst { unsigned n, size, pause; };
    std::vector<std::vector<Burst>> plan(threads);
    for (auto& p : plan) for (unsigned r = 0; r < rounds; ++r) p.push_back({20 + src.below(400), blobSize(src), src.below(4)});
    unsigned const slow = src.below(3) == 0 ? src.below(30) : 0;
    struct State
    {
        std::mutex m;
        std::condition_variable cv;
        std::string err;
        std::map<unsigned, std::uint32_t> last;
        unsigned handled{0};
        std::set<std::uint32_t> probes;
    } st;
    Reactor r(Reactor::Init{0, 1, 0});
    r.registerHandler(100, [&](MsgInterface const& mi)
    {
        Blob const& b = static_cast<Blob const&>(mi);
        std::string e;
        try { BlobStore::check(b); } catch (Fail const& f) { e = f.msg; }
        if (slow) { std::int64_t const t = usNow() + slow; while (usNow() < t); }
        {
            std::lock_guard<std::mutex> g(st.m);
            auto& last = st.last[b.sender];
            if (e.empty() && b.seq <= last) e = fmt("message %u of sender %u arrives after message %u", b.seq, b.sender, last);
            last = b.seq;
            st.handled += 1;
            if (b.flags) st.probes.insert(b.flags);
            if (!e.empty() && st.err.empty()) st.err = e;
        }
        st.cv.notify_all();
    });
    r.start();
    std::vector<std::uint32_t> seqs(threads, 0);
    unsigned sent = 0;
    std::uint32_t probe = 0, probeSeq = 0;
    bool ok = true;
    for (unsigned round = 0; round < rounds && ok; ++round)
    {
        std::vector<std::thread> ts;
        for (unsigned t = 0; t < threads; ++t) ts.emplace_back([&, t]
        {
            Burst const& q = plan[t][round];
            for (unsigned k = 0; k < q.n; ++k)
            {
                BlobStore s(100, 0, q.size, t, ++seqs[t]);
                r.send(s.b);
                if (q.pause && k % 16 == 0) usleep(q.pause * 10);
            }
        });
        for (auto& t : ts) t.join();
        for (auto& q : plan) sent += q[round].n;
        // wait until one arrives that was sent after all these: then nothing waits anymore
        std::uint32_t const mark = ++probe;
        ok = false;
        for (unsigned k = 0; k < 400 && !ok; ++k)
        {
            { BlobStore s(100, 0, sizeof(Blob), 900, ++probeSeq, mark); r.send(s.b); }
            std::unique_lock<std::mutex> l(st.m);
            ok = st.cv.wait_for(l, std::chrono::milliseconds(20), [&] { return st.probes.count(mark) || !st.err.empty(); });
        }
        if (ok) { usleep(2000); std::unique_lock<std::mutex> l(st.m); unsigned h; do { h = st.handled; l.unlock(); usleep(3000); l.lock(); } while (h != st.handled); }
        // all 64 places are free again
        for (unsigned k = 0; k < 60 && ok; ++k) { BlobStore s(100, 0, sizeof(Blob) + k, 901, round * 60 + k + 1, 1000 + round * 60 + k); r.send(s.b); }
        std::unique_lock<std::mutex> l(st.m);
        bool const all = !ok || !st.err.empty() || st.cv.wait_for(l, std::chrono::seconds(8), [&]
        {
            if (!st.err.empty()) return true;
            for (unsigned k = 0; k < 60; ++k) if (!st.probes.count(1000 + round * 60 + k)) return false;
            return true;
        });
        if (st.err.empty() && !ok) st.err = "after a flood of messages none arrives anymore";
        if (st.err.empty() && !all) st.err = "after a flood of messages was handled, 60 new ones do not all arrive";
        ok = st.err.empty();
    }
    r.stop();
    if (!st.err.empty()) fail(st.err);
    if (ctx.wantText) ctx.say(fmt("%u threads send %u messages, %u handled", threads, sent, st.handled));
    ctx.labels["sent"] += sent;
    ctx.labels["handled"] += st.handled;
    if (st.handled < sent) ctx.nontrivial();
}

// ------------------------------------------------------------------ C17 failing handlers

[[noreturn]] void boom(unsigned kind)
{
    switch (kind % 4)
    {
    case 0: throw std::runtime_error("boom");
    case 1: throw std::logic_error("boom");
    case 2: throw std::out_of_range("boom");
    default: throw std::bad_alloc();
    }
}

void c17(Src& src, Ctx& ctx)
{
    quiet(false);
    Loop l;
    struct L { LinkPtr link; Sock peer; std::size_t sent{0}; std::string got; bool throws{false}; unsigned kind{0}; bool broken{false}; };
    struct T { TimerPtr timer; unsigned fired{0}, want{0}; bool throws{false}; unsigned kind{0}; };
    std::vector<std::unique_ptr<L>> links;
    std::vector<std::unique_ptr<T>> timers;
    AcceptorPtr acceptor;
    Addr aaddr;
    std::deque<Sock> dialled;
    unsigned dials = 0, accepted = 0, acceptThrows = 0, acceptFailures = 0;
    std::uint32_t seq = 0, lastSeen = 0, throwsDone = 0, total = 0;
    unsigned phase = 0, round = 0;
    unsigned const rounds = 1 + src.below(4);
    unsigned const nl = src.below(5), nt = src.below(6);
    bool const useAcceptor = src.coin();

    l.byTimer = true;
    l.r.registerHandler(100, [&](MsgInterface const& mi)
    {
        Blob const& b = static_cast<Blob const&>(mi);
        bool thrower = false;
        l.guard([&]
        {
            BlobStore::check(b);
            PBT_REQUIRE(b.seq == lastSeen + 1, "message %u follows message %u", b.seq, lastSeen);
            lastSeen = b.seq;
            thrower = b.flags != 0;
        });
        if (thrower) { ++throwsDone; boom(b.flags); }
    });
    l.go([&]() -> bool
    {
        switch (phase)
        {
        case 0:
            for (unsigned k = 0; k < nl; ++k)
            {
                Addr a;
                Sock srv = Sock::listenAnywhere(a);
                auto x = std::make_unique<L>();
                L* p = x.get();
                x->link = l.r.createLink([&, p, k](LinkEvent ev)
                {
                    bool thrower = false;
                    l.guard([&]
                    {
                        if (ev == LinkEvent::error) { p->broken = true; return; }
                        if (ev != LinkEvent::data) return;
                        std::uint8_t buf[512];
                        for (;;)
                        {
                            LinkResult const res = p->link->receive(buf, sizeof(buf));
                            if (res.status != LinkResult::ok || res.len <= 0) break;
                            p->got.append(reinterpret_cast<char*>(buf), res.len);
                        }
                        thrower = p->throws;
                    });
                    if (thrower) { ++throwsDone; boom(p->kind); }
                });
                x->link->connect(la(a));
                x->peer = srv.accept(5000);
                PBT_REQUIRE(x->peer.fd >= 0, "the connection attempt never reaches the peer");
                links.push_back(std::move(x));
            }
            for (unsigned k = 0; k < nt; ++k)
            {
                auto x = std::make_unique<T>();
                T* p = x.get();
                x->timer = l.r.createTimer([&, p] { ++p->fired; if (p->throws) { ++throwsDone; boom(p->kind); } });
                timers.push_back(std::move(x));
            }
            if (useAcceptor)
            {
                acceptor = l.r.createAcceptor([&]
                {
                    if (acceptThrows) { --acceptThrows; ++throwsDone; boom(acceptThrows); }
                    LinkPtr k = l.r.createLink([](LinkEvent) {});
                    acceptor->accept(*k);
                    ++accepted;
                });
                for (unsigned k = 0;; ++k) { aaddr = freshAddr(); try { acceptor->listen(la(aaddr)); break; } catch (std::exception const&) { if (k > 20) throw Discard{}; } }
            }
            phase = 1;
            return true;
        case 1:
        {
            // prepare one batch of events, all pending before the loop looks again
            if (round++ >= rounds) return false;
            unsigned desc = 0;
            for (auto& x : links) if (src.below(3)) { std::size_t const n = 1 + src.below(2000); x->throws = src.below(2); x->kind = src.below(4); x->peer.put(pattern(desc, x->sent, n)); x->sent += n; ++desc; ++total; }
            for (auto& x : timers) if (src.below(3)) { x->throws = src.coin(); x->kind = src.below(4); x->want += 1; x->timer->start(src.below(500)); ++total; }
            unsigned n = src.below(12);
            while (n--) { BlobStore s(100, 0, sizeof(Blob) + src.below(100), 1, ++seq, src.below(2) ? 1 + src.below(4) : 0); l.r.send(s.b); ++total; }
            if (useAcceptor && src.coin()) { acceptThrows = src.below(4); dialled.push_back(Sock::dial(aaddr)); ++dials; ++total; }
            usleep(700);
            phase = 2;
            return true;
        }
        default:
        {
            bool all = lastSeen == seq && accepted == dials;
            for (auto& x : timers) { PBT_REQUIRE(x->fired <= x->want, "a timer fired %u times for %u starts", x->fired, x->want); all = all && x->fired == x->want; }
            for (auto& x : links) { PBT_REQUIRE(!x->broken, "a healthy link reports an error"); all = all && x->got.size() == x->sent; }
            if (!l.until(all, "after a handler threw, another message, timer, link or connection was never served")) return true;
            phase = 1;
            return true;
        }
        }
    });
    acceptor.reset();
    if (ctx.wantText) ctx.say(fmt("%u links, %u timers, %u rounds, %u events, %u handlers threw", nl, nt, rounds, total, throwsDone));
    ctx.labels["handlers that threw"] += throwsDone;
    if (throwsDone >= 1 && total >= throwsDone + 2) ctx.nontrivial();
}

// ------------------------------------------------------------------ C18 timers

void c18(Src& src, Ctx& ctx)
{
    quiet(false);
    Loop l;
    struct T
    {
        TimerPtr timer;
        bool armed{false};
        std::int64_t due{0};
        long interval{0};
    };
    std::vector<std::unique_ptr<T>> ts;
    unsigned const nt = 1 + src.below(8);
    unsigned n = 0, fired = 0, stopped = 0, restarted = 0, starts = 0;
    std::int64_t waitUntil = 0;
    bool ending = false;
    std::function<void(T*, int, long)> make = [&](T* p, int act, long again)
    {
        p->timer = l.r.createTimer([&, p, act, again]
        {
            l.guard([&]
            {
                PBT_REQUIRE(p->armed, "a timer fired that is not running");
                std::int64_t const t = usNow();
                PBT_REQUIRE(t + 1 >= p->due, "a timer of %ld us fired %lld us early", p->interval, (long long)(p->due - t));
                p->armed = false;
                ++fired;
                // some handlers start their own timer again, or stop the others
                if (act == 0 && !ending) { p->armed = true; p->interval = again; p->due = usNow() + again; p->timer->start(again); ++starts; }
                if (act == 1) for (auto& o : ts) if (o->timer && o->armed) { o->timer->stop(); o->armed = false; ++stopped; }
                if (act == 2) for (auto& o : ts) if (o.get() != p && o->timer) { if (o->armed) ++stopped; o->armed = false; o->timer.reset(); make(o.get(), 3, 0); }
            });
        });
    };
    l.byTimer = src.coin();
    l.go([&]() -> bool
    {
        if (ts.empty()) for (unsigned k = 0; k < nt; ++k) { ts.push_back(std::make_unique<T>()); int const act = src.below(8); make(ts.back().get(), act, src.below(3000)); }
        if (waitUntil) { if (usNow() < waitUntil) { usleep(50); return true; } waitUntil = 0; }
        if (!ending && n++ < 40 && src.more(15))
        {
            T& t = *ts[src.below(ts.size())];
            switch (src.below(7))
            {
            case 0: case 1: case 2:
            {
                static long const pick[] = {0, 1, 100, 1000, 2500, 999999, 3000000, 3600000000l, 4000000000000l};
                long const us = src.coin() ? src.below(4000) : src.pick(pick);
                if (ctx.wantText) ctx.say(fmt("start %p %ld us%s", (void*)0, us, t.armed ? " (running)" : ""));
                if (t.armed) ++restarted;
                t.interval = us;
                t.due = usNow() + us;
                t.timer->start(us);
                t.armed = true;
                ++starts;
                break;
            }
            case 3: t.timer->stop(); if (t.armed) ++stopped; t.armed = false; break;
            case 4: t.timer.reset(); if (t.armed) ++stopped; t.armed = false; { int const act = src.below(8); make(&t, act, src.below(3000)); } break;
            case 5: usleep(src.below(3000)); break;                     // the loop is busy: timers expire meanwhile
            default: waitUntil = usNow() + src.below(3000); break;
            }
            return true;
        }
        ending = true;
        bool all = true;
        for (auto& t : ts) if (t->armed)
        {
            if (t->interval > 100000) { t->timer->stop(); t->armed = false; continue; }
            all = false;
        }
        if (!l.until(all, "a running timer never fired")) return true;
        return false;
    });
    ts.clear();
    ctx.labels["fired"] += fired;
    ctx.labels["stopped while running"] += stopped;
    ctx.labels["restarted while running"] += restarted;
    if (fired >= 2 && stopped + restarted >= 1) ctx.nontrivial();
}

// Timers of seconds: many at once, awaited well beyond the moment a second call could come.
void c18long(Src& src, Ctx& ctx)
{
    quiet(false);
    Loop l;
    struct T
    {
        TimerPtr timer;
        bool armed{false};
        std::int64_t due{0}, changeAt{0};
        long interval{0}, next{0};
        unsigned late{0};
    };
    std::vector<std::unique_ptr<T>> ts;
    unsigned const nt = 8 + src.below(20);
    unsigned fired = 0, changed = 0;
    std::int64_t last = 0;
    auto arm = [&](T& t, long us)
    {
        t.interval = us;
        t.due = usNow() + us;
        t.late = 0;
        t.timer->start(us);
        t.armed = true;
        last = std::max(last, t.due);
    };
    l.byTimer = src.coin();
    l.go([&]() -> bool
    {
        if (ts.empty())
        {
            for (unsigned k = 0; k < nt; ++k)
            {
                ts.push_back(std::make_unique<T>());
                T* p = ts.back().get();
                p->timer = l.r.createTimer([&, p]
                {
                    l.guard([&]
                    {
                        PBT_REQUIRE(p->armed, "a timer fired that is not running");
                        std::int64_t const t = usNow();
                        PBT_REQUIRE(t + 1 >= p->due, "a timer of %ld us fired %lld us early", p->interval, (long long)(p->due - t));
                        p->armed = false;
                        ++fired;
                    });
                });
                static long const pick[] = {999000, 999999, 1000000, 1000001, 1100000};
                long const us = src.coin() ? src.pick(pick) : src.chance(1, 3) ? src.range(0, 999999) : src.range(1000000, 1300000);
                p->next = src.chance(1, 3) ? (src.coin() ? src.range(300000, 1100000) : -1) : 0;
                arm(*p, us);
                if (p->next) p->changeAt = usNow() + src.range(1, 900000);
            }
            return true;
        }
        std::int64_t const now = usNow();
        bool waits = false;
        for (auto& t : ts)
        {
            if (t->changeAt && now >= t->changeAt)
            {
                t->changeAt = 0;
                ++changed;
                if (t->next > 0) arm(*t, t->next);
                else { t->timer->stop(); t->armed = false; }
            }
            if (t->changeAt) waits = true;
            if (!t->armed) continue;
            waits = true;
            // the loop went round often since it was due, and it has not been called
            if (now > t->due + 100000) PBT_REQUIRE(++t->late < 300, "a timer of %ld us has not fired %lld us after it was due", t->interval, (long long)(now - t->due));
        }
        usleep(1000);
        return waits || now < last + 1200000;
    });
    ts.clear();
    if (ctx.wantText) ctx.say(fmt("%u timers, %u fired, %u changed", nt, fired, changed));
    ctx.labels["long timers fired"] += fired;
    if (fired >= 4 && changed >= 1) ctx.nontrivial();
}

// ------------------------------------------------------------------ C19 links

struct Wire
{
    LinkPtr link;
    Sock peer;
    unsigned id{0};
    bool connected{false};
    unsigned connects{0}, errors{0};
    std::size_t sent{0};                 // bytes the peer wrote
    std::string got;
    bool sawEnd{false};                  // receive reported the end, or an error event came
    bool fin{false}, rst{false};
    std::string ok, part;                // bytes accepted by send; the last refused one
    std::string seen;                    // bytes the peer read
    bool dead{false};
    std::size_t chunk{512};
};

void c19(Src& src, Ctx& ctx)
{
    quiet(src.chance(1, 30));
    Loop l;
    std::vector<std::unique_ptr<Wire>> ws;
    AcceptorPtr acceptor;
    Addr aaddr{};
    Wire* incoming = nullptr;
    unsigned n = 0, moved = 0, ends = 0, greeted = 0, blocked = 0, refused = 0, reconnects = 0;
    std::function<bool()> waiting;
    char const* waitingFor = "";
    auto wait = [&](char const* what, std::function<bool()> f) { waitingFor = what; waiting = f; };

    auto handler = [&](Wire* w)
    {
        return [&, w](LinkEvent ev)
        {
            l.guard([&]
            {
                switch (ev)
                {
                case LinkEvent::connected: w->connects += 1; PBT_REQUIRE(w->connects == 1 && !w->errors, "connected is reported %u times", w->connects); w->connected = true; break;
                case LinkEvent::error:
                    w->errors += 1;
                    PBT_REQUIRE(w->errors == 1, "an error is reported twice");
                    PBT_REQUIRE(w->link->fileDescriptor() == -1, "a link that reports an error keeps its descriptor");
                    PBT_REQUIRE(w->rst || w->fin || w->dead, "an error is reported on a healthy connection");
                    PBT_REQUIRE(!w->fin || w->rst || w->got.size() == w->sent, "the connection was closed in order, but only %zu of %zu bytes were received", w->got.size(), w->sent);
                    w->sawEnd = true;
                    break;
                case LinkEvent::data:
                {
                    PBT_REQUIRE(w->connected, "data is reported before the connection");
                    std::vector<std::uint8_t> buf(w->chunk);
                    for (;;)
                    {
                        LinkResult const r = w->link->receive(buf.data(), buf.size());
                        if (r.status == LinkResult::ok)
                        {
                            PBT_REQUIRE(r.len > 0 && static_cast<std::size_t>(r.len) <= buf.size(), "receive reports success with %d bytes", r.len);
                            w->got.append(reinterpret_cast<char*>(buf.data()), r.len);
                            continue;
                        }
                        if (r.status == LinkResult::na) break;
                        PBT_REQUIRE(w->fin || w->rst, "a healthy connection is reported as ended");
                        if (r.status == LinkResult::closed) PBT_REQUIRE(w->rst || w->got.size() == w->sent, "the end is reported after %zu of %zu bytes", w->got.size(), w->sent);
                        w->sawEnd = true;
                        w->link->close();
                        break;
                    }
                    break;
                }
                }
                PBT_REQUIRE(w->got.size() <= w->sent && w->got == pattern(w->id, 0, w->got.size()), "the received bytes differ from what the peer sent");
            });
        };
    };
    auto drain = [&](Wire& w, std::size_t limit = ~std::size_t(0))
    {
        w.seen += w.peer.take(limit);
        std::size_t const k = std::min(w.seen.size(), w.ok.size());
        PBT_REQUIRE(w.seen.compare(0, k, w.ok, 0, k) == 0, "the peer received other bytes than were sent");
        if (w.seen.size() > w.ok.size())
        {
            std::string const rest = w.seen.substr(w.ok.size());
            PBT_REQUIRE(rest.size() <= w.part.size() && w.part.compare(0, rest.size(), rest) == 0, "the peer received %zu bytes that were not sent", rest.size());
        }
    };
    auto alive = [&](Wire& w) { return !w.dead && !w.fin && !w.rst && w.connected && !w.sawEnd; };

    l.go([&]() -> bool
    {
        if (waiting)
        {
            if (!l.until(waiting(), waitingFor)) return true;
            waiting = {};
        }
        if (n++ >= 80 || !src.more(40))
        {
            // finally: everything that was accepted arrives
            for (auto& w : ws) if (alive(*w) && w->part.empty())
            {
                Wire* p = w.get();
                n = 100;
                if (p->seen.size() < p->ok.size()) { wait("bytes that were reported as sent never arrive", [&, p] { drain(*p); return p->seen.size() >= p->ok.size(); }); return true; }
                if (p->got.size() < p->sent) { wait("bytes of the peer are never reported", [p] { return p->got.size() == p->sent; }); return true; }
            }
            return false;
        }
        if (ws.empty() || (ws.size() < 6 && src.chance(1, 6)))
        {
            auto x = std::make_unique<Wire>();
            Wire* w = x.get();
            w->id = ws.size();
            w->chunk = src.pick({std::size_t(1), std::size_t(7), std::size_t(512), std::size_t(4096), std::size_t(70000)});
            if (w->chunk == 1) w->chunk = 1 + src.below(3);
            ws.push_back(std::move(x));
            switch (src.below(4))
            {
            case 0:         // incoming
                if (!acceptor)
                {
                    acceptor = l.r.createAcceptor([&]
                    {
                        l.guard([&]
                        {
                            PBT_REQUIRE(incoming, "an accept event without a connection");
                            Wire* k = incoming;
                            incoming = nullptr;
                            k->link = l.r.createLink(handler(k));
                            acceptor->accept(*k->link);
                            k->connected = true;
                        });
                    });
                    for (unsigned k = 0;; ++k) { aaddr = freshAddr(); try { acceptor->listen(la(aaddr)); break; } catch (std::exception const&) { if (k > 20) throw Discard{}; } }
                }
                incoming = w;
                w->peer = Sock::dial(aaddr);
                PBT_REQUIRE(w->peer.fd >= 0, "nobody listens on the configured address");
                if (src.coin()) { std::size_t const k = 1 + src.below(3000); w->sent = k; w->peer.put(pattern(w->id, 0, k)); ++greeted; }
                wait("an incoming connection is never reported", [w] { return w->connected; });
                return true;
            case 1:         // refused
            {
                Addr a;
                { Sock s = Sock::listenAnywhere(a); }
                w->dead = true;
                ++refused;
                w->link = l.r.createLink(handler(w));
                try { w->link->connect(la(a)); }
                catch (std::exception const&) { return true; }
                wait("a refused connection attempt is never reported", [w] { return w->errors == 1; });
                return true;
            }
            default:
            {
                Addr a;
                Sock s = Sock::listenAnywhere(a);
                w->link = l.r.createLink(handler(w));
                w->link->connect(la(a));
                w->peer = s.accept(5000);
                PBT_REQUIRE(w->peer.fd >= 0, "a connection attempt never reaches the peer");
                if (src.coin()) { std::size_t const k = 1 + src.below(3000); w->sent = k; w->peer.put(pattern(w->id, 0, k)); ++greeted; }
                wait("an established connection is never reported", [w] { return w->connected; });
                return true;
            }
            }
        }
        Wire& w = *ws[src.below(ws.size())];
        if (w.dead || !w.connected) return true;
        unsigned const op = src.below(12);
        if (ctx.wantText) ctx.say(fmt("link %u op %u: sent %zu got %zu ok %zu seen %zu%s%s%s%s", w.id, op, w.sent, w.got.size(), w.ok.size(), w.seen.size(), w.fin ? " fin" : "", w.rst ? " rst" : "", w.dead ? " dead" : "", w.sawEnd ? " end" : ""));
        switch (op)
        {
        case 0: case 1: case 2:
            if (!alive(w)) break;
            { std::size_t const k = 1 + src.below(src.coin() ? 30 : 8000); w.peer.put(pattern(w.id, w.sent, k)); w.sent += k; moved += k; }
            if (src.coin()) { Wire* p = &w; wait("bytes of the peer are never reported", [p] { return p->got.size() == p->sent || p->sawEnd; }); }
            break;
        case 3: case 4: case 5:
        {
            if (w.sawEnd || !w.part.empty()) break;
            std::string const d = pattern(w.id + 100, w.ok.size(), 1 + src.below(src.coin() ? 40 : 5000));
            int const rc = w.link->send(d.data(), d.size());
            if (rc > 0) w.ok += d; else { PBT_REQUIRE(!alive(w) || w.ok.size() > w.seen.size() + 10000, "a small write fails on a healthy connection"); w.part = d; }
            moved += d.size();
            break;
        }
        case 6:         // the peer does not read: at some point the link must say so
        {
            if (!alive(w) || !w.part.empty() || src.below(3)) break;
            for (unsigned k = 0; k < 400 && w.part.empty(); ++k)
            {
                std::string const d = pattern(w.id + 100, w.ok.size(), 20000 + src.below(60000));
                if (w.link->send(d.data(), d.size()) > 0) w.ok += d; else w.part = d;
            }
            PBT_REQUIRE(!w.part.empty(), "the link takes any amount of data that nobody reads");
            ++blocked;
            break;
        }
        case 7: if (w.peer.fd >= 0) drain(w, src.coin() ? ~std::size_t(0) : 1 + src.below(3000)); break;
        case 8:
        {
            if (!alive(w) || src.below(3) == 0) break;
            ++ends;
            w.fin = true;
            drain(w);                                   // unread bytes would turn the close into a reset
            bool const exact = w.part.empty() && w.seen.size() == w.ok.size();
            if (src.coin()) ::shutdown(w.peer.fd, SHUT_WR); else { w.peer.shut(); if (!exact) w.rst = true; }
            Wire* p = &w;
            wait("the peer closed, but the link never says so", [p] { return p->sawEnd; });
            break;
        }
        case 9:
        {
            if (!alive(w) || src.below(3) == 0) break;
            ++ends;
            w.rst = true;
            w.peer.reset();
            Wire* p = &w;
            if (src.coin())
            {
                // the code writes before it learns of the reset
                unsigned k = 1 + src.below(4);
                while (k--) { std::string const d(1 + src.below(100), 'x'); (void)w.link->send(d.data(), d.size()); }
            }
            wait("the connection was reset, but the link never says so", [p] { return p->sawEnd; });
            break;
        }
        case 10:
        {
            if (!alive(w) || w.got.size() != w.sent || !w.part.empty()) break;
            ++ends;
            w.link->close();
            w.dead = true;
            PBT_REQUIRE(w.link->fileDescriptor() == -1, "a closed link keeps its descriptor");
            PBT_REQUIRE(w.link->send("x", 1) < 0, "a closed link accepts data");
            Wire* p = &w;
            wait("a link was closed, but the peer never sees everything and the end", [&, p] { drain(*p); return p->peer.ended && p->seen.size() == p->ok.size(); });
            break;
        }
        default:
        {
            // the same link is used for a new connection
            if (!(w.sawEnd || w.dead) || !w.link || w.connects == 0) break;
            w.link->close();
            Addr a;
            Sock s = Sock::listenAnywhere(a);
            w.connected = false; w.connects = w.errors = 0; w.sent = 0; w.got.clear(); w.sawEnd = w.fin = w.rst = w.dead = false; w.ok.clear(); w.part.clear(); w.seen.clear();
            w.peer = Sock();
            w.link->connect(la(a));
            w.peer = s.accept(5000);
            PBT_REQUIRE(w.peer.fd >= 0, "a connection attempt never reaches the peer");
            ++reconnects;
            Wire* p = &w;
            wait("an established connection is never reported", [p] { return p->connected; });
            break;
        }
        }
        return true;
    });
    if (ctx.wantText) ctx.say(fmt("%zu links, %u bytes moved, %u ended, %u refused, %u reused, %u with data before the connect event, %u blocked", ws.size(), moved, ends, refused, reconnects, greeted, blocked));
    ws.clear();
    acceptor.reset();
    ctx.labels["connections ended"] += ends;
    ctx.labels["data before the connect event"] += greeted;
    ctx.labels["peer does not read"] += blocked;
    ctx.labels["links used again"] += reconnects;
    if (moved && ends) ctx.nontrivial();
}

// Several links have something to report at once and their handlers close each other, or close and connect them anew.
void c19closing(Src& src, Ctx& ctx)
{
    quiet(false);
    struct Case;
    struct X { Case* c; unsigned k; LinkPtr link; Sock peer; bool connected{false}, gone{false}; unsigned events{0}; std::vector<std::pair<unsigned, unsigned>> acts; unsigned ending{0}; Addr addr2{}; Sock listen2, peer2; bool anew{false}, connected2{false}, greeted{false}; std::string got2; };
    struct Case { Loop l; std::vector<std::unique_ptr<X>> xs; unsigned closed{0}, anew{0}; } c;
    unsigned const n = 2 + src.below(6);
    for (unsigned k = 0; k < n; ++k)
    {
        c.xs.push_back(std::make_unique<X>());
        X& x = *c.xs.back();
        x.c = &c;
        x.k = k;
        x.ending = src.below(4);
        unsigned m = src.below(3);
        while (m--) { unsigned const j = src.below(n); x.acts.push_back({j, src.below(3)}); }
    }
    unsigned phase = 0, idle = 0;
    c.l.byTimer = src.coin();
    c.l.go([&]() -> bool
    {
        Loop& l = c.l;
        if (phase == 0)
        {
            for (auto& p : c.xs)
            {
                X* x = p.get();
                Addr a;
                Sock s = Sock::listenAnywhere(a);
                x->listen2 = Sock::listenAnywhere(x->addr2);
                x->link = l.r.createLink([x](LinkEvent ev)
                {
                    x->c->l.guard([x, ev]
                    {
                        PBT_REQUIRE(!x->gone, "link %u was closed by a handler and still reports %s", x->k, ev == LinkEvent::data ? "data" : ev == LinkEvent::error ? "an error" : "a connection");
                        if (x->anew)
                        {
                            PBT_REQUIRE(ev != LinkEvent::error, "link %u was closed and connected again, and an error is reported on its new, healthy connection", x->k);
                            if (ev == LinkEvent::connected) { PBT_REQUIRE(!x->connected2, "the new connection of link %u is reported twice", x->k); x->connected2 = true; return; }
                            PBT_REQUIRE(x->connected2, "link %u reports data before its new connection is reported", x->k);
                            std::uint8_t buf[256];
                            for (;;)
                            {
                                auto const r = x->link->receive(buf, sizeof(buf));
                                PBT_REQUIRE(r.status == LinkResult::ok || r.status == LinkResult::na, "link %u was closed and connected again, and the end of its new, healthy connection is reported", x->k);
                                if (r.status == LinkResult::na) break;
                                x->got2.append(reinterpret_cast<char const*>(buf), r.len);
                            }
                            return;
                        }
                        if (ev == LinkEvent::connected) { x->connected = true; return; }
                        x->events += 1;
                        auto const acts = x->acts;
                        Case& cs = *x->c;
                        unsigned const me = x->k;
                        if (ev == LinkEvent::data)
                        {
                            std::uint8_t buf[256];
                            for (;;) { auto const r = x->link->receive(buf, sizeof(buf)); if (r.status == LinkResult::ok) continue; if (r.status != LinkResult::na) { x->gone = true; x->link->close(); } break; }
                        }
                        else x->gone = true;
                        (void)me;
                        for (auto& act : acts)
                        {
                            X& o = *cs.xs[act.first];
                            if (act.second == 2)
                            {
                                if (!o.link || o.anew) continue;
                                cs.anew += 1;
                                o.anew = true;
                                o.gone = false;
                                o.link->close();
                                o.link->connect(la(o.addr2));
                                continue;
                            }
                            if (!o.gone) cs.closed += 1;
                            o.gone = true;
                            if (act.second) o.link.reset(); else if (o.link) o.link->close();
                        }
                    });
                });
                x->link->connect(la(a));
                x->peer = s.accept(3000);
                PBT_REQUIRE(x->peer.fd >= 0, "a connection attempt never reaches the peer");
            }
            phase = 1;
            return true;
        }
        if (phase == 1)
        {
            bool all = true;
            for (auto& x : c.xs) all = all && x->connected;
            if (!l.until(all, "an established connection is never reported")) return true;
            for (auto& x : c.xs) switch (x->ending)
            {
            case 0: case 1: x->peer.put("hello"); break;
            case 2: x->peer.shut(); break;
            default: x->peer.reset(); break;
            }
            phase = 2;
            return true;
        }
        bool all = true;
        if (phase == 2)
        {
            for (auto& x : c.xs) all = all && (x->gone || x->events || x->anew);
            if (!l.until(all, "a link never reports what its peer did")) return true;
            phase = 3;
        }
        for (auto& x : c.xs)
        {
            if (!x->anew || x->gone) continue;
            if (x->peer2.fd < 0) x->peer2 = x->listen2.accept(3000);
            PBT_REQUIRE(x->peer2.fd >= 0, "a new connection attempt never reaches the peer");
            if (x->connected2 && !x->greeted) { x->peer2.put("again"); x->greeted = true; }
            all = all && x->got2 == "again";
        }
        if (!l.until(all, "the new connection of a link is not reported, or not what its peer sent")) return true;
        return idle++ < 2;
    });
    ctx.labels["closed by another handler"] += c.closed;
    ctx.labels["connected anew by a handler"] += c.anew;
    if (c.closed || c.anew) ctx.nontrivial();
    for (auto& x : c.xs) x->link.reset();
}

// ------------------------------------------------------------------ C20 addresses

void c20map(Src& src, Ctx& ctx)
{
    Addr a{};
    for (auto& b : a.ip) b = static_cast<std::uint8_t>(src.integer(8));
    a.port = static_cast<std::uint16_t>(src.integer(16));
    LinkAddr l = la(a);
    for (unsigned k = 6; k < sizeof(l.data); ++k) l.data[k] = static_cast<char>(src.below(256));
    std::uint32_t const ip = std::uint32_t(a.ip[0]) << 24 | a.ip[1] << 16 | a.ip[2] << 8 | a.ip[3];
    if (ctx.wantText) ctx.say(fmt("%u.%u.%u.%u:%u", a.ip[0], a.ip[1], a.ip[2], a.ip[3], a.port));
    PBT_REQUIRE(ipv4addr(l) == ip, "address %08x for %08x", ipv4addr(l), ip);
    PBT_REQUIRE(ipv4port(l) == a.port, "port %u for %u", ipv4port(l), a.port);
    ctx.nontrivial();
}

void c20sockets(Src& src, Ctx& ctx)
{
    quiet(false);
    Loop l;
    LinkPtr link, in;
    AcceptorPtr acceptor;
    Addr a{{127, 0, 0, 1}, 0}, b{{127, 0, 0, 1}, 0};
    unsigned phase = 0;
    bool connected = false, failed = false, accepted = false;
    Sock dialled, srv, peer;
    auto gen = [&](Addr& x)
    {
        x.ip[1] = static_cast<std::uint8_t>(src.integer(8)); x.ip[2] = static_cast<std::uint8_t>(src.integer(8)); x.ip[3] = static_cast<std::uint8_t>(1 + src.below(254));
        x.port = static_cast<std::uint16_t>(src.integer(16));
        if (x.port == 0) x.port = 1;
        if (x.ip[1] == 0 && x.ip[2] == 0 && x.ip[3] == 1) x.ip[3] = 200;
    };
    gen(a); gen(b);
    if (ctx.wantText) ctx.say(fmt("listen on 127.%u.%u.%u:%u, connect to 127.%u.%u.%u:%u", a.ip[1], a.ip[2], a.ip[3], a.port, b.ip[1], b.ip[2], b.ip[3], b.port));
    bool busy = false;
    l.go([&]() -> bool
    {
        if (phase == 0)
        {
            { Sock probe = Sock::listen(a); if (probe.fd < 0) { busy = true; return false; } }
            acceptor = l.r.createAcceptor([&] { in = l.r.createLink([](LinkEvent) {}); acceptor->accept(*in); accepted = true; });
            acceptor->listen(la(a));
            dialled = Sock::dial(a);
            PBT_REQUIRE(dialled.fd >= 0, "nobody listens on the configured address");
            srv = Sock::listen(b);
            if (srv.fd < 0) { busy = true; return false; }
            link = l.r.createLink([&](LinkEvent e) { (e == LinkEvent::connected ? connected : failed) = true; });
            try { link->connect(la(b)); } catch (std::exception const& e) { fail(fmt("connect: %s", e.what())); }
            peer = srv.accept(3000);
            PBT_REQUIRE(peer.fd >= 0, "the connection attempt does not reach the configured address");
            phase = 1;
        }
        return !l.until(accepted && connected, "no connection on the configured address");
    });
    acceptor.reset();
    link.reset();
    in.reset();
    if (busy) throw Discard{};
    ctx.nontrivial();
}

// ------------------------------------------------------------------ C21 resources

void c21(Src& src, Ctx& ctx)
{
    quiet(src.chance(1, 30));
    epollFaults = 0;
    struct rlimit keep;
    getrlimit(RLIMIT_NOFILE, &keep);
    auto limit = [&](bool low) { struct rlimit r = keep; if (low) r.rlim_cur = 3; setrlimit(RLIMIT_NOFILE, &r); };
    unsigned base = 0, afterAll = 0;
    unsigned refusedFull = 0, faults = 0, created = 0;
    {
        Loop l;
        l.byTimer = true;
        std::vector<TimerPtr> timers;
        struct K { LinkPtr link; Sock peer; };
        std::vector<K> links;
        struct A { AcceptorPtr acc; Addr addr{}; bool listening{false}; LinkPtr* into{nullptr}; bool fail{false}; };
        std::vector<std::unique_ptr<A>> accs;
        unsigned n = 0, phase = 0, fired = 0, full = 0;
        bool base0 = false;
        constexpr std::size_t cap = 32;
        auto timer = [&]() -> bool
        {
            // the loop of the harness owns one timer itself
            bool const room = timers.size() < cap - 1;
            try { timers.push_back(l.r.createTimer([&] { ++fired; })); ++created; return true; }
            catch (std::exception const& e) { return !room; }
        };
        auto link = [&]() -> bool
        {
            bool const room = links.size() < cap;
            try { links.push_back(K{l.r.createLink([](LinkEvent) {}), Sock()}); ++created; return true; }
            catch (std::exception const&) { return !room; }
        };
        auto acceptor = [&]() -> bool
        {
            bool const room = accs.size() < cap;
            auto x = std::make_unique<A>();
            A* p = x.get();
            try
            {
                x->acc = l.r.createAcceptor([&, p]
                {
                    LinkPtr k = l.r.createLink([](LinkEvent) {});
                    p->acc->accept(*k);
                    links.push_back(K{std::move(k), Sock()});
                });
                accs.push_back(std::move(x));
                ++created;
                return true;
            }
            catch (std::exception const&) { return !room; }
        };
        auto settleDials = [&] { return true; };
        l.go([&]() -> bool
        {
            if (!base0) { base0 = true; base = openDescriptors(); }
            switch (phase)
            {
            case 0:
                if (n++ >= 80 || !src.more(30)) { phase = 1; return true; }
                switch (src.below(12))
                {
                case 0: PBT_REQUIRE(timer(), "a timer is refused although only %zu exist", timers.size()); break;
                case 1: PBT_REQUIRE(link(), "a link is refused although only %zu exist", links.size()); break;
                case 2: PBT_REQUIRE(acceptor(), "an acceptor is refused although only %zu exist", accs.size()); break;
                case 3:         // all there are
                {
                    unsigned const what = src.below(3);
                    for (unsigned k = 0; k < cap + 3; ++k) PBT_REQUIRE(what == 0 ? timer() : what == 1 ? link() : acceptor(), "creation %u is refused", k);
                    std::size_t const have = what == 0 ? timers.size() + 1 : what == 1 ? links.size() : accs.size();
                    PBT_REQUIRE(have == cap, "%zu exist instead of %zu", have, cap);
                    ++refusedFull;
                    break;
                }
                case 4: { unsigned k = 1 + src.below(6); while (k-- && !timers.empty()) { std::size_t const at = src.below(timers.size()); timers.erase(timers.begin() + at); } break; }
                case 5: { unsigned k = 1 + src.below(6); while (k-- && !links.empty()) { std::size_t const at = src.below(links.size()); links.erase(links.begin() + at); } break; }
                case 6: { unsigned k = 1 + src.below(6); while (k-- && !accs.empty()) { std::size_t const at = src.below(accs.size()); accs.erase(accs.begin() + at); } break; }
                case 7:         // connect, possibly with a fault
                {
                    if (links.empty()) break;
                    K& k = links[src.below(links.size())];
                    if (k.link->fileDescriptor() != -1) { if (src.coin()) { k.link->close(); k.peer.shut(); } break; }
                    Addr a;
                    Sock s = Sock::listenAnywhere(a);
                    unsigned const f = src.below(5);
                    if (f == 1) limit(true);
                    if (f == 2) epollFaults = 1;
                    if (f == 3) a.ip[0] = 224 + src.below(16);        // there is no way to a multicast address
                    bool threw = false;
                    try { k.link->connect(la(a)); } catch (std::exception const&) { threw = true; }
                    limit(false);
                    epollFaults = 0;
                    if (f >= 1 && f <= 3) { ++faults; PBT_REQUIRE(threw, "a failed connect goes unnoticed"); PBT_REQUIRE(k.link->fileDescriptor() == -1, "a failed connect leaves a descriptor"); }
                    else { PBT_REQUIRE(!threw, "connect fails"); k.peer = s.accept(3000); PBT_REQUIRE(k.peer.fd >= 0, "a connection attempt never reaches the peer"); }
                    break;
                }
                case 8:         // timer creation with a fault
                {
                    if (timers.size() >= cap - 1) break;
                    unsigned k = 1 + src.below(40);
                    bool const low = src.coin();
                    while (k--)
                    {
                        ++faults;
                        if (low) limit(true); else epollFaults = 1;
                        bool threw = false;
                        try { TimerPtr t = l.r.createTimer([] {}); } catch (std::exception const&) { threw = true; }
                        limit(false);
                        epollFaults = 0;
                        PBT_REQUIRE(threw, "a failed timer creation goes unnoticed");
                    }
                    break;
                }
                case 9:         // listen, possibly with a fault
                {
                    if (accs.empty()) break;
                    A& a = *accs[src.below(accs.size())];
                    if (a.listening) { if (src.coin()) { a.acc->close(); a.listening = false; } break; }
                    unsigned const f = src.below(6);
                    Addr x = freshAddr();
                    Sock other;
                    if (f == 3) other = Sock::listenAnywhere(x);      // the port is taken
                    if (f == 1) limit(true);
                    if (f == 2) epollFaults = 1;
                    if (f == 4) listenFaults = 1;
                    bool threw = false;
                    try { a.acc->listen(la(x)); } catch (std::exception const&) { threw = true; }
                    limit(false);
                    epollFaults = 0;
                    listenFaults = 0;
                    if (f >= 1 && f <= 4) { ++faults; PBT_REQUIRE(threw, "a failed listen goes unnoticed"); }
                    if (!threw) { a.listening = true; a.addr = x; }
                    break;
                }
                case 10:        // accept with a fault: the link stays unused
                {
                    A* a = nullptr;
                    for (auto& x : accs) if (x->listening) a = x.get();
                    if (!a || links.size() >= cap - 1) break;
                    Sock s = Sock::dial(a->addr);
                    if (s.fd < 0) break;
                    LinkPtr k = l.r.createLink([](LinkEvent) {});
                    ++faults;
                    bool const low = src.coin();
                    if (low) limit(true); else epollFaults = 1;
                    bool threw = false;
                    try { a->acc->accept(*k); } catch (std::exception const&) { threw = true; }
                    limit(false);
                    epollFaults = 0;
                    PBT_REQUIRE(threw, "a failed accept goes unnoticed");
                    PBT_REQUIRE(k->fileDescriptor() == -1, "a failed accept leaves descriptor %d in the link", k->fileDescriptor());
                    if (low) { LinkPtr again = l.r.createLink([](LinkEvent) {}); a->acc->accept(*again); }    // still in the backlog
                    break;
                }
                default: if (!timers.empty()) { TimerPtr& t = timers[src.below(timers.size())]; if (src.coin()) t->start(src.below(2000)); else t->stop(); } break;
                }
                return true;
            case 1:
                timers.clear();
                links.clear();
                accs.clear();
                afterAll = openDescriptors();
                PBT_REQUIRE(afterAll == base, "%u descriptors are open after everything was released, %u before", afterAll, base);
                // and everything is available again, and works
                for (unsigned k = 0; k + 1 < cap; ++k) { PBT_REQUIRE(timer(), "timer %u of 31 is refused after everything was released", k + 1); timers.back()->start(0); }
                for (unsigned k = 0; k < cap; ++k) PBT_REQUIRE(link(), "link %u of 32 is refused after everything was released", k + 1);
                for (unsigned k = 0; k < cap; ++k) PBT_REQUIRE(acceptor(), "acceptor %u of 32 is refused after everything was released", k + 1);
                fired = 0;
                full = timers.size();
                {
                    Addr a;
                    Sock s = Sock::listenAnywhere(a);
                    for (auto& k : links) { k.link->connect(la(a)); k.peer = s.accept(3000); PBT_REQUIRE(k.peer.fd >= 0, "a connection attempt never reaches the peer"); }
                }
                phase = 2;
                return true;
            default:
                if (!l.until(fired >= full, "not every one of 31 timers fires")) return true;
                return false;
            }
        });
        (void)settleDials;
    }
    if (ctx.wantText) ctx.say(fmt("%u objects, %u times all in use, %u injected failures", created, refusedFull, faults));
    ctx.labels["injected failures"] += faults;
    ctx.labels["all in use"] += refusedFull;
    if (faults && created >= 3) ctx.nontrivial();
}

// The same address again and again: connections of the time before do not stand in the way.
void c21again(Src& src, Ctx& ctx)
{
    quiet(false);
    epollFaults = 0;
    Loop l;
    Addr a{};
    { Sock probe = Sock::listenAnywhere(a); }
    unsigned const rounds = 2 + src.below(5);
    unsigned round = 0, phase = 0, want = 0, served = 0;
    AcceptorPtr acceptor;
    struct K { LinkPtr link; Sock peer; };
    std::vector<K> conns;
    std::vector<LinkPtr> accepted;
    bool const oneObject = src.coin();
    l.go([&]() -> bool
    {
        if (phase == 0)
        {
            if (!acceptor || !oneObject)
            {
                acceptor.reset();
                acceptor = l.r.createAcceptor([&] { accepted.push_back(l.r.createLink([](LinkEvent) {})); acceptor->accept(*accepted.back()); });
            }
            try { acceptor->listen(la(a)); } catch (std::exception const& e) { fail(fmt("listening on the address again after %u connections: %s", served, e.what())); }
            if (src.chance(1, 3))
            {
                AcceptorPtr other = l.r.createAcceptor([] {});
                bool refused = false;
                try { other->listen(la(a)); } catch (std::exception const&) { refused = true; }
                PBT_REQUIRE(refused, "two listen on the same address");
            }
            want = src.below(5);
            for (unsigned k = 0; k < want; ++k)
            {
                K c;
                c.peer = Sock::dial(a);
                PBT_REQUIRE(c.peer.fd >= 0, "nobody listens on the address in round %u", round);
                conns.push_back(std::move(c));
            }
            phase = 1;
        }
        if (!l.until(accepted.size() == want, "a connection is not accepted")) return true;
        served += want;
        for (unsigned k = 0; k < want; ++k) conns[conns.size() - want + k].link = std::move(accepted[k]);
        accepted.clear();
        // the connections end before, with or after the listening, by either side
        bool const before = src.coin();
        if (!before) { if (oneObject) acceptor->close(); else acceptor.reset(); }
        while (!conns.empty() && src.below(8))
        {
            std::size_t const k = src.below(conns.size());
            switch (src.below(4))
            {
            case 0: case 1: conns[k].link.reset(); conns[k].peer.shut(); break;
            case 2: conns[k].peer.shut(); conns[k].link.reset(); break;
            default: conns[k].peer.reset(); conns[k].link.reset(); break;
            }
            conns.erase(conns.begin() + k);
        }
        if (before) { if (oneObject) acceptor->close(); else acceptor.reset(); }
        phase = 0;
        return ++round < rounds && conns.size() < 24;
    });
    acceptor.reset();
    conns.clear();
    if (ctx.wantText) ctx.say(fmt("%u rounds on one address, %u connections", round, served));
    ctx.labels["connections"] += served;
    if (served >= 2) ctx.nontrivial();
}

// ------------------------------------------------------------------ long lives

unsigned longCount(Src& src, unsigned most)
{
    unsigned n;
    switch (src.below(6))
    {
    case 0: n = 250 + src.below(3000); break;
    case 1: case 2: n = 253 + src.below(8); break;
    case 3: n = 1020 + src.below(10); break;
    default: n = (1u << (6 + src.below(8))) + src.below(8); break;
    }
    return std::min(n, most);
}

// Tens of thousands of messages in the life of one event loop.
void c16long(Src& outer, Ctx& ctx)
{
    quiet(false);
    Src src = outer.fork();
    unsigned const total = src.coin() ? 65530 + src.below(3000) : longCount(src, 9000);
    unsigned const most = 1 + src.below(60);
    Loop l;
    l.byTimer = true;
    std::uint32_t seq = 0, last = 0;
    l.r.registerHandler(100, [&](MsgInterface const& mi)
    {
        Blob const& b = static_cast<Blob const&>(mi);
        l.guard([&]
        {
            BlobStore::check(b);
            PBT_REQUIRE(b.seq == last + 1, "message %u follows message %u", b.seq, last);
            last = b.seq;
        });
    });
    l.go([&]() -> bool
    {
        if (last != seq) { l.until(false, "a message never arrives"); return true; }
        l.until(true, "");
        if (seq >= total) return false;
        unsigned n = 1 + src.below(most);
        while (n--) { BlobStore s(100, 0, src.below(16) ? sizeof(Blob) + src.below(80) : blobSize(src), 1, ++seq); l.r.send(s.b); }
        return true;
    });
    ctx.labels["messages"] += seq;
    if (ctx.wantText) ctx.say(fmt("%u messages, up to %u at once", seq, most));
    ctx.nontrivial();
}

// Handlers that throw hundreds of times in a row: the loop goes on.
void c17long(Src& outer, Ctx& ctx)
{
    quiet(false);
    Src src = outer.fork();
    unsigned const total = longCount(src, 3000);
    unsigned const what = src.below(4);        // 0 messages, 1 a timer, 2 a link, 3 all
    Loop l;
    l.byTimer = true;
    unsigned thrown = 0, sent = 0, handled = 0, started = 0, fired = 0, healthy = 0;
    std::size_t put = 0, got = 0;
    bool throwing = true, stage = false;
    LinkPtr link;
    TimerPtr timer, good;
    Sock peer;
    l.r.registerHandler(100, [&](MsgInterface const&) { ++handled; if (throwing) { ++thrown; boom(thrown); } });
    l.go([&]() -> bool
    {
        if (!timer)
        {
            timer = l.r.createTimer([&] { ++fired; if (throwing) { ++thrown; boom(thrown); } });
            good = l.r.createTimer([&] { ++healthy; });
            Addr a;
            Sock srv = Sock::listenAnywhere(a);
            link = l.r.createLink([&](LinkEvent ev)
            {
                if (ev != LinkEvent::data) return;
                std::uint8_t buf[64];
                LinkResult r;
                while ((r = link->receive(buf, sizeof(buf))).status == LinkResult::ok && r.len > 0) got += r.len;
                if (throwing) { ++thrown; boom(thrown); }
            });
            link->connect(la(a));
            peer = srv.accept(5000);
            PBT_REQUIRE(peer.fd >= 0, "the connection attempt never reaches the peer");
            return true;
        }
        if (!l.until(handled == sent && fired == started && got == put, "after handlers threw, a message, timer or link is not served anymore")) return true;
        if (thrown >= total && !stage) { throwing = false; stage = true; good->start(100); sent += 1; BlobStore s(100, 0, sizeof(Blob), 1, sent); l.r.send(s.b); started += 1; timer->start(50); put += 5; peer.put("hello"); return true; }
        if (stage) { if (!l.until(healthy == 1, "after handlers threw, a timer never fires")) return true; return false; }
        if (what == 0 || what == 3) { unsigned n = 1 + src.below(30); while (n--) { ++sent; BlobStore s(100, 0, sizeof(Blob), 1, sent); l.r.send(s.b); } }
        if (what == 1 || what == 3) { ++started; timer->start(src.below(20)); }
        if (what == 2 || what == 3) { put += 1; peer.put("x"); }
        return true;
    });
    timer.reset(); good.reset(); link.reset();
    ctx.labels["handlers that threw"] += thrown;
    if (ctx.wantText) ctx.say(fmt("%u handlers threw (kind %u)", thrown, what));
    ctx.nontrivial();
}

// Timers started hundreds of times.
void c18again(Src& outer, Ctx& ctx)
{
    quiet(false);
    Src src = outer.fork();
    Loop l;
    struct T { TimerPtr timer; bool armed{false}; std::int64_t due{0}; long interval{0}; unsigned fired{0}; };
    std::vector<std::unique_ptr<T>> ts;
    unsigned const nt = 1 + src.below(24);
    unsigned const total = 260 + src.below(src.below(4) ? 60 : 400);
    unsigned const top = src.pick({300u, 900u, 1500u});
    unsigned stopped = 0;
    auto arm = [&](T& t)
    {
        t.interval = src.below(top);
        t.due = usNow() + t.interval;
        t.armed = true;
        t.timer->start(t.interval);
    };
    l.go([&]() -> bool
    {
        if (ts.empty()) for (unsigned k = 0; k < nt; ++k)
        {
            ts.push_back(std::make_unique<T>());
            T* p = ts.back().get();
            p->timer = l.r.createTimer([&, p]
            {
                l.guard([&]
                {
                    PBT_REQUIRE(p->armed, "a timer fired that is not running");
                    std::int64_t const t = usNow();
                    PBT_REQUIRE(t + 1 >= p->due, "a timer of %ld us fired %lld us early, at its expiry %u", p->interval, (long long)(p->due - t), p->fired + 1);
                    p->armed = false;
                    p->fired += 1;
                });
            });
        }
        bool more = false;
        for (auto& t : ts)
        {
            if (t->armed)
            {
                PBT_REQUIRE(usNow() < t->due + patience, "a running timer never fired after %u times", t->fired);
                if (src.chance(1, 400)) { ++stopped; if (src.coin()) { t->timer->stop(); t->armed = false; } else arm(*t); }
                more = true;
                continue;
            }
            if (t->fired < total) { arm(*t); more = true; }
        }
        if (more) usleep(20);
        return more;
    });
    unsigned fired = 0;
    for (auto& t : ts) fired += t->fired;
    ts.clear();
    ctx.labels["fired"] += fired;
    ctx.labels["stopped or restarted while running"] += stopped;
    if (ctx.wantText) ctx.say(fmt("%u timers fired %u times", nt, fired));
    ctx.nontrivial();
}

// One connection for long: thousands of writes and megabytes both ways; or one link object through hundreds of connections.
void c19long(Src& outer, Ctx& ctx)
{
    quiet(false);
    Src src = outer.fork();
    Loop l;
    bool const turns = src.below(3) == 0;
    unsigned const total = turns ? 250 + src.below(300) : longCount(src, 5000);
    std::size_t const size = src.pick({std::size_t(40), std::size_t(600), std::size_t(8000)});
    std::size_t const chunk = src.pick({std::size_t(16), std::size_t(512), std::size_t(4096), std::size_t(70000)});
    LinkPtr link;
    Sock peer, srv;
    Addr a{};
    unsigned round = 0, connects = 0, wanted = 0, phase = 0;
    std::size_t put = 0, got = 0, sent = 0, seen = 0, moved = 0;
    bool ended = false, mayEnd = false;
    std::int64_t const began = usNow();
    std::vector<std::uint8_t> buf(chunk);
    l.go([&]() -> bool
    {
        switch (phase)
        {
        case 0:
            if (!link)
            {
                srv = Sock::listenAnywhere(a);
                link = l.r.createLink([&](LinkEvent ev)
                {
                    l.guard([&]
                    {
                        if (ev == LinkEvent::connected) { ++connects; return; }
                        if (ev == LinkEvent::error) { PBT_REQUIRE(mayEnd, "round %u: an error is reported on a healthy connection", round); ended = true; return; }
                        for (;;)
                        {
                            LinkResult const r = link->receive(buf.data(), buf.size());
                            if (r.status == LinkResult::na) break;
                            if (r.status != LinkResult::ok) { PBT_REQUIRE(mayEnd, "round %u: a healthy connection is reported as ended", round); ended = true; link->close(); break; }
                            PBT_REQUIRE(r.len > 0 && static_cast<std::size_t>(r.len) <= buf.size() && got + r.len <= put, "round %u: receive reports %d bytes", round, r.len);
                            PBT_REQUIRE(std::memcmp(buf.data(), pattern(1, got, r.len).data(), r.len) == 0, "round %u: the received bytes differ from what the peer sent", round);
                            got += r.len;
                        }
                    });
                });
            }
            link->connect(la(a));
            peer = srv.accept(5000);
            PBT_REQUIRE(peer.fd >= 0, "connection %u: the attempt never reaches the peer", wanted);
            { int one = 1; setsockopt(peer.fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one)); }
            ++wanted;
            put = got = sent = seen = 0;
            ended = mayEnd = false;
            phase = 1;
            return true;
        case 1:
            if (!l.until(connects == wanted, "the connection is never reported")) return true;
            phase = 2;
            return true;
        case 2:
        {
            if (round++ >= total || usNow() - began > 6000000)
            {
                // finally: everything arrives
                std::string const d = peer.take();
                PBT_REQUIRE(d == pattern(2, seen, d.size()), "the peer received other bytes than were sent");
                seen += d.size();
                return !l.until(seen == sent, "bytes that were reported as sent never arrive");
            }
            std::size_t n = 1 + src.below(size);
            if (src.below(4)) { PBT_REQUIRE(peer.put(pattern(1, put, n)), "harness: send"); put += n; moved += n; }
            n = 1 + src.below(size);
            if (src.below(4)) { std::string const d = pattern(2, sent, n); PBT_REQUIRE(link->send(d.data(), d.size()) > 0, "round %u: a send is refused", round); sent += n; moved += n; }
            phase = 3;
            return true;
        }
        case 3:
        {
            std::string const d = peer.take();
            PBT_REQUIRE(d == pattern(2, seen, d.size()), "round %u: the peer received other bytes than were sent", round);
            seen += d.size();
            PBT_REQUIRE(seen <= sent, "round %u: the peer received more than was sent", round);
            // small writes may be held back for a while (Nagle), so not every one is awaited
            if (!l.until(got == put && (turns ? seen == sent : sent - seen < 60000), "bytes never arrive")) return true;
            if (!turns) { phase = 2; return true; }
            phase = 4;
            switch (src.below(3))
            {
            case 0: link->close(); peer.shut(); phase = 0; break;
            case 1: mayEnd = true; peer.shut(); break;
            default: mayEnd = true; peer.reset(); break;
            }
            if (phase == 0 && (round >= total || usNow() - began > 6000000)) return false;
            return true;
        }
        default:
            if (!l.until(ended, "the end of a connection is never reported")) return true;
            if (round >= total || usNow() - began > 6000000) return false;
            phase = 0;
            return true;
        }
    });
    link.reset();
    ctx.labels["bytes"] += moved;
    ctx.labels["rounds"] += total;
    if (ctx.wantText) ctx.say(fmt("%u rounds%s", total, turns ? ", each on a new connection" : ""));
    ctx.nontrivial();
}

// Thousands of creations and releases: nothing is used up.
void c21long(Src& outer, Ctx& ctx)
{
    quiet(false);
    epollFaults = 0;
    Src src = outer.fork();
    Loop l;
    l.byTimer = true;
    unsigned const total = src.below(8) ? longCount(src, 20000) * 4 : 66000;
    unsigned const what = src.below(4);
    unsigned made = 0, phase = 0, held = 0;
    std::vector<TimerPtr> timers;
    std::vector<LinkPtr> links;
    std::vector<AcceptorPtr> accs;
    unsigned base = 0;
    auto fill = [&](unsigned kind, std::size_t upTo)
    {
        if (kind == 0) while (timers.size() < upTo) { timers.push_back(l.r.createTimer([] {})); ++made; }
        if (kind == 1) while (links.size() < upTo) { links.push_back(l.r.createLink([](LinkEvent) {})); ++made; }
        if (kind == 2) while (accs.size() < upTo) { accs.push_back(l.r.createAcceptor([] {})); ++made; }
    };
    l.go([&]() -> bool
    {
        try
        {
            if (!base) base = openDescriptors();
            if (phase++ == 0) { held = src.below(20); }
            unsigned const kind = what == 3 ? src.below(3) : what;
            unsigned n = 0;
            while (n++ < 200 && made < total)
            {
                fill(kind, held + 1 + src.below(10));
                // the oldest go first, or the youngest, or any
                auto drop = [&](auto& v) { while (v.size() > held) v.erase(v.begin() + src.below(v.size())); };
                drop(timers); drop(links); drop(accs);
            }
            if (made < total) return true;
            fill(0, 31); fill(1, 32); fill(2, 32);
        }
        catch (std::exception const& e) { fail(fmt("creation %u is refused although there is room: %s", made, e.what())); }
        bool refused = false;
        try { TimerPtr t = l.r.createTimer([] {}); } catch (std::exception const&) { refused = true; }
        try { LinkPtr t = l.r.createLink([](LinkEvent) {}); refused = false; } catch (std::exception const&) {}
        try { AcceptorPtr t = l.r.createAcceptor([] {}); refused = false; } catch (std::exception const&) {}
        PBT_REQUIRE(refused, "more than 32 of a kind exist at once");
        timers.clear(); links.clear(); accs.clear();
        PBT_REQUIRE(openDescriptors() == base, "everything was released, but %u descriptors are open instead of %u", openDescriptors(), base);
        return false;
    });
    ctx.labels["created"] += made;
    if (ctx.wantText) ctx.say(fmt("%u created and released (kind %u)", made, what));
    ctx.nontrivial();
}

// ------------------------------------------------------------------ C22 stop

void c22(Src& src, Ctx& ctx)
{
    quiet(false);
    std::atomic<bool> stopped{false};
    std::atomic<unsigned> late{0}, runs{0};
    bool const viaManager = src.chance(1, 8);
    unsigned const others = viaManager ? src.below(3) : 0;       // further reactors of the same manager
    bool const neverStarted = src.chance(1, 12);
    unsigned const nl = src.below(4), nt = src.below(4);
    bool const self = src.coin();
    unsigned const before = src.below(4) == 0 ? 0 : src.below(4000);
    unsigned const after = src.below(1500);
    unsigned const nthreads = src.below(3);
    unsigned const slow = src.chance(1, viaManager ? 3 : 10) ? src.below(viaManager ? 250000 : 8000) : 0;   // how long a handler takes
    auto seen = [&] { runs += 1; if (stopped) late += 1; if (slow) { usleep(slow); if (stopped) late += 1; } };
    std::unique_ptr<ReactorManager> mgr;
    std::unique_ptr<Reactor> own;
    Reactor* r = nullptr;
    std::vector<ComponentId> busy;
    std::vector<Sock> peers;
    std::atomic<bool> quit{false};
    std::vector<std::thread> ts;
    std::int64_t took = 0;
    {
        std::vector<LinkPtr> links;
        std::vector<TimerPtr> timers;
        if (viaManager)
        {
            mgr = std::make_unique<ReactorManager>();
            unsigned const mine = src.below(others + 1);
            for (unsigned k = 0; k <= others; ++k)
            {
                Reactor* const x = new Reactor(Reactor::Init{0, 1, 0});
                ComponentId const comp = k == mine ? 3 : 10 + k;
                if (k == mine) r = x;
                else
                {
                    x->registerHandler(100, [&, comp](MsgInterface const& mi) { BlobStore::check(static_cast<Blob const&>(mi)); seen(); if (!stopped) { BlobStore s(100, comp, 64, 1, 1); mgr->send(s.b); } });
                    busy.push_back(comp);
                }
                mgr->addComponent(std::make_unique<Comp>(comp, *mgr, *x));
                mgr->addReactor(std::unique_ptr<ReactorInterface>(x));
            }
        }
        else { own = std::make_unique<Reactor>(Reactor::Init{0, 1, 0}); r = own.get(); }
        auto send = [&](MsgInterface const& m) { if (mgr) mgr->send(m); else r->send(m); };
        r->registerHandler(100, [&](MsgInterface const& mi) { BlobStore::check(static_cast<Blob const&>(mi)); seen(); if (self && !stopped) { BlobStore s(100, 3, 64, 1, 1); send(s.b); } });
        for (unsigned k = 0; k < nt; ++k) { timers.push_back({}); }
        for (unsigned k = 0; k < nt; ++k) { timers[k] = r->createTimer([&, k] { seen(); timers[k]->start(50 + 100 * k); }); timers[k]->start(50); }
        for (unsigned k = 0; k < nl; ++k) links.push_back({});
        for (unsigned k = 0; k < nl; ++k)
        {
            Addr a;
            Sock s = Sock::listenAnywhere(a);
            links[k] = r->createLink([&, k](LinkEvent ev)
            {
                seen();
                std::uint8_t buf[64];
                if (ev == LinkEvent::data) while (links[k]->receive(buf, sizeof(buf)).status == LinkResult::ok);
            });
            links[k]->connect(la(a));
            peers.push_back(s.accept(3000));
        }
        if (!neverStarted) { if (mgr) mgr->start(); else r->start(); }
        if (self) { BlobStore s(100, 3, 64, 1, 1); send(s.b); }
        for (ComponentId const c : busy) { BlobStore s(100, c, 64, 1, 1); mgr->send(s.b); }
        for (unsigned t = 0; t < nthreads; ++t) ts.emplace_back([&, t]
        {
            while (!quit)
            {
                if (t == 0) for (auto& p : peers) p.put("xyz");
                else { BlobStore s(100, 3, 200, 2, 1); send(s.b); }
                usleep(100);
            }
        });
        usleep(before);
        std::int64_t const t0 = usNow();
        if (mgr) mgr->stop(); else r->stop();
        stopped = true;
        took = usNow() - t0;
        for (auto& p : peers) p.put("late");
        usleep(after);
        for (auto& p : peers) p.put("later");
        quit = true;
        for (auto& t : ts) t.join();
        unsigned const n = late;
        PBT_REQUIRE(n == 0, "%u handlers ran after stop() had returned", n);
    }
    // links and timers are gone, now the reactor itself
    own.reset();
    mgr.reset();
    PBT_REQUIRE(late == 0, "a handler ran after stop() had returned");
    if (ctx.wantText) ctx.say(fmt("%u timers, %u links, %u threads; %u handler calls in %u us, stop took %lld us%s", nt, nl, nthreads, runs.load(), before, (long long)took, neverStarted ? " (never started)" : ""));
    ctx.labels["handler calls before the stop"] += runs;
    if (runs >= 3) ctx.nontrivial();
}

PBT_SUB("C16", "routing", "1-4 threads and the components themselves send up to 480 messages of 32-4096 bytes to 1-5 components on 1-3 reactors, some to unknown addresses or without a handler, at most 48 pending; non-trivial: at least 2 threads and 10 messages", 1500, 40000, c16routing, 60, 8, true);
PBT_SUB("C16", "capacity", "up to 40 bursts of up to 200 messages of all sizes sent inside the loop; non-trivial: messages arrived and messages were dropped because more than 64 were waiting", 15000, 300000, c16capacity, 60);
PBT_SUB("C16", "flood", "2-4 threads send bursts of 20-420 messages each at full speed to one reactor, then a probe and 60 further messages; non-trivial: messages were dropped", 1500, 40000, c16flood, 60, 8, true);
PBT_SUB("C16", "long", "64 to 68,530 messages in the life of one event loop, up to 60 at once; every case is non-trivial", 24, 400, c16long, 60);
PBT_SUB("C17", "batches", "up to 4 batches of pending events (data on up to 4 links, up to 5 expired timers, up to 11 messages, a connection) with half of the handlers throwing; non-trivial: a handler threw and at least two other events were pending", 4000, 100000, c17, 60);
PBT_SUB("C17", "long", "64 to 3,000 handlers of messages, timers and links that throw in a row; every case is non-trivial", 160, 4000, c17long, 60);
PBT_SUB("C18", "seconds", "8 to 27 timers of up to 1.3 s at once, a third of them stopped or started again while running, watched for 1.2 s after the last was due; non-trivial: 4 fired and one was changed", 32, 600, c18long, 60);
PBT_SUB("C18", "histories", "up to 40 operations (start, stop, restart, release, busy loop, waiting) on up to 8 timers, some restarting themselves or stopping others; non-trivial: at least 2 fired and one was stopped or restarted while running", 6000, 150000, c18, 60);
PBT_SUB("C18", "again", "1-24 timers, each started 260 to 660 times with up to 1.5 ms; every case is non-trivial", 48, 1000, c18again, 60);
PBT_SUB("C19", "streams", "up to 80 operations on up to 6 incoming and outgoing connections over loopback (both directions in random pieces, data before the connect event, refused attempts, FIN, reset, blocked peer, close, reuse of a link); non-trivial: data moved and a connection ended", 4000, 100000, c19, 60);
PBT_SUB("C19", "closing", "2-7 connections have data, an end or a reset pending at once and their handlers close, release or connect each other anew; non-trivial: a link was closed or connected anew by a handler", 6000, 150000, c19closing, 60);
PBT_SUB("C19", "long", "one connection through up to 5,000 writes of up to 8,000 bytes each way, or one link through 250-550 connections; every case is non-trivial", 96, 2000, c19long, 60);
PBT_SUB("C20", "mapping", "every byte of the address and port drawn over its full range; every case is non-trivial", 200000, 3000000, c20map);
PBT_SUB("C20", "sockets", "a listener and a connection attempt on random loopback addresses and ports; every case is non-trivial", 3000, 60000, c20sockets, 60);
PBT_SUB("C21", "resources", "up to 80 operations (create, release, exhaust, connect, listen, accept) with failures of the operating system injected (no descriptors, epoll refuses, port taken), then everything released and created again; non-trivial: an injected failure and at least 3 objects", 12000, 200000, c21, 60);
PBT_SUB("C21", "again", "2-6 rounds of listening on one address with up to 4 connections each, which end before, with or after the listening by either side; every round listens and accepts, a second listener is refused; non-trivial: at least 2 connections", 12000, 200000, c21again, 60);
PBT_SUB("C21", "long", "256 to 66,000 timers, links and acceptors created and released in any order, up to 20 kept; then all 32 of each kind; every case is non-trivial", 96, 2000, c21long, 60);
PBT_SUB("C22", "stop", "a reactor with up to 3 links, 3 timers and 2 outside threads is stopped at a random moment and destroyed while events keep coming; non-trivial: at least 3 handlers ran before", 3000, 60000, c22, 20, 8, true);

} // namespace
