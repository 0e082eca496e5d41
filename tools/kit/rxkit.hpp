#pragma once
#include "pbt.hpp"
#include "Reactor.hpp"
#include "ReactorManager.hpp"
#include "ComponentInterface.hpp"
#include "MsgBase.hpp"
#include "LinkInterface.hpp"
#include "TimerInterface.hpp"
#include "AcceptorInterface.hpp"
#include "LinkAddr.hpp"
#include "Logger.hpp"
#include <arpa/inet.h>
#include <dirent.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <atomic>
#include <condition_variable>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
using namespace app;
using namespace app::reactor;
struct Discard {};
#define PBT_REQUIRE(C, ...) do { if (!(C)) pbt::fail(pbt::fmt(__VA_ARGS__)); } while (0)
inline std::int64_t usNow() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000ll + t.tv_nsec / 1000; }
struct Blob : MsgInterface
{
    MsgId id;
    ComponentId comp;
    std::uint32_t bytes, sender, seq, flags;
    MsgId getMsgId() const override { return id; }
    ComponentId getCompId() const override { return comp; }
    std::size_t size() const override { return bytes; }
};

struct BlobStore
{
    alignas(64) unsigned char mem[16384];
    Blob& b;
    static unsigned char at(std::uint32_t sender, std::uint32_t seq, std::size_t k) { return static_cast<unsigned char>((sender * 131 + seq * 7 + k * 13 + (k >> 8)) ^ 0x5a); }
    BlobStore(MsgId id, ComponentId comp, std::uint32_t bytes, std::uint32_t sender, std::uint32_t seq, std::uint32_t flags = 0) : b(*new (mem) Blob)
    {
        b.id = id; b.comp = comp; b.bytes = std::max<std::uint32_t>(bytes, sizeof(Blob)); b.sender = sender; b.seq = seq; b.flags = flags;
        for (std::size_t k = sizeof(Blob); k < b.bytes; ++k) mem[k] = at(sender, seq, k);
    }
    static void check(Blob const& b)
    {
        unsigned char const* p = reinterpret_cast<unsigned char const*>(&b);
        for (std::size_t k = sizeof(Blob); k < b.bytes; ++k)
            PBT_REQUIRE(p[k] == at(b.sender, b.seq, k), "message %u of sender %u (%u bytes) arrives with byte %zu changed", b.seq, b.sender, b.bytes, k);
    }
};

// ------------------------------------------------------------------ raw sockets: the other side

struct Addr { std::uint8_t ip[4]; std::uint16_t port; };

Addr freshAddr()
{
    static std::uint32_t n = static_cast<std::uint32_t>(static_cast<std::uint64_t>(usNow()) * 2654435761u);
    std::uint32_t const pid = static_cast<std::uint32_t>(getpid());
    n += 1;
    return Addr{{127, static_cast<std::uint8_t>(1 + (pid >> 8) % 250), static_cast<std::uint8_t>(pid), static_cast<std::uint8_t>(1 + n / 60000 % 250)}, static_cast<std::uint16_t>(2000 + n % 60000)};
}

sockaddr_in sa(Addr const& a)
{
    sockaddr_in s{};
    s.sin_family = AF_INET;
    s.sin_port = htons(a.port);
    std::memcpy(&s.sin_addr, a.ip, 4);
    return s;
}

LinkAddr la(Addr const& a)
{
    LinkAddr l{};
    l.type = LinkAddr::Type::ipv4;
    std::memcpy(l.data, a.ip, 4);
    l.data[4] = static_cast<char>(a.port >> 8);
    l.data[5] = static_cast<char>(a.port);
    return l;
}

struct Sock
{
    int fd{-1};
    bool ended{false};
    Sock() = default;
    explicit Sock(int f) : fd(f) {}
    Sock(Sock&& o) : fd(o.fd), ended(o.ended) { o.fd = -1; }
    Sock& operator=(Sock&& o) { if (this != &o) { shut(); fd = o.fd; ended = o.ended; o.fd = -1; } return *this; }
    ~Sock() { shut(); }
    void shut() { if (fd >= 0) ::close(fd); fd = -1; }
    void reset() { if (fd < 0) return; struct linger l{1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof(l)); shut(); }
    static Sock listen(Addr const& a, int backlog = 16)
    {
        Sock s(::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0));
        auto x = sa(a);
        if (s.fd < 0 || ::bind(s.fd, reinterpret_cast<sockaddr*>(&x), sizeof(x)) || ::listen(s.fd, backlog)) s.shut();
        return s;
    }
    static Sock listenAnywhere(Addr& a)
    {
        for (unsigned k = 0; k < 50; ++k) { a = freshAddr(); Sock s = listen(a); if (s.fd >= 0) return s; }
        throw Discard{};
    }
    Sock accept(int ms)
    {
        pollfd p{fd, POLLIN, 0};
        if (poll(&p, 1, ms) != 1) return Sock();
        return Sock(::accept4(fd, nullptr, nullptr, SOCK_CLOEXEC));
    }
    static Sock dial(Addr const& a)
    {
        Sock s(::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0));
        auto x = sa(a);
        if (s.fd < 0 || ::connect(s.fd, reinterpret_cast<sockaddr*>(&x), sizeof(x))) s.shut();
        else { int one = 1; setsockopt(s.fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one)); }
        return s;
    }
    bool put(std::string const& d) { return ::send(fd, d.data(), d.size(), MSG_NOSIGNAL) == static_cast<ssize_t>(d.size()); }
    // everything there is to read now; eof or error ends it
    std::string take(std::size_t limit = ~std::size_t(0))
    {
        std::string out;
        char buf[65536];
        while (fd >= 0 && !ended && out.size() < limit)
        {
            ssize_t const n = ::recv(fd, buf, std::min(sizeof(buf), limit - out.size()), MSG_DONTWAIT);
            if (n > 0) { out.append(buf, n); continue; }
            if (n == 0 || (errno != EAGAIN && errno != EINTR)) ended = true;
            break;
        }
        return out;
    }
};

unsigned openDescriptors()
{
    unsigned n = 0;
    if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) ++n; closedir(d); }
    return n;
}

std::string pattern(std::uint32_t id, std::size_t from, std::size_t n)
{
    std::string s(n, 0);
    for (std::size_t k = 0; k < n; ++k) s[k] = static_cast<char>(((from + k) * 31 + (from + k) / 251 + id * 17) ^ 0x33);
    return s;
}


struct Comp : ComponentInterface
{
    ComponentId id; SenderInterface& s; ReactorInterface& r;
    Comp(ComponentId i, SenderInterface& s_, ReactorInterface& r_) : id(i), s(s_), r(r_) {}
    ComponentId getCompId() const override { return id; }
    SenderInterface& getSender() override { return s; }
    ReactorInterface& getReactor() override { return r; }
};
constexpr MsgId callId = 900001;
struct Call : MsgBase<Call, 99, callId> {};
// A running reactor and a way to run something in its thread.
struct Rx
{
    std::shared_ptr<Reactor> own{new Reactor(Reactor::Init{0, 1, 0})};
    Reactor& r{*own};
    std::mutex m;
    std::condition_variable cv;
    std::function<void()> job;
    Rx()
    {
        for (int t = 0; t < static_cast<int>(LogTask::NUM); ++t) Logger::getInst().setTaskLogLevel(static_cast<LogTask>(t), LogLevel::NA);
        r.registerHandler(callId, [this](MsgInterface const&) { auto j = job; j(); std::lock_guard<std::mutex> g(m); job = {}; cv.notify_all(); });
        r.start();
    }
    ~Rx() { r.stop(); }
    void run(std::function<void()> f)
    {
        std::unique_lock<std::mutex> l(m);
        job = f;
        Call c; r.send(c);
        if (!cv.wait_for(l, std::chrono::seconds(10), [&] { return !job; })) pbt::fail("the reactor does not run anything anymore");
    }
};
inline bool within(unsigned ms, std::function<bool()> f) { auto const t = usNow() + ms * 1000ll; while (!f()) { if (usNow() > t) return false; usleep(200); } return true; }
