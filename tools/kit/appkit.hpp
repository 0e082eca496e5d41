// The whole application as main() deploys it, and blocking sockets to talk to its two ports.
#pragma once
#include "pbt.hpp"
#include "Deployer.cpp"
#include "MsgControllerStartReq.hpp"
#include "MsgControllerStopReq.hpp"
#include "Logger.hpp"
#include <arpa/inet.h>
#include <poll.h>
#include <sys/socket.h>
#include <unistd.h>
#include <chrono>
#include <memory>
#include <thread>
#include <vector>
using namespace app;
using S = std::string;
inline void ms(unsigned n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
inline void quiet() { for (int t = 0; t < static_cast<int>(LogTask::NUM); ++t) Logger::getInst().setTaskLogLevel(static_cast<LogTask>(t), LogLevel::NA); }
struct Run
{
    reactor::ReactorManager m;
    Deployer d;
    Run() { quiet(); d.apply(m, DeploymentType::cpu3); m.start(); }
    ~Run() { m.stop(); }
    void start() { MsgControllerStartReq q; m.send(q); }
    void stop() { MsgControllerStopReq q; m.send(q); }
};
struct Tcp
{
    int fd;
    explicit Tcp(unsigned port)
    {
        fd = socket(AF_INET, SOCK_STREAM, 0);
        sockaddr_in a{};
        a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(0x7f000001);
        if (connect(fd, (sockaddr*)&a, sizeof a)) { close(fd); fd = -1; }
    }
    Tcp(Tcp&& o) : fd(o.fd) { o.fd = -1; }
    ~Tcp() { if (fd >= 0) close(fd); }
    void put(S const& s) { ::send(fd, s.data(), s.size(), MSG_NOSIGNAL); }
    // one answer: what arrives until 150 ms of silence
    S get(unsigned first = 2000)
    {
        S s;
        for (unsigned t = first;; t = 150)
        {
            pollfd p{fd, POLLIN, 0};
            if (poll(&p, 1, t) != 1) return s;
            char b[4096];
            ssize_t n = recv(fd, b, sizeof b, 0);
            if (n <= 0) return s;
            s.append(b, n);
        }
    }
    S ask(S const& q) { put(q); return get(); }
    bool ended(unsigned t = 1000) { pollfd p{fd, POLLIN, 0}; char b; while (poll(&p, 1, t) == 1) if (recv(fd, &b, 1, 0) <= 0) return true; return false; }
};
inline bool listens(unsigned port) { return Tcp(port).fd >= 0; }
constexpr unsigned uaPort = 4369, mbPort = 12145;
inline S be(unsigned v) { return S{static_cast<char>(v >> 8), static_cast<char>(v)}; }
inline S adu(unsigned tid, S const& body) { return be(tid) + be(0) + be(body.size()) + body; }
inline S rdReg(unsigned tid, unsigned at, unsigned n) { return adu(tid, S("\x01\x03", 2) + be(at) + be(n)); }
inline S wrReg(unsigned tid, unsigned at, S const& d) { return adu(tid, S("\x01\x10", 2) + be(at) + be(d.size() / 2) + static_cast<char>(d.size()) + d); }
// between two rounds of the self test nothing is answered: another try
inline S mbAsk(S const& q)
{
    for (unsigned k = 0; k < 8; ++k) { Tcp t(mbPort); CHECK(t.fd >= 0); S r = t.ask(q); if (!r.empty()) return r; ms(37); }
    return {};
}
inline S le(std::uint32_t v) { S s; for (unsigned k = 0; k < 4; ++k) s += char(v >> (8 * k)); return s; }
inline S hello() { S b = le(0) + le(65536) + le(65536) + le(0) + le(0) + le(3) + "abc"; return "HELF" + le(8 + b.size()) + b; }
inline bool uaServed() { Tcp t(uaPort); if (t.fd < 0) return false; S r = t.ask(hello()); return r.size() == 28 && r.substr(0, 4) == "ACKF"; }
