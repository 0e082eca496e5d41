#pragma once
#include "pbt.hpp"
#include "world.hpp"
#include "OpcUaBinaryCodec.hpp"
#include "UaTransportComponent.hpp"
#include "UaTransport.hpp"
#include "UaSecureChannelComponent.hpp"
#include "UaSecureChannel.hpp"
#include "UaServiceComponent.hpp"
#include "UaService.hpp"
#include "MsgStore.hpp"
using namespace world;
using S = std::string;
inline S le(std::uint32_t v, unsigned n = 4) { S s; while (n--) { s += char(v); v >>= 8; } return s; }
inline std::uint32_t rd(S const& s, std::size_t at) { std::uint32_t v = 0; for (unsigned i = 0; i < 4; ++i) v |= std::uint32_t((unsigned char)s.at(at + i)) << (8 * i); return v; }
inline S str(S const& s) { return le(s.size()) + s; }
inline S null() { return le(0xffffffff); }
// request header: token, time, handle, diagnostics, audit id, timeout, additional header
inline S reqHdr(std::uint32_t session, std::uint32_t handle) { return S("\x02\x00\x00", 3) + le(session) + S(8, 0) + le(handle) + le(0) + null() + le(0) + S(3, 0); }
inline S type(unsigned id) { return S("\x01\x00", 2) + le(id, 2); }
template <typename T, typename F> void post(World& w, F f) { reactor::MsgStore<T> m; f(m.getMsg()); w.post(m.getMsg()); w.pump(); }
struct Srv
{
    World w;
    ua::transport::UaTransportComponent t{w, w};
    ua::securechannel::UaSecureChannelComponent c{w, w};
    ua::service::UaServiceComponent s{w, w};
    Srv()
    {
        logging(false);
        post<MsgUaTransportInitReq>(w, [](auto&) {});
        post<MsgUaSecureChannelInitReq>(w, [](auto&) {});
        post<MsgUaServiceInitReq>(w, [](auto&) {});
        post<MsgUaTransportConfigReq>(w, [](auto& m) { m.addr = reactor::LinkAddr{}; });
        CHECK(w.acceptor());
    }
};
struct Cl
{
    Srv& s;
    World& w;
    std::uint64_t id;
    std::uint32_t ch{0}, token{0}, seq{50}, srvSeq{0};
    explicit Cl(Srv& s_) : s(s_), w(s_.w) { id = w.dial(*w.acceptor()); w.fireAccepts(*w.acceptor(), 1); }
    bool up() { return w.open(id); }
    S got() { return w.takeSent(id); }
    S say(S const& f) { w.deliver(id, f); return got(); }
    static S helloBytes(S const& url = "opc.tcp://x") { S b = le(0) + le(65536) + le(65536) + le(0) + le(0) + str(url); return "HELF" + le(8 + b.size()) + b; }
    S hello() { return say(helloBytes()); }
    S opnBytes(std::uint32_t reqId = 1, std::uint32_t handle = 7, std::uint32_t life = 1000)
    {
        S b = str("http://opcfoundation.org/UA/SecurityPolicy#None") + null() + null() + le(++seq) + le(reqId) + type(446) + reqHdr(0, handle) + le(0) + le(0) + le(1) + null() + le(life);
        return "OPNF" + le(12 + b.size()) + le(0) + b;
    }
    bool took(S const& r)
    {
        if (r.size() < 100 || r.substr(0, 4) != "OPNF") return false;
        ch = rd(r, 8);
        std::size_t const q = 12 + 4 + 47 + 8;
        srvSeq = rd(r, q);
        std::size_t const tok = q + 8 + 4 + 8 + 4 + 4 + 1 + 4 + 3 + 4 + 4;
        token = rd(r, tok);
        return rd(r, tok - 4) == ch;
    }
    bool open() { return took(say(opnBytes())); }
    bool login() { return hello().size() == 28 && open(); }
    S msgBytes(S const& body, std::uint32_t reqId = 9, char const* t = "MSG") { return raw(t, ch, token, ++seq, reqId, body); }
    static S raw(S const& t, std::uint32_t c, std::uint32_t tok, std::uint32_t sq, std::uint32_t reqId, S const& body) { return t + "F" + le(24 + body.size()) + le(c) + le(tok) + le(sq) + le(reqId) + body; }
    static S endpoints(std::uint32_t h = 5) { return type(428) + reqHdr(0, h) + str("opc.tcp://x") + null() + null(); }
    static S create(std::uint32_t h = 5) { return type(461) + reqHdr(0, h) + null() + null() + S(1, 0) + le(0) + null() + null() + null() + null() + null() + null() + null() + null() + S(8, 0) + le(777); }
    static S activate(std::uint32_t sid) { return type(467) + reqHdr(sid, 5) + null() + null() + null() + null() + S(3, 0) + null() + null(); }
    static S close(std::uint32_t sid) { return type(473) + reqHdr(sid, 5) + S(1, 0); }
    static S read() { return type(631) + reqHdr(0, 5) + S(8, 0) + le(0) + null(); }
    static S closeChannel() { return type(452) + reqHdr(0, 5); }
    S req(S const& body, std::uint32_t reqId = 9) { return say(msgBytes(body, reqId)); }
    // session id of a CreateSession response, 0 when there is none
    static std::uint32_t session(S const& r)
    {
        std::size_t const at = 24 + 4 + 8 + 4 + 4 + 1 + 4 + 3;
        if (r.size() < at + 4) return 0;
        if (r[at] == 0) return (unsigned char)r[at + 1];
        return (unsigned char)r[at + 2];
    }
};
