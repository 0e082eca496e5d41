// OPC UA server (transport, secure channel and service components together) on the deterministic world.
// C04 transport, C05 channel checks, C06 request/response, C07 recovery of connections and channels, C08 sessions.

#include "pbt.hpp"
#include "uaref.hpp"
#include "world.hpp"

#include "UaTransportComponent.hpp"
#include "UaTransport.hpp"
#include "UaSecureChannelComponent.hpp"
#include "UaSecureChannel.hpp"
#include "UaServiceComponent.hpp"
#include "UaService.hpp"
#include "MsgStore.hpp"

#include <sys/time.h>
#include <optional>

using namespace pbt;
using namespace world;
using namespace uaref;

namespace
{

constexpr std::int64_t sec = 1000000;
constexpr std::int64_t inactive = 30 * sec;

std::int64_t uaNow()
{
    struct timeval tv;
    ::gettimeofday(&tv, nullptr);
    return 116444736000000000ll + tv.tv_sec * 10000000ll + tv.tv_usec * 10ll;
}

std::string le32(std::uint32_t v) { Bytes b; b.le(v, 4); return b.b; }
std::uint32_t rd32(std::string const& s, std::size_t at)
{
    if (at + 4 > s.size()) fail("short frame");
    std::uint32_t v = 0;
    for (unsigned i = 0; i < 4; ++i) v |= static_cast<std::uint32_t>(static_cast<unsigned char>(s[at + i])) << (8 * i);
    return v;
}

std::string frame(std::string const& type, char fin, std::uint32_t chId, std::string const& payload)
{
    return type + fin + le32(12 + payload.size()) + le32(chId) + payload;
}

std::string helloFrame(HelloMessage const& h)
{
    std::string const b = refBytes(h);
    return std::string("HELF") + le32(8 + b.size()) + b;
}

template <typename M> std::string typed(std::uint32_t typeId, M& m)
{
    ExpandedNodeId id;
    id.nodeId.value.emplace<0>() = typeId;
    return refBytes(id) + refBytes(m);
}

std::vector<std::string> split(Src& src, std::string const& s)
{
    std::vector<std::string> v;
    switch (src.below(4))
    {
    case 0: v.push_back(s); return v;
    case 1: if (s.size() < 80) { for (char c : s) v.push_back(std::string(1, c)); return v; } [[fallthrough]];
    case 2:
    {
        std::size_t const k = 1 + src.below(src.coin() && s.size() > 16 ? 15 : s.size() - 1);
        v.push_back(s.substr(0, k));
        v.push_back(s.substr(k));
        return v;
    }
    default:
    {
        std::size_t at = 0;
        while (at < s.size())
        {
            std::size_t const k = std::min<std::size_t>(s.size() - at, 1 + src.below(src.coin() ? 9 : 200));
            v.push_back(s.substr(at, k));
            at += k;
        }
        return v;
    }
    }
}

// fills a message with random fields, small enough for one frame
template <typename M> M randomBody(Src& src, std::size_t limit = 900)
{
    if (src.below(3))
    {
        M m;
        Gen g(src);
        GenVisitor v{g};
        v(m);
        if (refBytes(m).size() <= limit) return m;
    }
    M m;
    m.requestHdr.requestHandle = static_cast<std::uint32_t>(src.integer(32));
    return m;
}

reactor::LinkAddr addrOf(unsigned host, unsigned port)
{
    reactor::LinkAddr a{};
    a.data[0] = 127; a.data[3] = static_cast<char>(host);
    a.data[4] = static_cast<char>(port >> 8); a.data[5] = static_cast<char>(port);
    return a;
}

template <typename T, typename F> void post(World& w, F&& f)
{
    reactor::MsgStore<T> store;
    f(store.getMsg());
    w.post(store.getMsg());
}

struct Server
{
    World w;
    std::unique_ptr<ua::transport::UaTransportComponent> transport;
    std::unique_ptr<ua::securechannel::UaSecureChannelComponent> channel;
    std::unique_ptr<ua::service::UaServiceComponent> service;
    unsigned delivered{0};      // messages that passed the channel checks

    explicit Server(unsigned pool = 32) : w(pool)
    {
        transport = std::make_unique<ua::transport::UaTransportComponent>(w, w);
        channel = std::make_unique<ua::securechannel::UaSecureChannelComponent>(w, w);
        service = std::make_unique<ua::service::UaServiceComponent>(w, w);
        w.sniff = [this](reactor::MsgInterface const& m) { if (m.getMsgId() == MsgUaEncodedMessageReceiveInd::msgId()) delivered += 1; };
        post<MsgUaTransportInitReq>(w, [](auto&) {});
        post<MsgUaSecureChannelInitReq>(w, [](auto&) {});
        post<MsgUaServiceInitReq>(w, [](auto&) {});
        post<MsgUaTransportConfigReq>(w, [](auto& m) { m.addr = addrOf(1, 4840); });
        w.pump();
        if (!w.acceptor()) fail("the server does not listen on its configured address");
        w.outbox.clear();
    }
    ~Server() { w.tearingDown = true; }
};

// ------------------------------------------------------------------ a client as the model sees it

enum Kind { GetEndpoints, CreateSession, ActivateSession, CloseSession, Read, OpenChannel, CloseChannel, Hello };
char const* kindName(Kind k)
{
    static char const* const n[] = {"GetEndpoints", "CreateSession", "ActivateSession", "CloseSession", "Read", "OpenSecureChannel", "CloseSecureChannel", "Hello"};
    return n[k];
}

struct Expect
{
    Kind kind;
    bool answered{true};
    std::uint32_t requestId{0}, handle{0}, lifetime{0};
    double timeout{0};
    std::uint32_t maxSize{0};
    std::int64_t from{0};
};

struct Cli
{
    std::uint64_t id{0};
    int phase{0};                     // 0 connected, 1 acknowledged, 2 channel open
    bool dead{false};
    bool murky{false};                // left the modelled part of the protocol: only safety is required of it
    std::uint32_t chId{0}, token{0}, seq{0};
    std::optional<std::uint32_t> srvSeq;
    std::uint32_t bound{0};           // session this channel activated last
    std::int64_t lastOk{0};           // start of the current inactivity period
    std::optional<Expect> expect;
};

struct Session { int state{0}; std::uint32_t channel{0}; };

struct Run
{
    Src& src;
    Ctx& ctx;
    Server s;
    World& w;
    std::vector<Cli> clients;
    std::map<std::uint32_t, Session> sessions;   // by session id, the live ones
    unsigned answered{0}, opened{0}, violations{0}, faults{0}, reads{0}, deniedReads{0}, closedSessions{0};
    std::size_t maxOpen{32};

    Run(Src& s_, Ctx& c) : src(s_), ctx(c), w(s.w) {}

    void say(std::string const& t) { if (ctx.wantText) ctx.say(t); }
    std::size_t openCount() { std::size_t n = 0; for (auto& c : clients) n += w.open(c.id); return n; }

    Cli* dial()
    {
        VAcceptor* a = w.acceptor();
        PBT_REQUIRE(a, "the server stopped listening");
        Cli c;
        c.id = w.dial(*a);
        bool const free = openCount() < 32;
        w.fireAccepts(*a, 1);
        c.lastOk = w.now;
        clients.push_back(c);
        PBT_REQUIRE(!free || a->pending.size() || w.open(c.id), "a connection is refused although only %zu are open", openCount());
        return &clients.back();
    }

    // the operating system refuses to hand over a connection (out of descriptors, aborted by the peer)
    void failingAccept()
    {
        VAcceptor* a = w.acceptor();
        PBT_REQUIRE(a, "the server stopped listening");
        Cli c;
        c.id = w.dial(*a);
        c.dead = true;
        a->failAccept = true;
        w.fireAccepts(*a, 1);
        a->failAccept = false;
        clients.push_back(c);
        ctx.label("accept failed");
    }

    void accepts() { if (VAcceptor* a = w.acceptor()) { if (a->pending.empty()) return; for (auto& c : clients) if (c.phase == 0 && !w.open(c.id) && !c.dead) c.lastOk = w.now; w.fireAccepts(*a, 4); } }

    bool usable(Cli& c) { return !c.dead && !c.murky && w.open(c.id); }

    Cli* pick(int phase)
    {
        std::vector<std::size_t> v;
        for (std::size_t k = 0; k < clients.size(); ++k) if (usable(clients[k]) && clients[k].phase == phase) v.push_back(k);
        if (v.empty()) return nullptr;
        return &clients[v[v.size() - 1 - src.below(v.size())]];
    }
    Cli* pickAny()
    {
        std::vector<std::size_t> v;
        for (std::size_t k = 0; k < clients.size(); ++k) if (!clients[k].dead && w.open(clients[k].id)) v.push_back(k);
        if (v.empty()) return nullptr;
        return &clients[v[v.size() - 1 - src.below(v.size())]];
    }

    // sends one frame; false when the connection ran into its inactivity limit on the way
    bool sendFrame(Cli& c, std::string const& f, bool pause = true)
    {
        auto parts = split(src, f);
        if (parts.size() > 1) ctx.label("split frame");
        for (std::size_t k = 0; k < parts.size(); ++k)
        {
            w.deliver(c.id, parts[k]);
            if (k + 1 < parts.size())
            {
                if (!w.conn(c.id).fromCode.empty()) fail("the server answered an incomplete message");
                if (pause && parts.size() < 6 && src.chance(1, 8)) w.advance(src.below(2 * sec));
                if (w.now - c.lastOk >= inactive) { c.murky = true; return false; }
                PBT_REQUIRE(w.open(c.id), "the connection was closed in the middle of a valid message, after %zu of %zu parts", k + 1, parts.size());
            }
        }
        return true;
    }

    void hello(Cli& c)
    {
        HelloMessage h;
        h.protocolVersion = static_cast<std::uint32_t>(src.pick({0u, 0u, 1u, 77u}));
        h.receiveBufferSize = static_cast<std::uint32_t>(src.integer(32));
        h.sendBufferSize = static_cast<std::uint32_t>(src.integer(32));
        h.maxMessageSize = static_cast<std::uint32_t>(src.integer(32));
        h.maxChunkCount = static_cast<std::uint32_t>(src.integer(32));
        h.endpointUrl.val = src.coin() ? "opc.tcp://localhost:4840" : src.bytes(400, 20);
        std::string const f = helloFrame(h);
        say(fmt("t=%lld conn %llu: Hello, %zu bytes", (long long)w.now, (unsigned long long)c.id, f.size()));
        Expect e;
        e.kind = Hello;
        c.expect = e;
        if (!sendFrame(c, f)) { c.expect.reset(); return; }
        check();
    }

    std::string openFrame(Cli& c, Expect& e, std::uint32_t chInHdr)
    {
        UaSecurityHeader sh;
        sh.securityPolicyUri.val = src.coin() ? "http://opcfoundation.org/UA/SecurityPolicy#None" : src.bytes(60, 10);
        if (src.chance(1, 4)) sh.senderCertificate.val = src.bytes(100, 20);
        UaSequenceHeader qh;
        c.seq = static_cast<std::uint32_t>(src.integer(32));
        e.requestId = static_cast<std::uint32_t>(src.integer(32));
        qh.sequenceNumber = c.seq;
        qh.requestId = e.requestId;
        UaOpenSecureChannelReq r = randomBody<UaOpenSecureChannelReq>(src, 600);
        e.handle = static_cast<UInt32::Type>(r.requestHdr.requestHandle);
        e.lifetime = static_cast<UInt32::Type>(r.requestLifetime);
        e.kind = OpenChannel;
        e.from = uaNow();
        return frame("OPN", 'F', chInHdr, refBytes(sh) + refBytes(qh) + typed(446, r));
    }

    void openChannel(Cli& c, bool pause = true)
    {
        Expect e;
        std::uint32_t ch = 0;
        switch (src.below(4))
        {
        case 0: case 1: break;
        case 2: ch = src.integer(32); break;
        default: ch = clients[src.below(clients.size())].chId; break;        // perhaps somebody else's
        }
        std::string const f = openFrame(c, e, ch);
        say(fmt("t=%lld conn %llu: OpenSecureChannel, %zu bytes", (long long)w.now, (unsigned long long)c.id, f.size()));
        c.expect = e;
        if (!sendFrame(c, f, pause)) { c.expect.reset(); return; }
        ++opened;
    }

    std::string secured(Cli& c, char const* type, std::string const& body, std::uint32_t requestId, std::uint32_t ch, std::uint32_t token, std::uint32_t seq)
    {
        return frame(type, 'F', ch, le32(token) + le32(seq) + le32(requestId) + body);
    }

    bool inBurst{false};
    std::uint32_t someSession(bool live)
    {
        std::uint32_t const id = anySession(live);
        // a session created by a message still on its way is not named by another one
        return inBurst && id <= 32 && !sessions.count(id) ? 0 : id;
    }
    std::uint32_t anySession(bool live)
    {
        if (live && !sessions.empty() && src.below(8))
        {
            auto it = sessions.begin();
            std::advance(it, src.below(sessions.size()));
            return it->first;
        }
        switch (src.below(4))
        {
        case 0: return 0;
        case 1: return 1 + src.below(32);
        case 2: return 33 + src.below(40);
        default: return src.integer(32);
        }
    }

    // Builds a request and works out what the server owes for it; applies its effect to the model.
    std::string makeRequest(Cli& c, Kind k, Expect& e)
    {
        e.kind = k;
        e.requestId = static_cast<std::uint32_t>(src.integer(32));
        e.from = uaNow();
        auto hdr = [&](UaRequestHeader& h) { e.handle = static_cast<UInt32::Type>(h.requestHandle); };
        auto token = [&](UaRequestHeader& h) { std::uint32_t const sid = someSession(true); h.authentificationToken = NodeId{}; h.authentificationToken.value.emplace<0>() = sid; return sid; };
        switch (k)
        {
        case GetEndpoints:
        {
            auto r = randomBody<UaGetEndpointsReq>(src);
            hdr(r.requestHdr);
            return typed(428, r);
        }
        case CreateSession:
        {
            auto r = randomBody<UaCreateSessionReq>(src);
            hdr(r.requestHdr);
            e.timeout = static_cast<Double::Type>(r.requestedSessionTimeout);
            e.maxSize = static_cast<UInt32::Type>(r.maxResponseMessageSize);
            e.answered = sessions.size() + pendingCreates < 32;
            if (e.answered) ++pendingCreates;
            return typed(461, r);
        }
        case ActivateSession:
        {
            auto r = randomBody<UaActivateSessionReq>(src);
            hdr(r.requestHdr);
            if (src.chance(1, 12)) { r.requestHdr.authentificationToken = NodeId{}; r.requestHdr.authentificationToken.value.emplace<1>().val = "token"; e.answered = false; return typed(467, r); }
            std::uint32_t const sid = token(r.requestHdr);
            auto it = sessions.find(sid);
            e.answered = it != sessions.end();
            if (e.answered) { it->second.state = 2; it->second.channel = c.chId; c.bound = sid; }
            say(fmt("    (session %u)", sid));
            return typed(467, r);
        }
        case CloseSession:
        {
            auto r = randomBody<UaCloseSessionReq>(src);
            hdr(r.requestHdr);
            std::uint32_t const sid = token(r.requestHdr);
            e.answered = sessions.erase(sid) > 0;
            if (e.answered) ++closedSessions;
            say(fmt("    (session %u)", sid));
            return typed(473, r);
        }
        default:
        {
            auto r = randomBody<UaReadReq>(src);
            hdr(r.requestHdr);
            auto it = sessions.find(c.bound);
            e.answered = c.bound && it != sessions.end() && it->second.state == 2 && it->second.channel == c.chId;
            if (e.answered) ++reads; else ++deniedReads;
            return typed(631, r);
        }
        }
    }
    unsigned pendingCreates{0};

    void request(Cli& c, Kind k, bool pause = true)
    {
        Expect e;
        say(fmt("t=%lld conn %llu channel %u: %s", (long long)w.now, (unsigned long long)c.id, c.chId, kindName(k)));
        std::string const body = makeRequest(c, k, e);
        c.seq += 1;
        c.expect = e;
        unsigned const before = s.delivered;
        if (!sendFrame(c, secured(c, "MSG", body, e.requestId, c.chId, c.token, c.seq), pause))
        {
            // it expired while the request was on its way: the server must not have acted on it
            fail("harness: request expired");
        }
        (void)before;
    }

    Kind randomKind() { return static_cast<Kind>(src.pick({0, 1, 2, 2, 3, 4, 4, 4})); }

    bool mayPause(Cli& c) { return w.now - c.lastOk < 15 * sec; }

    // ---------------------------------------------------------------- checking what came back

    template <typename Cont> Cont decodeBody(std::string const& body)
    {
        OpcUaSduBuffer b;
        std::memcpy(b.end(), body.data(), body.size());
        b.seek(body.size());
        OpcUaBinaryCodec codec(b);
        Cont cont;
        codec >> cont;
        std::string const again = refBytes(cont);
        PBT_REQUIRE(again == body, "the response is not a plain encoding of its type: %s", hex(body).c_str());
        return cont;
    }
    template <typename Cont> void checkType(Cont const& cont, std::uint32_t id)
    {
        auto* p = std::get_if<0>(&cont.eNodeId.nodeId.value);
        PBT_REQUIRE(p && static_cast<UInt32::Type>(*p) == id, "response type %u, expected %u", p ? static_cast<UInt32::Type>(*p) : 0u, id);
    }
    void checkHeader(UaResponseHeader const& h, Expect const& e)
    {
        PBT_REQUIRE(static_cast<UInt32::Type>(h.requestHandle) == e.handle, "request handle %u, expected %u", static_cast<UInt32::Type>(h.requestHandle), e.handle);
        std::int64_t const t = static_cast<DateTime::Type>(h.timestamp);
        std::int64_t const n = uaNow();
        PBT_REQUIRE(t >= e.from - 20000000 && t <= n + 20000000, "time stamp %lld is not the current time (%lld)", (long long)t, (long long)n);
        PBT_REQUIRE(static_cast<StatusCode::Type>(h.serviceResult) == 0, "service result %x", static_cast<StatusCode::Type>(h.serviceResult));
    }
    void checkEndpoint(DynamicArray<UaEndpointDescription> const& v)
    {
        PBT_REQUIRE(v.size() == 1, "%zu endpoints", v.size());
        auto const& d = *v.begin();
        PBT_REQUIRE(d.endpointUrl.val.rfind("opc.tcp://", 0) == 0, "endpoint url '%s'", d.endpointUrl.val.c_str());
        PBT_REQUIRE(d.securityPolicyUri.val == "http://opcfoundation.org/UA/SecurityPolicy#None", "security policy '%s'", d.securityPolicyUri.val.c_str());
        PBT_REQUIRE(d.securityMode == 1, "the endpoint does not offer the security mode None");
        // GetEndpoints and CreateSession describe one and the same endpoint
        UaEndpointDescription copy = d;
        std::string const b = refBytes(copy);
        if (endpoint.empty()) endpoint = b;
        PBT_REQUIRE(endpoint == b, "the endpoint is described differently than before");
    }
    std::string endpoint;

    void checkOne(Cli& c, std::string const& f, Expect const& e)
    {
        if (e.kind == Hello)
        {
            PBT_REQUIRE(f.size() == 28 && f.substr(0, 4) == "ACKF" && rd32(f, 4) == 28, "answer to Hello: %s", hex(f).c_str());
            PBT_REQUIRE(rd32(f, 8) == 0, "protocol version %u", rd32(f, 8));
            PBT_REQUIRE(rd32(f, 12) == 65536 && rd32(f, 16) == 65536, "buffer sizes %u %u", rd32(f, 12), rd32(f, 16));
            PBT_REQUIRE(rd32(f, 20) == 5000u * 65536u && rd32(f, 24) == 5000, "message size %u, chunks %u", rd32(f, 20), rd32(f, 24));
            c.phase = 1;
            return;
        }
        if (e.kind == OpenChannel)
        {
            PBT_REQUIRE(f.substr(0, 4) == "OPNF" && rd32(f, 4) == f.size(), "answer to OpenSecureChannel: %s", hex(f).c_str());
            std::uint32_t const ch = rd32(f, 8);
            std::string const policy = "http://opcfoundation.org/UA/SecurityPolicy#None";
            std::string const sh = le32(policy.size()) + policy + le32(0xffffffff) + le32(0xffffffff);
            PBT_REQUIRE(f.size() > 12 + sh.size() + 8 && f.substr(12, sh.size()) == sh, "security header %s", hex(f).c_str());
            std::size_t const q = 12 + sh.size();
            PBT_REQUIRE(rd32(f, q + 4) == e.requestId, "request id %u, expected %u", rd32(f, q + 4), e.requestId);
            auto r = decodeBody<UaOpenSecureChannelRspCont>(f.substr(q + 8));
            checkType(r, 449);
            checkHeader(r.msg.responseHdr, e);
            PBT_REQUIRE(static_cast<UInt32::Type>(r.msg.securityToken.secureChannelId) == ch, "channel id %u in the token, %u in the header", static_cast<UInt32::Type>(r.msg.securityToken.secureChannelId), ch);
            PBT_REQUIRE(static_cast<UInt32::Type>(r.msg.securityToken.revisedLifetime) == e.lifetime, "lifetime %u instead of %u", static_cast<UInt32::Type>(r.msg.securityToken.revisedLifetime), e.lifetime);
            for (auto& o : clients) if (&o != &c && !o.dead && !o.murky && w.open(o.id) && o.phase == 2) PBT_REQUIRE(o.chId != ch, "channel %u is given to two connections", ch);
            c.srvSeq = rd32(f, q);
            PBT_REQUIRE(*c.srvSeq < 1024, "the sequence numbers of a new channel start with %u", *c.srvSeq);
            c.chId = ch;
            c.token = static_cast<UInt32::Type>(r.msg.securityToken.tokenId);
            c.bound = 0;
            c.phase = 2;
            return;
        }
        PBT_REQUIRE(f.substr(0, 4) == (e.kind == CloseChannel ? "CLOF" : "MSGF") && rd32(f, 4) == f.size() && f.size() > 24, "answer to %s: %s", kindName(e.kind), hex(f).c_str());
        PBT_REQUIRE(rd32(f, 8) == c.chId && rd32(f, 12) == c.token, "channel %u token %u, expected %u %u", rd32(f, 8), rd32(f, 12), c.chId, c.token);
        PBT_REQUIRE(rd32(f, 16) == *c.srvSeq + 1, "sequence number %u after %u", rd32(f, 16), *c.srvSeq);
        c.srvSeq = rd32(f, 16);
        PBT_REQUIRE(rd32(f, 20) == e.requestId, "request id %u, expected %u", rd32(f, 20), e.requestId);
        std::string const body = f.substr(24);
        switch (e.kind)
        {
        case GetEndpoints: { auto r = decodeBody<UaGetEndpointsRspCont>(body); checkType(r, 431); checkHeader(r.msg.responseHdr, e); checkEndpoint(r.msg.endpointDescription); break; }
        case CreateSession:
        {
            auto r = decodeBody<UaCreateSessionRspCont>(body);
            checkType(r, 464);
            checkHeader(r.msg.responseHdr, e);
            auto* sid = std::get_if<0>(&r.msg.sessionId.value);
            auto* tok = std::get_if<0>(&r.msg.authenticationToken.value);
            PBT_REQUIRE(sid && tok, "session id or token has no numeric form");
            std::uint32_t const id = static_cast<UInt32::Type>(*tok);
            PBT_REQUIRE(!sessions.count(id), "session %u is given out twice", id);
            sessions[id] = Session{1, 0};
            PBT_REQUIRE(pendingCreates > 0, "harness");
            --pendingCreates;
            double const t = static_cast<Double::Type>(r.msg.revisedSessionTimeout);
            PBT_REQUIRE(std::memcmp(&t, &e.timeout, 8) == 0, "session timeout %g instead of %g", t, e.timeout);
            PBT_REQUIRE(static_cast<UInt32::Type>(r.msg.maxRequestMessageSize) == e.maxSize, "message size %u instead of %u", static_cast<UInt32::Type>(r.msg.maxRequestMessageSize), e.maxSize);
            checkEndpoint(r.msg.serverEndpoints);
            break;
        }
        case ActivateSession: { auto r = decodeBody<UaActivateSessionRspCont>(body); checkType(r, 470); checkHeader(r.msg.responseHdr, e); break; }
        case CloseSession: { auto r = decodeBody<UaCloseSessionRspCont>(body); checkType(r, 476); checkHeader(r.msg.responseHdr, e); break; }
        case Read: { auto r = decodeBody<UaReadRspCont>(body); checkType(r, 634); checkHeader(r.msg.responseHdr, e); break; }
        case CloseChannel: { auto r = decodeBody<UaCloseSecureChannelRspCont>(body); checkType(r, 455); checkHeader(r.msg.responseHdr, e); break; }
        default: break;
        }
    }

    // Every client got exactly what it was owed.
    void check()
    {
        for (auto& c : clients)
        {
            if (c.murky) { w.takeSent(c.id); c.expect.reset(); continue; }
            Conn& k = w.conn(c.id);
            std::vector<std::string> frames;
            std::string out = w.takeSent(c.id);
            while (!out.empty())
            {
                PBT_REQUIRE(out.size() >= 8 && rd32(out, 4) >= 8 && rd32(out, 4) <= out.size(), "the server wrote a broken frame: %s", hex(out).c_str());
                std::size_t const n = rd32(out, 4);
                frames.push_back(out.substr(0, n));
                out.erase(0, n);
            }
            if (!c.expect)
            {
                PBT_REQUIRE(frames.empty(), "connection %llu was sent %s without having asked", (unsigned long long)c.id, hex(frames[0]).c_str());
                continue;
            }
            Expect const e = *c.expect;
            c.expect.reset();
            bool const broken = k.failSend || k.reset;
            if (broken) { PBT_REQUIRE(frames.empty(), "harness"); c.murky = true; c.lastOk = w.now; if (e.kind == CreateSession && e.answered) { --pendingCreates; lostSession = true; } continue; }
            PBT_REQUIRE(frames.size() == (e.answered ? 1u : 0u), "%s on connection %llu was answered %zu times, expected %u", kindName(e.kind), (unsigned long long)c.id, frames.size(), e.answered ? 1u : 0u);
            c.lastOk = w.now;
            if (!frames.empty()) { checkOne(c, frames[0], e); ++answered; }
            if (e.kind == CloseChannel) { PBT_REQUIRE(!w.open(c.id), "the connection stays open after its channel was closed"); c.dead = true; }
            else PBT_REQUIRE(w.open(c.id), "the connection was closed after a valid %s", kindName(e.kind));
        }
    }
    bool lostSession{false};    // a session exists whose id nobody knows

    void closeChannel(Cli& c)
    {
        Expect e;
        e.kind = CloseChannel;
        e.requestId = static_cast<std::uint32_t>(src.integer(32));
        e.from = uaNow();
        auto r = randomBody<UaCloseSecureChannelReq>(src);
        e.handle = static_cast<UInt32::Type>(r.requestHdr.requestHandle);
        c.seq += 1;
        c.expect = e;
        say(fmt("t=%lld conn %llu channel %u: CloseSecureChannel", (long long)w.now, (unsigned long long)c.id, c.chId));
        sendFrame(c, secured(c, "CLO", typed(452, r), e.requestId, c.chId, c.token, c.seq), mayPause(c));
        check();
    }

    // ---------------------------------------------------------------- protocol violations: refused, not acted upon
    void violate(Cli& c)
    {
        Expect e;
        UaCloseSessionReq body;
        if (!sessions.empty()) body.requestHdr.authentificationToken.value.emplace<0>() = someSession(true);
        std::string const b = src.coin() ? typed(473, body) : [&] { UaGetEndpointsReq g; return typed(428, g); }();
        std::uint32_t ch = c.chId, token = c.token, seq = c.seq + 1;
        char const* type = src.below(4) ? "MSG" : "CLO";
        Cli* other = nullptr;
        {
            std::vector<Cli*> v;
            for (auto& o : clients) if (&o != &c && usable(o) && o.phase == 2) v.push_back(&o);
            if (!v.empty()) other = v[v.size() - 1 - src.below(v.size())];
        }
        std::string what, f;
        bool mustClose = true;
        if (c.phase == 2)
        {
            switch (src.below(9))
            {
            case 0: ch = other ? other->chId : c.chId ^ 1; what = "another channel's id"; break;
            case 1: ch ^= 1u << src.below(32); what = "wrong channel id"; break;
            case 2: token ^= 1u << src.below(32); what = "wrong token"; break;
            case 3: token = other ? other->token : 0; if (token == c.token) token ^= 5; what = "another channel's token"; break;
            case 4: seq = c.seq; what = "repeated sequence number"; break;
            case 5: seq = c.seq + 2 + src.below(3); what = "skipped sequence number"; break;
            case 6: seq = src.integer(32); if (seq == c.seq + 1) seq = c.seq; if (src.coin()) seq = (c.seq + 1) ^ (1u << src.below(32)); what = "random sequence number"; break;
            case 7: type = src.pick({"ERR", "HEL", "MSH", "XXX", "msg", "ACK"}); what = "unknown message type"; break;
            default: f = frame(type, 'F', ch, src.bytes(11, 6)); mustClose = false; what = "message cut short"; break;
            }
        }
        else
        {
            // no channel yet
            ch = other ? other->chId : src.integer(32);
            token = other ? other->token : src.integer(32);
            seq = other ? other->seq + 1 : src.integer(32);
            what = "message without a channel";
            if (c.phase == 0) mustClose = false;
        }
        if (c.phase >= 1 && src.chance(1, 8))
        {
            Expect x;
            Cli copy = c;
            f = openFrame(copy, x, 0);
            f.resize(12 + src.below(f.size() - 12));
            for (unsigned k = 0; k < 4; ++k) f[4 + k] = static_cast<char>(f.size() >> (8 * k));
            type = "OPN";
            mustClose = true;
            what = "channel request cut short";
        }
        if (f.empty()) f = secured(c, type, b, 9, ch, token, seq);
        say(fmt("t=%lld conn %llu: %s (%s)", (long long)w.now, (unsigned long long)c.id, what.c_str(), type));
        unsigned const before = s.delivered;
        auto parts = split(src, f);
        for (auto& p : parts) if (w.open(c.id)) w.deliver(c.id, p);
        ++violations;
        ctx.label(what);
        PBT_REQUIRE(s.delivered == before, "a message with %s reached the services", what.c_str());
        PBT_REQUIRE(w.conn(c.id).fromCode.empty(), "a message with %s was answered: %s", what.c_str(), hex(w.conn(c.id).fromCode).c_str());
        if (mustClose) { PBT_REQUIRE(!w.open(c.id), "the connection stays open after %s", what.c_str()); c.dead = true; }
        else c.murky = true;
        c.lastOk = w.now;
        check();
    }

    // ---------------------------------------------------------------- disturbances
    void disturb(Cli& c)
    {
        ++faults;
        switch (src.below(5))
        {
        case 0: case 1:
            say(fmt("t=%lld conn %llu: peer closes", (long long)w.now, (unsigned long long)c.id));
            w.peerClose(c.id);
            if (!c.murky) PBT_REQUIRE(!w.open(c.id), "the peer closed, the connection is kept");
            c.dead = true;
            break;
        case 2:
            say(fmt("t=%lld conn %llu: reset", (long long)w.now, (unsigned long long)c.id));
            {
                unsigned const held = w.liveLinks() + w.liveTimers();
                w.peerReset(c.id);
                PBT_REQUIRE(!w.autoPump || w.liveLinks() + w.liveTimers() + 2 <= held, "the connection was reset, its link and timer are kept");
            }
            c.dead = true;
            break;
        case 3:
            say(fmt("t=%lld conn %llu: writes fail from now on", (long long)w.now, (unsigned long long)c.id));
            w.conn(c.id).failSend = true;
            break;
        default:
        {
            std::string g = garbage(c);
            say(fmt("t=%lld conn %llu: garbage %s", (long long)w.now, (unsigned long long)c.id, hex(g, 24).c_str()));
            unsigned const before = s.delivered;
            if (!g.empty()) w.deliver(c.id, g);
            c.lastOk = w.now;
            c.murky = true;
            if (s.delivered != before) lostSession = true;
            break;
        }
        }
        check();
    }

    std::string garbage(Cli& c)
    {
        std::string g;
        switch (src.below(7))
        {
        case 0: return src.bytes(40, 10);
        case 1: return src.bytesExact(src.range(1, 6000));
        case 2: { std::size_t const n = src.below(4200); return frame(src.pick({"MSG", "OPN", "CLO"}), 'F', c.chId, src.bytesExact(n)); }
        case 3: { g = frame(src.pick({"MSG", "OPN", "CLO"}), src.pick({'F', 'C', 'A'}), c.chId, src.bytes(60, 20)); std::size_t const at = 4 + src.below(4); g[at] = static_cast<char>(src.below(256)); return g; }
        case 4: { Expect e; Cli x = c; g = openFrame(x, e, 0); g.resize(12 + src.below(g.size() - 12)); break; }   // malformed open request
        case 5: { Expect e; Cli x = c; g = openFrame(x, e, 0); unsigned n = 1 + src.below(4); while (n--) g[12 + src.below(g.size() - 12)] = static_cast<char>(src.below(256)); break; }
        default:
        {
            // well secured, malformed body
            Expect e;
            UaReadReq r = randomBody<UaReadReq>(src);
            std::string b = typed(src.pick({631u, 428u, 461u, 467u, 473u, 999u, 70000u}), r);
            if (src.coin()) b.resize(src.below(b.size() + 1));
            unsigned n = src.below(4);
            while (n-- && !b.empty()) b[src.below(b.size())] = static_cast<char>(src.below(256));
            c.seq += 1;
            g = secured(c, "MSG", b, 7, c.chId, c.token, c.seq);
        }
        }
        for (unsigned k = 0; k < 4; ++k) g[4 + k] = static_cast<char>(g.size() >> (8 * k));
        return g;
    }

    void passTime()
    {
        std::int64_t const d = src.pick({std::int64_t(1000), sec, 10 * sec, 29 * sec, inactive - 1, inactive, 31 * sec});
        w.advance(d);
        check();
        for (auto& c : clients)
        {
            if (c.dead) continue;
            if (!w.open(c.id))
            {
                if (!c.murky && w.conn(c.id).established && !c.dead) PBT_REQUIRE(w.now - c.lastOk >= inactive || w.conn(c.id).failSend, "connection %llu was closed after only %lld us of inactivity", (unsigned long long)c.id, (long long)(w.now - c.lastOk));
                if (w.conn(c.id).established) c.dead = true;
                continue;
            }
            if (w.now - c.lastOk >= inactive + sec) fail(fmt("connection %llu is still held although inactive for %lld us", (unsigned long long)c.id, (long long)(w.now - c.lastOk)));
        }
    }

    bool advanceTo(Cli& c, int phase)
    {
        if (c.phase == 0) hello(c);
        if (phase >= 2 && usable(c) && c.phase == 1) { openChannel(c); check(); }
        return usable(c) && c.phase >= phase;
    }

    void burst()
    {
        // several clients at once; every message of the exchange is in flight together
        w.autoPump = false;
        inBurst = true;
        std::vector<Cli*> v;
        for (auto& c : clients) if (usable(c) && c.phase >= 1 && src.coin() && v.size() < 6) v.push_back(&c);
        for (Cli* c : v) { if (c->phase == 1) openChannel(*c, false); else request(*c, randomKind(), false); if (src.coin()) w.step(); }
        w.autoPump = true;
        inBurst = false;
        w.pump();
        check();
        if (v.size() > 1) ctx.label("concurrent exchange");
    }

    void forget() { clients.erase(std::remove_if(clients.begin(), clients.end(), [](Cli const& c) { return c.dead; }), clients.end()); }

    // a request without frills, in one piece
    void plain(Cli& c)
    {
        UaGetEndpointsReq q;
        Expect e;
        e.kind = GetEndpoints;
        e.requestId = c.seq * 3 + 1;
        e.from = uaNow();
        c.seq += 1;
        c.expect = e;
        w.deliver(c.id, secured(c, "MSG", typed(428, q), e.requestId, c.chId, c.token, c.seq));
        check();
    }

    // Capacity and function after everybody left.
    void fullService(unsigned n)
    {
        std::vector<std::size_t> fresh;
        for (unsigned k = 0; k < n; ++k)
        {
            Cli* c = dial();
            PBT_REQUIRE(w.open(c->id), "connection %u of %u is refused although nobody else is connected", k + 1, n);
            fresh.push_back(clients.size() - 1);
            hello(clients[fresh.back()]);
            openChannel(clients[fresh.back()]);
            check();
            PBT_REQUIRE(clients[fresh.back()].phase == 2, "connection %u of %u cannot open a channel", k + 1, n);
        }
        for (auto k : fresh) { request(clients[k], GetEndpoints, false); check(); }
    }

    void leave()
    {
        VAcceptor* a = w.acceptor();
        PBT_REQUIRE(a, "the server stopped listening");
        bool const abrupt = src.chance(1, 3);           // everybody is reset: nothing has to expire
        for (unsigned round = 0; abrupt && round < 60; ++round)
        {
            for (auto& c : clients) if (w.open(c.id)) { w.peerReset(c.id); c.dead = true; }
            w.pump();
            if (a->pending.empty()) break;
            w.fireAccepts(*a, 64);
        }
        for (unsigned round = 0; !abrupt && round < 60; ++round)
        {
            for (auto& c : clients) if (w.open(c.id) && src.coin()) { if (src.coin()) w.peerClose(c.id); else w.peerReset(c.id); }
            w.fireAccepts(*a, 64);
            w.advance(inactive + sec);
            for (auto& c : clients) { w.takeSent(c.id); c.expect.reset(); if (w.conn(c.id).established || !w.open(c.id)) c.dead = true; }
            if (a->pending.empty() && w.liveLinks() == 0) break;
        }
        w.pump();
        for (auto& c : clients) { w.takeSent(c.id); if (abrupt) { c.expect.reset(); c.dead = true; } }
        PBT_REQUIRE(w.liveLinks() == 0 && w.liveTimers() == 0, "everybody left, but %u links and %u timers are held", w.liveLinks(), w.liveTimers());
    }
};

// ------------------------------------------------------------------ C04

void c04(Src& src, Ctx& ctx)
{
    logging(src.chance(1, 16));
    Run r(src, ctx);
    unsigned n = 0, good = 0, bad = 0;
    if (src.chance(1, 4))
    {
        // every connection slot has a past: whatever its last user announced must not matter
        unsigned k = 32 + src.below(3);
        unsigned const len = src.below(40);
        while (k--)
        {
            Cli* c = r.dial();
            r.w.deliver(c->id, std::string(src.pick({"XXXX", "HELF", "OPNF"})) + le32(src.below(4) ? len : src.below(40)) + src.bytes(30, 4));
            r.w.takeSent(c->id);
            if (r.w.open(c->id)) r.w.peerClose(c->id);
            if (r.w.open(c->id)) r.w.advance(inactive);
            PBT_REQUIRE(!r.w.open(c->id), "a connection that sent garbage and left is kept");
            c->dead = true;
        }
        ctx.label("slots with a past");
    }
    while (n++ < 40 * src.scale && src.goOn(10))
    {
        if (r.openCount() >= 30) { r.leave(); continue; }
        Cli* c = r.dial();
        if (src.below(3)) { r.hello(*c); ++good; if (src.coin() && r.usable(*c)) { r.openChannel(*c); r.check(); } }
        else if (src.coin())
        {
            // not a Hello: never acknowledged
            ++bad;
            std::string g;
            HelloMessage h;
            h.endpointUrl.val = src.bytes(60, 20);
            switch (src.below(5))
            {
            case 0: g = src.bytes(60, 20); if (g.substr(0, 3) == "HEL") g.clear(); break;
            case 1: { static char const* const t[] = {"OPN", "MSG", "CLO", "ACK", "ERR", "HEM", "hel", "HE\0"}; g = helloFrame(h); g.replace(0, 3, std::string(src.pick(t), 3)); break; }
            case 2: g = helloFrame(h); g[4 + src.below(4)] ^= static_cast<char>(1 + src.below(255)); break;     // wrong length
            case 3: g = helloFrame(h); g.resize(8 + src.below(g.size() - 8)); for (unsigned k = 0; k < 4; ++k) g[4 + k] = static_cast<char>(g.size() >> (8 * k)); break;    // cut short
            default: g = helloFrame(h) + src.bytes(20, 5) + "x"; break;                                            // trailing bytes
            }
            r.say(fmt("conn %llu: not a Hello: %s", (unsigned long long)c->id, hex(g, 40).c_str()));
            auto parts = std::vector<std::string>{g};
            for (auto& p : parts) if (!p.empty() && r.w.open(c->id)) r.w.deliver(c->id, p);
            PBT_REQUIRE(r.w.conn(c->id).fromCode.empty(), "%s was acknowledged: %s", hex(g).c_str(), hex(r.w.conn(c->id).fromCode).c_str());
            c->murky = true;
            c->lastOk = r.w.now;
        }
        else if (src.coin()) { r.w.peerClose(c->id); c->dead = true; PBT_REQUIRE(!r.w.open(c->id), "the peer closed, the connection is kept"); }
        if (src.chance(1, 4)) r.passTime();
        r.check();
    }
    ctx.labels["acknowledged"] += good;
    if (good >= 1 && bad + r.faults >= 1) ctx.nontrivial();
}

// ------------------------------------------------------------------ long lives: thousands of requests on a channel, dozens of uses of every slot

unsigned longCount(Src& src)
{
    switch (src.below(8))
    {
    case 0: return 250 + src.below(400);
    case 1: case 2: return 253 + src.below(7);
    case 3: case 4: return (1u << (4 + src.below(7))) + src.below(7) - 3;
    case 5: return 1 + src.below(1500);
    case 6: return 509 + src.below(7);
    default: return src.below(60) ? 1021 + src.below(7) : 65533 + src.below(7);
    }
}

template <unsigned P> void uaLong(Src& outer, Ctx& ctx)
{
    logging(false);
    Src src = outer.fork();
    Run r(src, ctx);
    World& w = r.w;
    unsigned steps = 0, uses = 0;
    auto end = [&](std::size_t me)
    {
        Cli& c = r.clients[me];
        if (!w.open(c.id)) { c.dead = true; return; }
        switch (r.usable(c) && c.phase == 2 ? src.below(4) : src.below(3))
        {
        case 0: w.peerClose(c.id); break;
        case 1: w.peerReset(c.id); break;
        case 2: { w.advance(inactive - 1 - (w.now - c.lastOk)); PBT_REQUIRE(w.open(c.id), "the connection was closed before its time"); w.advance(1); break; }
        default: r.closeChannel(c); break;
        }
        PBT_REQUIRE(!w.open(c.id), "the connection is kept");
        c.dead = true;
    };
    auto talk = [&](std::size_t me, unsigned n)
    {
        unsigned const rich = src.pick({0u, 0u, 1u, 8u});
        for (; n && r.usable(r.clients[me]); --n, ++steps)
        {
            Cli& c = r.clients[me];
            if (c.phase < 2) r.advanceTo(c, 2);
            else if (rich && src.below(8) < rich) { r.request(c, r.randomKind(), false); r.check(); if (src.chance(1, 40)) w.advance(src.below(20 * sec)); }
            else r.plain(c);
        }
    };
    bool const turns = P == 4 || P == 7 || (P != 8 && src.below(10) == 0);
    if (turns)
    {
        // connections in turn: every slot is used dozens of times
        unsigned n = src.below(12) ? 480 + src.below(600) : src.below(8) ? 32 * src.range(30, 70) : 32 * 258;
        uses = n;
        int const always = src.below(3) ? -1 : static_cast<int>(src.below(5));
        while (n--)
        {
            Cli* c = r.dial();
            PBT_REQUIRE(w.open(c->id), "a connection is refused although nobody else is connected");
            std::size_t const me = r.clients.size() - 1;
            switch (always >= 0 ? always : static_cast<int>(src.below(5)))
            {
            case 0: break;                                                   // never says anything
            case 1: r.advanceTo(*c, 1); break;
            case 2: r.advanceTo(*c, 2); break;
            case 3: if (r.advanceTo(*c, 2)) talk(me, 1 + src.below(4)); break;
            default: r.advanceTo(*c, src.below(6) ? 2 : 1); if (r.usable(r.clients[me]) && r.clients[me].phase) r.violate(r.clients[me]); break;
            }
            end(me);
            r.check();
            r.forget();
            if (P == 7 && src.chance(1, 200)) { r.fullService(32); for (auto& k : r.clients) { w.peerClose(k.id); k.dead = true; } r.forget(); }
            if (r.sessions.size() >= 32 || r.lostSession) { break; }
        }
        if (!r.lostSession) r.fullService(32);
    }
    else
    {
        // a few connections, hundreds of messages each
        unsigned const others = src.below(3);
        for (unsigned k = 0; k < others; ++k) { Cli* c = r.dial(); r.advanceTo(*c, 2); }
        unsigned rounds = 1 + src.below(4);
        while (rounds-- && !r.lostSession)
        {
            Cli* c = r.dial();
            std::size_t const me = r.clients.size() - 1;
            if (P == 6 && src.below(4) == 0)
            {
                // one connection, channel after channel
                unsigned n = longCount(src) % 3000;
                r.advanceTo(*c, 1);
                while (n-- && r.usable(r.clients[me])) { r.openChannel(r.clients[me], false); r.check(); ++uses; if (src.below(4) == 0) talk(me, 1); }
            }
            else
            {
                r.advanceTo(*c, 2);
                talk(me, longCount(src));
            }
            if (P == 8)
            {
                // one session through many activations, reads and closings
                unsigned n = longCount(src) % 3000;
                while (n-- && r.usable(r.clients[me]))
                {
                    Cli& k = r.clients[me];
                    ++steps;
                    if (r.sessions.empty() || (src.chance(1, 20) && r.sessions.size() < 30)) r.request(k, CreateSession, false);
                    else r.request(k, static_cast<Kind>(src.pick({2, 4, 4, 4, 3})), false);
                    r.check();
                }
            }
            Cli& k = r.clients[me];
            if (r.usable(k) && (P == 5 || src.coin())) r.violate(k);
            for (unsigned o = 0; o < others; ++o) if (r.usable(r.clients[o])) { r.plain(r.clients[o]); }
            end(me);
        }
        for (unsigned o = 0; o < others; ++o) if (r.usable(r.clients[o])) { r.plain(r.clients[o]); }
    }
    ctx.labels["messages"] += steps;
    ctx.labels["connections or channels in turn"] += uses;
    if (ctx.wantText) ctx.say(fmt("%u messages, %u connections or channels in turn", steps, uses));
    if (steps >= 250 || uses >= 250) ctx.nontrivial();
}

// ------------------------------------------------------------------ C05

void c05(Src& src, Ctx& ctx)
{
    logging(src.chance(1, 16));
    Run r(src, ctx);
    unsigned n = 0;
    Cli* c0 = r.dial();
    r.advanceTo(*c0, 2);
    std::size_t const keeper = 0;
    while (n++ < 40 * src.scale && src.goOn(12))
    {
        // one honest client keeps working next to the violators
        Cli& k = r.clients[keeper];
        if (!r.usable(k)) break;
        if (r.w.now - k.lastOk > 20 * sec || src.below(4) == 0) { r.request(k, r.randomKind(), false); r.check(); continue; }
        if (r.openCount() >= 30) break;
        Cli* c = r.dial();
        std::size_t const me = r.clients.size() - 1;
        if (src.below(6)) r.advanceTo(*c, src.below(5) ? 2 : 1);
        unsigned q = src.below(3);
        while (q-- && r.usable(r.clients[me]) && r.clients[me].phase == 2) { r.request(r.clients[me], r.randomKind(), false); r.check(); }
        if (r.usable(r.clients[me])) r.violate(r.clients[me]);
        if (src.chance(1, 10)) { r.w.advance(src.below(5 * sec)); }
    }
    ctx.labels["violations"] += r.violations;
    if (r.violations >= 1 && r.answered >= 3) ctx.nontrivial();
}

// Connections and channels in turn until their slots are used again, in different steps: a new connection has no
// part in the channel its slot had before, whoever has that channel's number now.
void c05recycled(Src& src, Ctx& ctx)
{
    logging(false);
    Run r(src, ctx);
    auto leave = [&](Cli& c)
    {
        switch (r.usable(c) && c.phase == 2 ? src.below(3) : src.below(2))
        {
        case 0: r.w.peerClose(c.id); c.dead = true; break;
        case 1: r.w.peerReset(c.id); c.dead = true; if (r.w.open(c.id)) r.w.advance(inactive); break;
        default: r.closeChannel(c); break;
        }
        PBT_REQUIRE(!r.w.open(c.id), "the connection is kept");
    };
    std::vector<std::size_t> honest;
    auto work = [&]
    {
        for (std::size_t k : honest)
            if (r.usable(r.clients[k]) && (r.w.now - r.clients[k].lastOk > 15 * sec || src.chance(1, 4))) { r.request(r.clients[k], r.randomKind(), false); r.check(); }
    };
    unsigned before = src.below(3) ? 32 + src.below(8) : src.below(40);
    while (before--) { Cli* c = r.dial(); std::size_t const me = r.clients.size() - 1; r.advanceTo(*c, src.chance(1, 6) ? 1 : 2); leave(r.clients[me]); }
    unsigned skip = src.below(40);
    while (skip--) { Cli* c = r.dial(); std::size_t const me = r.clients.size() - 1; r.advanceTo(*c, 1); leave(r.clients[me]); }
    unsigned const victims = 1 + src.below(4);
    for (unsigned k = 0; k < victims; ++k) { Cli* c = r.dial(); honest.push_back(r.clients.size() - 1); r.advanceTo(*c, 2); }
    unsigned n = src.below(3) ? 28 + src.below(12) : src.below(40);
    while (n--)
    {
        work();
        if (r.lostSession) break;
        Cli* c = r.dial();
        std::size_t const me = r.clients.size() - 1;
        r.advanceTo(*c, src.chance(1, 12) ? 2 : 1);
        if (r.usable(r.clients[me])) r.violate(r.clients[me]);
        if (r.w.open(r.clients[me].id)) { r.w.peerClose(r.clients[me].id); r.clients[me].dead = true; }
    }
    for (std::size_t k : honest) if (r.usable(r.clients[k])) { r.request(r.clients[k], r.randomKind(), false); r.check(); }
    for (std::size_t k : honest) PBT_REQUIRE(r.lostSession || r.w.open(r.clients[k].id), "the connection of an honest client was closed");
    ctx.labels["violations"] += r.violations;
    if (r.violations >= 16 && r.answered >= 3) ctx.nontrivial();
}

// ------------------------------------------------------------------ C06

// Clients in turn, next to some that stay, so that all slots are used again.
void c06recycled(Src& src, Ctx& ctx)
{
    logging(false);
    Run r(src, ctx);
    std::vector<std::size_t> stay;
    unsigned n = src.below(3) ? 33 + src.below(50) : src.below(40);
    while (n--)
    {
        Cli* c = r.dial();
        std::size_t const me = r.clients.size() - 1;
        if (!c || !r.w.open(r.clients[me].id)) continue;
        r.advanceTo(*c, 2);
        unsigned k = src.below(5);
        if (src.chance(1, 400))        // somebody talkative
        {
            unsigned m = 1020 + src.below(40);
            ctx.label("more than 1000 requests on a channel");
            while (m-- && r.usable(r.clients[me]))
            {
                Cli& t = r.clients[me];
                UaGetEndpointsReq q;
                Expect e;
                e.kind = GetEndpoints;
                e.requestId = m;
                e.from = uaNow();
                t.seq += 1;
                t.expect = e;
                r.w.deliver(t.id, r.secured(t, "MSG", typed(428, q), e.requestId, t.chId, t.token, t.seq));
                r.check();
            }
        }
        while (k--)
        {
            std::size_t const who = stay.empty() || src.below(3) ? me : stay[src.below(stay.size())];
            if (!r.usable(r.clients[who])) continue;
            r.request(r.clients[who], r.randomKind(), src.chance(1, 4));
            r.check();
        }
        if (stay.size() < 6 && src.chance(1, 10)) { stay.push_back(me); continue; }
        Cli& e = r.clients[me];
        if (!r.w.open(e.id)) continue;
        switch (r.usable(e) && e.phase == 2 ? src.below(3) : src.below(2))
        {
        case 0: r.w.peerClose(e.id); e.dead = true; break;
        case 1: r.w.peerReset(e.id); e.dead = true; if (r.w.open(e.id)) r.w.advance(inactive); break;
        default: r.closeChannel(e); break;
        }
    }
    r.check();
    if (r.opened >= 33 && r.answered >= 5) ctx.nontrivial();
}

// All connections are taken and more clients wait; some leave in the middle of an exchange and their place is taken
// at once, while messages between the components are on their way.  The events come in rounds, as from epoll: what is
// ready at the start of a round is handled in any order, and of the messages those sent until their turn.
void c06overtaken(Src& src, Ctx& ctx)
{
    logging(false);
    Run r(src, ctx);
    World& w = r.w;
    unsigned fill = src.below(4) ? 30 + src.below(3) : src.below(32);
    while (fill--)
    {
        Cli* c = r.dial();
        w.deliver(c->id, helloFrame(HelloMessage{}));
        Expect h;
        h.kind = Hello;
        c->expect = h;
        r.check();
        if (src.coin()) { Expect e; std::string const f = r.openFrame(r.clients.back(), e, 0); r.clients.back().expect = e; w.deliver(r.clients.back().id, f); r.check(); ++r.opened; }
    }
    w.autoPump = false;
    std::map<std::size_t, std::deque<std::string>> inbound;      // "" is the end of the stream
    std::set<std::size_t> leaving;
    unsigned left = 0, taken = 0;
    auto look = [&]()
    {
        for (std::size_t k = 0; k < r.clients.size(); ++k)
        {
            Cli& c = r.clients[k];
            std::string out = w.takeSent(c.id);
            if (c.murky) continue;
            if (!out.empty())
            {
                PBT_REQUIRE(c.expect, "connection %llu was sent %s without having asked", (unsigned long long)c.id, hex(out).c_str());
                PBT_REQUIRE(out.size() >= 8 && rd32(out, 4) == out.size(), "connection %llu was sent %s in answer to one request", (unsigned long long)c.id, hex(out).c_str());
                Expect const e = *c.expect;
                c.expect.reset();
                r.checkOne(c, out, e);
                ++r.answered;
                if (e.kind == CloseChannel) c.murky = true;      // it is closed by the server now
            }
            if (!c.murky && !c.dead && !leaving.count(k) && w.conn(c.id).established) PBT_REQUIRE(w.open(c.id), "connection %llu was closed although its client did nothing wrong", (unsigned long long)c.id);
        }
    };
    auto round = [&]()
    {
        std::vector<std::size_t> items;          // client + 2, 0: accept, 1: messages
        VAcceptor* a = w.acceptor();
        PBT_REQUIRE(a, "the server stopped listening");
        if (!a->pending.empty()) items.push_back(0);
        if (!w.queue.empty()) items.push_back(1);
        for (auto& [k, q] : inbound) if (!q.empty() && w.open(r.clients[k].id)) items.push_back(k + 2);
        for (std::size_t k = items.size(); k > 1; --k) std::swap(items[k - 1], items[src.below(k)]);
        bool const any = !items.empty();
        for (std::size_t it : items)
        {
            if (it == 0)
            {
                if (w.liveLinks() >= 32) continue;
                if (left) ++taken;
                w.fireAccepts(*a, 1);
                r.say("  accept");
            }
            else if (it == 1) { std::size_t n = w.queue.size(); r.say(fmt("  %zu messages", n)); while (n--) w.step(); }
            else
            {
                Cli& c = r.clients[it - 2];
                auto& q = inbound[it - 2];
                if (!w.open(c.id)) continue;
                std::string const f = q.front();
                q.pop_front();
                r.say(fmt("  conn %llu: %s", (unsigned long long)c.id, f.empty() ? "end of stream" : f.substr(0, 3).c_str()));
                if (f.empty()) { w.peerClose(c.id); ++left; PBT_REQUIRE(c.murky || !w.open(c.id), "the peer closed, the connection is kept"); c.dead = true; c.expect.reset(); }
                else w.deliver(c.id, f);
            }
            look();
        }
        return any;
    };
    unsigned n = 0;
    while (n++ < 80 * src.scale && src.goOn(25))
    {
        unsigned acts = src.below(4);
        while (acts--)
        {
            unsigned const op = src.below(8);
            if (op < 2)
            {
                if (w.acceptor()->pending.size() >= 3) continue;
                Cli c;
                c.id = w.dial(*w.acceptor());
                Expect h;
                h.kind = Hello;
                c.expect = h;
                r.clients.push_back(c);
                inbound[r.clients.size() - 1].push_back(helloFrame(HelloMessage{}));
                r.say(fmt("conn %llu waits, Hello sent", (unsigned long long)c.id));
                continue;
            }
            std::vector<std::size_t> v;
            bool const recent = src.coin();
            for (std::size_t k = 0; k < r.clients.size(); ++k)
            {
                Cli& c = r.clients[k];
                if (c.dead || c.murky || leaving.count(k) || !w.open(c.id)) continue;
                if (recent && !c.expect && k + 8 < r.clients.size()) continue;
                v.push_back(k);
            }
            if (v.empty()) continue;
            std::size_t const k = v[v.size() - 1 - src.below(v.size())];
            Cli& c = r.clients[k];
            if (!c.expect && c.phase >= 1)
            {
                Expect e;
                std::string f;
                switch (c.phase == 1 ? src.below(3) : 3 + src.below(5))
                {
                case 0: case 1: case 3: f = r.openFrame(c, e, 0); ++r.opened; break;
                case 2: f = r.openFrame(c, e, 0); f.resize(12 + src.below(f.size() - 12)); for (unsigned b = 0; b < 4; ++b) f[4 + b] = static_cast<char>(f.size() >> (8 * b)); c.murky = true; ++r.violations; break;
                case 4: { UaGetEndpointsReq g; c.murky = true; f = r.secured(c, "MSG", typed(428, g), 9, c.chId, c.token ^ 1, c.seq + 1); ++r.violations; break; }
                case 5: { UaCloseSecureChannelReq g; e.kind = CloseChannel; e.requestId = static_cast<std::uint32_t>(src.integer(32)); e.from = uaNow(); c.seq += 1; f = r.secured(c, "CLO", typed(452, g), e.requestId, c.chId, c.token, c.seq); break; }
                default: { UaGetEndpointsReq g; e.kind = GetEndpoints; e.requestId = static_cast<std::uint32_t>(src.integer(32)); e.from = uaNow(); c.seq += 1; f = r.secured(c, "MSG", typed(428, g), e.requestId, c.chId, c.token, c.seq); break; }
                }
                if (!c.murky) c.expect = e;
                inbound[k].push_back(f);
                r.say(fmt("conn %llu sends %s%s", (unsigned long long)c.id, f.substr(0, 3).c_str(), c.murky ? " (invalid)" : ""));
                if (src.below(3) == 0) { leaving.insert(k); inbound[k].push_back(""); r.say(fmt("conn %llu leaves", (unsigned long long)c.id)); }
            }
            else if (src.coin()) { leaving.insert(k); inbound[k].push_back(""); r.say(fmt("conn %llu leaves", (unsigned long long)c.id)); }
        }
        round();
    }
    unsigned guard = 0;
    auto reachable = [&]() { if (!w.queue.empty() || (!w.acceptor()->pending.empty() && w.liveLinks() < 32)) return true; for (auto& [k, q] : inbound) if (!q.empty() && w.open(r.clients[k].id)) return true; return false; };
    while (reachable()) { round(); PBT_REQUIRE(++guard < 400, "messages never settle"); }
    for (auto& c : r.clients) PBT_REQUIRE(c.dead || c.murky || !c.expect || !w.open(c.id), "%s on connection %llu was not answered", kindName(c.expect->kind), (unsigned long long)c.id);
    ctx.labels["left in the middle"] += left;
    ctx.labels["places taken again"] += taken;
    if (left >= 1 && taken >= 1 && r.answered >= 3) ctx.nontrivial();
}

void c06(Src& src, Ctx& ctx)
{
    logging(src.chance(1, 16));
    Run r(src, ctx);
    unsigned n = 0;
    while (n++ < 120 * src.scale && src.goOn(30))
    {
        r.accepts();
        switch (src.below(12))
        {
        case 0: if (r.openCount() < 31) { Cli* c = r.dial(); r.advanceTo(*c, src.below(3)); } break;
        case 1: if (Cli* c = r.pick(0)) r.advanceTo(*c, 2); break;
        case 2: if (Cli* c = r.pick(1)) { r.openChannel(*c); r.check(); } break;
        case 3: if (Cli* c = r.pick(2)) { if (src.below(3) == 0) r.closeChannel(*c); else { r.openChannel(*c); r.check(); } } break;
        case 4: if (Cli* c = r.pickAny()) r.disturb(*c); break;
        case 5: r.passTime(); break;
        case 6: case 7: r.burst(); break;
        default: if (Cli* c = r.pick(2)) { r.request(*c, r.randomKind(), r.mayPause(*c)); r.check(); } else { Cli* d = r.openCount() < 31 ? r.dial() : nullptr; if (d) r.advanceTo(*d, 2); } break;
        }
        if (r.lostSession) break;       // its number is unknown to the model
    }
    ctx.labels["answered"] += r.answered;
    ctx.labels["channels"] += r.opened;
    ctx.labels["faults"] += r.faults;
    if (r.answered >= 5 && r.opened >= 2) ctx.nontrivial();
}

// ------------------------------------------------------------------ C07

void c07history(Src& src, Ctx& ctx)
{
    logging(src.chance(1, 16));
    Run r(src, ctx);
    World& w = r.w;
    unsigned n = 0;
    bool const lag = src.coin();
    // what a peer sends may be the last it sends: then one event announces both the bytes and the end
    auto give = [&](std::uint64_t id, std::string const& bytes)
    {
        if (w.open(id) && src.chance(1, 10)) { w.conn(id).eof = true; ctx.label("sent and left at once"); ++r.faults; }
        w.deliver(id, bytes);
    };
    while (n++ < 150 * src.scale && src.goOn(30))
    {
        w.autoPump = !lag;
        std::size_t const open = r.openCount();
        Cli* c = nullptr;
        if (open < (lag ? 6u : 40u) && (open == 0 || src.below(4) == 0))
        {
            unsigned k = !lag && src.chance(1, 6) ? 30 : 1;
            while (k--) { Cli x; x.id = w.dial(*w.acceptor()); r.clients.push_back(x); w.fireAccepts(*w.acceptor(), 1); }
            c = &r.clients.back();
        }
        else c = r.pickAny();
        if (!c) { w.autoPump = true; w.pump(); continue; }
        unsigned const op = src.below(10);
        if (src.chance(1, 12) && w.acceptor()->pending.empty()) { std::size_t const me = c - r.clients.data(); r.failingAccept(); c = &r.clients[me]; }
        r.say(fmt("t=%lld conn %llu: op %u%s", (long long)w.now, (unsigned long long)c->id, op, lag ? " (messages in flight)" : ""));
        switch (op)
        {
        case 0: case 1: give(c->id, helloFrame(HelloMessage{})); if (c->phase == 0) c->phase = 1; break;
        case 2: case 3: case 4:
        {
            if (c->phase == 0) { give(c->id, helloFrame(HelloMessage{})); c->phase = 1; }
            Expect e;
            give(c->id, r.openFrame(*c, e, 0));
            ++r.opened;
            break;
        }
        case 5: { std::string g = r.garbage(*c); if (!g.empty()) give(c->id, g); ++r.faults; break; }
        case 6: w.peerClose(c->id); ++r.faults; break;
        case 7: w.peerReset(c->id); ++r.faults; break;
        case 8: w.conn(c->id).failSend = true; ++r.faults; break;
        default:
        {
            // a request with what the peer knows of its channel
            std::string& out = w.conn(c->id).fromCode;
            std::size_t const at = out.rfind("OPNF");
            if (at != std::string::npos && out.size() >= at + 130) { c->chId = rd32(out, at + 8); c->token = rd32(out, at + rd32(out, at + 4) - 4 - 4 - 8 - 4); }
            c->seq += 1;
            UaGetEndpointsReq q;
            give(c->id, r.secured(*c, src.chance(1, 4) ? "CLO" : "MSG", typed(428, q), 3, c->chId, c->token, c->seq));
            break;
        }
        }
        if (lag && src.chance(1, 20))
        {
            // a crowd comes and mostly goes again before any message between the components is handled
            unsigned k = 24 + src.below(16);
            while (k--)
            {
                Cli x;
                x.id = w.dial(*w.acceptor());
                r.clients.push_back(x);
                w.fireAccepts(*w.acceptor(), 1);
                if (!w.open(x.id)) continue;
                if (src.below(4) == 0) { w.deliver(x.id, helloFrame(HelloMessage{})); r.clients.back().phase = 1; }
                if (src.below(8)) { if (src.coin()) w.peerClose(x.id); else w.peerReset(x.id); }
            }
            ctx.label("crowds while messages are in flight");
        }
        if (lag) { unsigned k = src.below(4); while (k-- && w.step()); if (n % 8 == 0) w.pump(); }
        else if (src.chance(1, 10)) w.advance(src.below(31 * sec));
    }
    w.autoPump = true;
    w.pump();
    r.leave();
    r.sessions.clear();
    r.fullService(32);
    if (r.opened >= 1 && r.faults >= 1) ctx.nontrivial();
    if (lag) ctx.label("messages in flight during events");
    ctx.labels["faults"] += r.faults;
    ctx.labels["channels opened"] += r.opened;
}

// Many clients in turn: every way to end a connection gives its slots back.
void c07recycling(Src& src, Ctx& ctx)
{
    logging(false);
    Run r(src, ctx);
    unsigned const total = 33 + src.below(80);
    unsigned const way = src.below(8);
    unsigned const failing = src.below(3);
    for (unsigned k = 0; k < total; ++k)
    {
        if (failing == 1 || (failing == 2 && src.coin())) r.failingAccept();
        Cli* p = r.dial();
        PBT_REQUIRE(r.w.open(p->id), "connection %u is refused", k);
        std::size_t const me = r.clients.size() - 1;
        Cli& c = r.clients[me];
        r.hello(c);
        r.openChannel(c);
        r.check();
        PBT_REQUIRE(c.phase == 2, "connection %u cannot open a channel", k);
        switch (way == 7 ? src.below(7) : way)
        {
        case 6: r.w.peerReset(c.id); c.dead = true; break;
        case 0: r.closeChannel(c); break;
        case 1: r.w.peerClose(c.id); c.dead = true; break;
        case 2: r.violate(c); if (r.w.open(c.id)) r.w.peerClose(c.id); c.dead = true; break;
        case 3: r.openChannel(c); r.check(); r.w.peerClose(c.id); c.dead = true; break;       // opens twice
        case 4: { Expect e; std::string f = r.openFrame(c, e, 0); f.resize(12 + src.below(40)); for (unsigned b = 0; b < 4; ++b) f[4 + b] = static_cast<char>(f.size() >> (8 * b)); r.w.deliver(c.id, f); c.murky = true; r.check(); r.w.peerClose(c.id); c.dead = true; break; }
        default: r.w.conn(c.id).failSend = true; r.request(c, GetEndpoints, false); r.check(); if (r.w.open(c.id)) r.w.peerClose(c.id); c.dead = true; break;
        }
        if (r.w.open(c.id)) r.w.advance(inactive);
        PBT_REQUIRE(!r.w.open(c.id), "connection %u is kept after ending %u", k, way);
    }
    r.say(fmt("%u clients in turn, ending %u", total, way));
    ctx.nontrivial();
}

// ------------------------------------------------------------------ C08

void c08(Src& src, Ctx& ctx)
{
    logging(src.chance(1, 16));
    Run r(src, ctx);
    unsigned const nc = 1 + src.below(4);
    for (unsigned k = 0; k < nc; ++k) { Cli* c = r.dial(); r.advanceTo(*c, 2); }
    unsigned n = 0;
    while (n++ < 200 * src.scale && src.goOn(40))
    {
        Cli* c = r.pick(2);
        if (!c) { Cli* d = r.dial(); r.advanceTo(*d, 2); continue; }
        switch (src.below(14))
        {
        case 0: if (r.openCount() < 20) { Cli* d = r.dial(); r.advanceTo(*d, 2); } break;
        case 1: if (src.coin()) { r.w.peerClose(c->id); c->dead = true; } else if (src.coin()) r.closeChannel(*c); else { r.openChannel(*c); r.check(); } break;
        case 2: case 3: r.request(*c, CreateSession, false); r.check(); break;
        case 4: { unsigned k = 1 + src.below(8); while (k--) { r.request(*c, CreateSession, false); r.check(); } break; }
        case 5: case 6: case 7: r.request(*c, ActivateSession, false); r.check(); break;
        case 8: r.request(*c, CloseSession, false); r.check(); break;
        case 9: r.burst(); break;
        default: r.request(*c, Read, false); r.check(); break;
        }
    }
    // every session that is closed can be created again
    {
        r.accepts();
        Cli* d = r.openCount() < 32 ? r.dial() : nullptr;
        if (d && r.advanceTo(*d, 2))
        {
            while (!r.sessions.empty())
            {
                std::uint32_t const sid = r.sessions.begin()->first;
                UaCloseSessionReq q;
                q.requestHdr.authentificationToken.value.emplace<0>() = sid;
                Expect e;
                e.kind = CloseSession; e.requestId = 5; e.from = uaNow(); e.handle = 0;
                q.requestHdr.requestHandle = 0u;
                d->seq += 1;
                d->expect = e;
                r.w.deliver(d->id, r.secured(*d, "MSG", typed(473, q), 5, d->chId, d->token, d->seq));
                r.check();
                r.sessions.erase(sid);
            }
            for (unsigned k = 0; k < 32; ++k) { r.request(*d, CreateSession, false); r.check(); }
            PBT_REQUIRE(r.sessions.size() == 32, "only %zu of 32 sessions can be created after all were closed", r.sessions.size());
        }
    }
    ctx.labels["reads answered"] += r.reads;
    ctx.labels["reads refused"] += r.deniedReads;
    ctx.labels["sessions closed"] += r.closedSessions;
    if (r.reads >= 1 && r.deniedReads >= 1) ctx.nontrivial();
}

// Channels in turn until their numbers are used again: the new owner of a number inherits nothing.
void c08reuse(Src& src, Ctx& ctx)
{
    logging(false);
    Run r(src, ctx);
    unsigned const total = 33 + src.below(40);
    for (unsigned k = 0; k < total; ++k)
    {
        Cli* p = r.dial();
        std::size_t const me = r.clients.size() - 1;
        if (!r.advanceTo(*p, 2)) fail(fmt("connection %u cannot open a channel", k));
        Cli& c = r.clients[me];
        auto ask = [&](Kind q) { if (!r.usable(c)) return; r.request(c, q, false); r.check(); };
        unsigned n = src.below(4);
        if (src.coin()) ask(Read);
        while (n--)
        {
            if (r.sessions.empty()) ask(CreateSession);
            ask(static_cast<Kind>(src.pick({1, 2, 2, 2, 3, 4, 4})));
        }
        switch (src.below(5))
        {
        case 0: r.closeChannel(c); break;
        case 1: r.w.peerClose(c.id); c.dead = true; break;
        case 2: r.w.peerReset(c.id); c.dead = true; if (r.w.open(c.id)) r.w.advance(inactive); break;
        case 3: r.w.advance(inactive); c.dead = true; break;
        default: if (src.coin()) r.violate(c); if (r.w.open(c.id)) r.w.peerClose(c.id); c.dead = true; break;
        }
        PBT_REQUIRE(!r.w.open(c.id), "connection %u is kept", k);
        r.check();
    }
    ctx.labels["reads answered"] += r.reads;
    ctx.labels["reads refused"] += r.deniedReads;
    if (r.reads >= 1 && r.deniedReads >= 1) ctx.nontrivial();
}

PBT_SUB("C04", "long", "a few connections with up to 1,500 (rarely 65,540) messages each, counts around powers of two preferred, or 480 to 8,256 connections in turn so that every slot is used dozens of times; then a violation, an end of every kind, or all 32 in use at once; non-trivial: at least 250 messages or connections", 160, 3200, uaLong<4>, 90);
PBT_SUB("C04", "handshake", "up to 40 connections in turn, each with a Hello of random content cut into random pieces, something that is not a Hello, or a disconnect, with time passing; non-trivial: at least one valid Hello and one invalid opening", 30000, 600000, c04);
PBT_SUB("C05", "long", "a few connections with up to 1,500 (rarely 65,540) messages each, counts around powers of two preferred, or 480 to 8,256 connections in turn so that every slot is used dozens of times; then a violation, an end of every kind, or all 32 in use at once; non-trivial: at least 250 messages or connections", 1600, 40000, uaLong<5>, 90);
PBT_SUB("C05", "violations", "an honest client and up to 40 violators (wrong or foreign channel id, token, sequence number, message type, message before the channel, truncated message) with random pieces; non-trivial: a violation and at least 3 answered requests", 20000, 500000, c05);
PBT_SUB("C05", "recycled", "up to 80 connections in turn, with and without a channel, then 1-4 honest clients and up to 40 violators naming their channels, so that connections and channels get slots used before; non-trivial: at least 16 violations and 3 answered requests", 3000, 100000, c05recycled);
PBT_SUB("C06", "long", "a few connections with up to 1,500 (rarely 65,540) messages each, counts around powers of two preferred, or 480 to 8,256 connections in turn so that every slot is used dozens of times; then a violation, an end of every kind, or all 32 in use at once; non-trivial: at least 250 messages or connections", 400, 8000, uaLong<6>, 90);
PBT_SUB("C06", "history", "random histories of up to 120 operations of any number of clients (hello, open, re-open and close channel, all five services with random bodies, concurrent exchanges, garbage, disconnects, write failures, time); non-trivial: at least 5 answers and 2 channels", 20000, 500000, c06);
PBT_SUB("C06", "long-history", "the histories of history, 12 times as long; non-trivial by the same rule", 160, 4000, longer<12>(c06), 90);
PBT_SUB("C06", "overtaken", "up to 32 connections are taken and more clients wait, Hello already sent; 80 rounds of events in any order, clients leaving in the middle of an exchange so that their place is taken while messages between the components are on their way; non-trivial: at least one left, one place taken afterwards, 3 answers", 3000, 100000, c06overtaken);
PBT_SUB("C06", "long-overtaken", "the histories of overtaken, 10 times as long; non-trivial by the same rule", 60, 2000, longer<10>(c06overtaken), 90);
PBT_SUB("C06", "recycled", "up to 82 clients in turn, each opening a channel and making up to 4 requests, next to up to 6 that stay, so that connections and channels get slots used before; non-trivial: at least 33 channels and 5 answers", 1200, 60000, c06recycled);
PBT_SUB("C07", "long", "a few connections with up to 1,500 (rarely 65,540) messages each, counts around powers of two preferred, or 480 to 8,256 connections in turn so that every slot is used dozens of times; then a violation, an end of every kind, or all 32 in use at once; non-trivial: at least 250 messages or connections", 80, 1600, uaLong<7>, 90);
PBT_SUB("C07", "history", "random histories of up to 150 unconstrained operations, half of them with messages between the components still in flight; then everybody leaves and 32 clients must be served at once; non-trivial: at least one opened channel and one fault", 8000, 250000, c07history);
PBT_SUB("C07", "long-history", "the histories of history, 10 times as long; non-trivial by the same rule", 80, 2000, longer<10>(c07history), 90);
PBT_SUB("C07", "recycling", "33-112 clients in turn, each opening a channel and ending in one of 6 ways; every case is non-trivial", 2000, 60000, c07recycling);
PBT_SUB("C08", "long", "a few connections with up to 1,500 (rarely 65,540) messages each, counts around powers of two preferred, or 480 to 8,256 connections in turn so that every slot is used dozens of times; then a violation, an end of every kind, or all 32 in use at once; non-trivial: at least 250 messages or connections", 200, 4000, uaLong<8>, 90);
PBT_SUB("C08", "sessions", "random histories of up to 200 session operations on several channels against a session model, then all sessions are closed and 32 created; non-trivial: a read answered and a read refused", 20000, 500000, c08);
PBT_SUB("C08", "long-sessions", "the histories of sessions, 12 times as long; non-trivial by the same rule", 160, 4000, longer<12>(c08), 90);
PBT_SUB("C08", "reuse", "33-72 clients in turn, each opening a channel, running a few session operations and ending in one of 5 ways, so that channel numbers are used again; non-trivial: a read answered and a read refused", 3000, 100000, c08reuse);

} // namespace

