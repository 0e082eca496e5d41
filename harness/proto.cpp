// The OPC UA connection and secure channel objects of the common library (common/ua/protocols), on the
// deterministic world.  C27 connections (server side, reverse connecting server side, client side),
// C28 server secure channels.

#include "pbt.hpp"
#include "uaref.hpp"
#include "world.hpp"

#include "ServerConnection.hpp"
#include "ClientConnection.hpp"
#include "OpcUaServerSecureChannel.hpp"

#include <optional>

using namespace pbt;
using namespace world;
using namespace uaref;

namespace
{

constexpr std::int64_t sec = 1000000;

std::string le32(std::uint32_t v) { Bytes b; b.le(v, 4); return b.b; }
std::uint32_t rd32(std::string const& s, std::size_t at)
{
    if (at + 4 > s.size()) fail("short frame");
    std::uint32_t v = 0;
    for (unsigned i = 0; i < 4; ++i) v |= static_cast<std::uint32_t>(static_cast<unsigned char>(s[at + i])) << (8 * i);
    return v;
}

std::string helloFrame(HelloMessage const& h)
{
    std::string const b = refBytes(h);
    return std::string("HELF") + le32(8 + b.size()) + b;
}

std::string ackFrame(AcknowledgeMessage const& h)
{
    std::string const b = refBytes(h);
    return std::string("ACKF") + le32(8 + b.size()) + b;
}

std::vector<std::string> split(Src& src, std::string const& s)
{
    std::vector<std::string> v;
    std::size_t at = 0;
    switch (src.below(4))
    {
    case 0: v.push_back(s); return v;
    case 1: if (s.size() < 80) { for (char c : s) v.push_back(std::string(1, c)); return v; } [[fallthrough]];
    case 2:
    {
        std::size_t const k = 1 + src.below(src.coin() && s.size() > 16 ? 15 : s.size() - 1);
        return {s.substr(0, k), s.substr(k)};
    }
    default:
        while (at < s.size())
        {
            std::size_t const k = std::min<std::size_t>(s.size() - at, 1 + src.below(src.coin() ? 9 : 200));
            v.push_back(s.substr(at, k));
            at += k;
        }
        return v;
    }
}

reactor::LinkAddr addrOf(unsigned host, unsigned port)
{
    reactor::LinkAddr a{};
    a.data[0] = 127; a.data[3] = static_cast<char>(host);
    a.data[4] = static_cast<char>(port >> 8); a.data[5] = static_cast<char>(port);
    return a;
}

std::string dump(std::vector<std::string> const& v) { std::string s; for (auto& e : v) { s += e; s += ' '; } return s; }

// What the owner of a connection sees, and how it reacts while being told.
struct Owner : OpcUaConnectionHandler
{
    std::vector<std::string> log;
    std::function<void()> onUp, onData;
    void onConnectionConnectedEvent() override { log.push_back("connected"); if (onUp) onUp(); }
    void onConnectionDataReceivedEvent() override { log.push_back("data"); if (onData) onData(); }
    void onConnectionErrorEvent() override { log.push_back("error"); }
    void onConnectionClosedEvent() override { log.push_back("closed"); }
    std::vector<std::string> take() { std::vector<std::string> v; v.swap(log); return v; }
};

enum class Kind { accepting, reverse, client };

struct Bench
{
    World w{8};
    Owner owner;
    Kind kind;
    std::unique_ptr<ServerConnection> server;
    std::unique_ptr<ClientConnection> client;
    reactor::AcceptorPtr acceptor;
    std::vector<reactor::TimerPtr> hog;

    explicit Bench(Kind k) : kind(k)
    {
        if (k == Kind::client) client = std::make_unique<ClientConnection>(w, owner);
        else server = std::make_unique<ServerConnection>(w, owner);
        acceptor = w.createAcceptor([]() {});
        acceptor->listen(addrOf(1, 4841));
    }
    ~Bench() { w.tearingDown = true; }
    OpcUaConnection& object() { return client ? static_cast<OpcUaConnection&>(*client) : *server; }
    // starts an attempt; returns the id of the connection it uses (0: none was made)
    std::uint64_t start(unsigned port)
    {
        std::uint64_t const before = w.connSeq;
        std::uint64_t id = 0;
        if (kind == Kind::accepting)
        {
            id = w.dial(*w.acceptor());
            reactor::LinkPtr link = w.createLink([](auto) {});
            acceptor->accept(*link);
            w.guarded([&]() { server->accept(link); });
            return id;
        }
        w.guarded([&]() { if (client) client->connect(addrOf(1, port)); else server->connect(addrOf(1, port)); });
        if (w.connSeq == before) return 0;
        id = w.connSeq;
        PBT_REQUIRE(w.conn(id).addr.data[5] == static_cast<char>(port) && w.conn(id).addr.data[0] == 127, "connected to another address than asked for");
        return id;
    }
    void close() { w.guarded([&]() { if (client) client->close(); else server->close(); }); }
    bool send(std::string const& s)
    {
        OpcUaSduBuffer tx;
        for (char c : s) tx.write(static_cast<std::uint8_t>(c));
        bool ok = false;
        w.guarded([&]() { ok = object().send(tx) == OpcUaConnection::Result::done; });
        return ok;
    }
};

std::string someMessage(Src& src, std::size_t limit = 1024)
{
    static char const* const types[] = {"MSGF", "OPNF", "CLOF", "MSGC", "HELF", "ACKF", "ERRF", "XYZF"};
    std::string const type = src.chance(1, 8) ? src.bytesExact(4) : std::string(types[src.below(8)]);
    std::size_t n;
    switch (src.below(4))
    {
    case 0: n = src.below(5); break;
    case 1: n = limit - 8 - src.below(3); break;
    default: n = src.below(limit - 8);
    }
    std::string body(n, 0);
    std::uint64_t x = src.below(1u << 16);
    for (auto& c : body) { c = static_cast<char>(x); x = x * 6364136223846793005ull + 1442695040888963407ull; x ^= x >> 29; }
    return type + le32(8 + n) + body;
}

// how long a case gets: usually short, or hundreds of uses of one object, or hundreds of messages in one use
struct Extent
{
    unsigned uses{0}, steps{0};
    static unsigned count(Src& src)
    {
        switch (src.below(4))
        {
        case 0: return 250 + src.below(400);
        case 1: return 253 + src.below(8);
        case 2: return 509 + src.below(8);
        default: return (1u << (4 + src.below(6))) + src.below(8);
        }
    }
    static Extent pick(Src& src) { Extent e; if (src.coin()) e.uses = count(src); else e.steps = count(src); return e; }
    unsigned draw(Src& src, unsigned most) const { return steps ? steps : 1 + src.below(uses ? 3 : most); }
    bool again(Src& src, unsigned done, unsigned most) const { return uses ? done < uses : done < most && src.more(2); }
};

void connections(Src& src, Ctx& ctx, Extent const& extent)
{
    logging(!extent.uses && !extent.steps && src.chance(1, 20));
    Kind const kind = static_cast<Kind>(src.below(3));
    Bench b(kind);
    World& w = b.w;
    static char const* const names[] = {"accepting", "reverse", "client"};
    ctx.label(names[static_cast<int>(kind)]);
    ctx.say(names[static_cast<int>(kind)]);

    std::string const sentFirst = kind == Kind::accepting ? std::string()
        : kind == Kind::reverse ? std::string("RHEF") + le32(16) + le32(0xffffffff) + le32(0xffffffff)
        : std::string("HELF") + le32(32) + le32(0) + le32(65536) + le32(65536) + le32(65536) + le32(5000) + le32(0xffffffff);
    std::string const answer = kind == Kind::client ? std::string()
        : std::string("ACKF") + le32(28) + le32(0) + le32(65536) + le32(65536) + le32(5000u * 65536u) + le32(5000);

    unsigned attempts = 0, messages = 0, ups = 0;
    do
    {
        attempts += 1;
        unsigned const port = 1 + src.below(100);
        std::vector<std::string> expect;            // what the owner is told in this attempt
        std::vector<std::string> told;
        auto check = [&](char const* when)
        {
            for (auto& e : b.owner.take()) told.push_back(e);
            if (told != expect) fail(fmt("%s: the owner was told \"%s\", expected \"%s\"", when, dump(told).c_str(), dump(expect).c_str()));
        };
        auto gone = [&](char const* when, std::uint64_t id)
        {
            check(when);
            PBT_REQUIRE(w.liveLinks() == 0, "%s: a link is still held", when);
            PBT_REQUIRE(w.liveTimers() == b.hog.size(), "%s: a timer is still held", when);
            if (id) PBT_REQUIRE(!w.open(id), "%s: the connection is still open", when);
        };
        bool ended = false;
        std::uint64_t id = 0;
        b.owner.onUp = {};
        b.owner.onData = {};

        // ---- an attempt that cannot even begin
        if (src.chance(1, 12))
        {
            if (kind != Kind::accepting && src.coin())
            {
                ctx.label("connect fails at once");
                ctx.say("connect fails at once");
                w.failConnect = true;
                b.start(port);
                w.failConnect = false;
                // by the time a connection attempt may take, the owner knows, and nothing is held
                w.advance(3 * sec);
                expect.push_back("error");
                gone("a connect that failed at once", 0);
            }
            else
            {
                bool const links = kind != Kind::accepting && src.coin();
                ctx.label(links ? "no link" : "no timer");
                ctx.say(links ? "no link left" : "no timer left");
                std::vector<reactor::LinkPtr> held;
                if (links) while (held.size() < w.poolSize) held.push_back(w.createLink([](auto) {}));
                else while (b.hog.size() < w.poolSize) b.hog.push_back(w.createTimer([]() {}));
                std::uint64_t const failed = b.start(port);
                b.hog.clear();
                held.clear();
                w.advance(3 * sec);
                b.owner.take();
                expect.clear();
                gone("an attempt for which there was no timer", failed);
            }
            w.exceptions.clear();
            continue;
        }
        id = b.start(port);
        PBT_REQUIRE(id != 0, "no connection was attempted");
        check("start");
        std::int64_t deadline = w.now + (kind == Kind::accepting ? 1 : 3) * sec;
        std::string out;                             // expected bytes on the wire
        auto sent = [&](char const* when)
        {
            std::string const s = w.conn(id).fromCode;
            if (s != out) fail(fmt("%s: sent %s, expected %s", when, hex(s, 160).c_str(), hex(out, 160).c_str()));
        };
        auto wait = [&](std::int64_t us, char const* when) -> bool      // true: the attempt timed out
        {
            if (w.now + us < deadline) { w.advance(us); check(when); PBT_REQUIRE(w.open(id), "%s: closed too early", when); return false; }
            if (deadline - 1 > w.now) { w.advance(deadline - 1 - w.now); check(when); PBT_REQUIRE(w.open(id), "%s: closed too early", when); }
            w.advance(deadline - w.now);
            return true;
        };
        // ---- connecting
        if (kind != Kind::accepting)
        {
            if (src.chance(1, 2)) if (wait(src.below(src.chance(1, 4) ? 4 * sec : 3 * sec), "connecting"))
            {
                ctx.label("connect timeout");
                expect.push_back("error");
                gone("connect timeout", id);
                continue;
            }
            if (src.chance(1, 10))
            {
                ctx.label("refused");
                ctx.say("refused");
                w.refuse(id);
                expect.push_back("error");
                gone("refused", id);
                continue;
            }
            bool const failing = src.chance(1, 12);
            w.conn(id).failSend = failing;
            w.establish(id);
            if (failing)
            {
                ctx.label("greeting not sent");
                expect.push_back("error");
                gone("greeting not sent", id);
                continue;
            }
            out += sentFirst;
            sent("established");
            check("established");
            deadline = w.now + 1 * sec;
        }
        // ---- the handshake
        {
            std::string good;
            if (kind == Kind::client) { AcknowledgeMessage m; Gen g(src); GenVisitor v{g}; v(m); good = ackFrame(m); }
            else { HelloMessage m; Gen g(src); GenVisitor v{g}; v(m); good = helloFrame(m); if (good.size() > 1024) { m.endpointUrl.val.clear(); good = helloFrame(m); } }
            std::string bytes = good;
            enum { fine, wrongType, wrongSize, truncated, closes, resets, silent, cannotAnswer } how = fine;
            switch (src.below(16))
            {
            case 9: how = wrongType; break;
            case 10: how = wrongSize; break;
            case 11: how = truncated; break;
            case 12: how = closes; break;
            case 13: how = resets; break;
            case 14: how = silent; break;
            case 15: how = kind == Kind::client ? fine : cannotAnswer; break;
            default: break;
            }
            if (how == wrongType) bytes = (src.coin() ? std::string(kind == Kind::client ? "HEL" : "ACK") : std::string(src.coin() ? "RHE" : src.coin() ? "MSG" : kind == Kind::client ? "ACL" : "HEM")) + bytes.substr(3);
            if (how == wrongSize) bytes = bytes.substr(0, 4) + le32(src.coin() ? src.below(8) : bytes.size() - 1 - src.below(bytes.size() - 8)) + bytes.substr(8);
            if (how == truncated) { std::size_t const n = 8 + src.below(bytes.size() - 8); bytes = bytes.substr(0, 4) + le32(n) + bytes.substr(8, n - 8); }
            static char const* const hows[] = {"fine", "wrong type", "wrong size", "truncated", "peer closes", "peer resets", "silent", "cannot answer"};
            ctx.label(std::string("handshake ") + hows[how]);
            ctx.say(fmt("handshake %s, %zu bytes", hows[how], bytes.size()));
            // nested reactions of the owner
            bool const closesAtOnce = how == fine && src.chance(1, 8);
            bool const sendsAtOnce = how == fine && !closesAtOnce && src.chance(1, 6);
            if (closesAtOnce) b.owner.onUp = [&b]() { b.close(); };
            if (sendsAtOnce) b.owner.onUp = [&b]() { if (!b.send("MSGF0123")) fail("the owner of a connection that is up cannot send"); };
            auto parts = how == wrongSize ? std::vector<std::string>{bytes} : split(src, bytes);
            std::size_t const stop = how == closes || how == resets || how == silent ? src.below(parts.size()) : parts.size();
            if (how == cannotAnswer) w.conn(id).failSend = true;
            for (std::size_t k = 0; k < stop && !ended; ++k)
            {
                if (src.chance(1, 8)) if (wait(src.below(src.chance(1, 5) ? 2 * sec : 400000), "handshake"))
                {
                    ctx.label("handshake timeout");
                    expect.push_back("error");
                    gone("handshake timeout", id);
                    ended = true;
                    break;
                }
                w.deliver(id, parts[k]);
                if (k + 1 < stop && w.open(id)) { check("during the handshake"); sent("during the handshake"); }
                if (how == wrongSize && !w.open(id)) break;
            }
            if (ended) continue;
            switch (how)
            {
            case closes: w.peerClose(id); expect.push_back("error"); gone("peer closed during the handshake", id); continue;
            case resets: w.peerReset(id); expect.push_back("error"); gone("peer reset during the handshake", id); continue;
            case wrongType:
            case wrongSize:
                expect.push_back("error");
                if (w.conn(id).fromCode != out) fail("a handshake that is no handshake was answered");
                gone("bad handshake", id);
                continue;
            case cannotAnswer: expect.push_back("error"); gone("answer not sent", id); continue;
            case silent:
            case truncated:
                for (auto& e : b.owner.take()) told.push_back(e);
                if (told.empty()) { b.owner.log.clear(); w.advance(deadline - w.now); }
                for (auto& e : b.owner.take()) told.push_back(e);
                expect.push_back("error");
                if (w.conn(id).fromCode != out) fail("a handshake that did not come was answered");
                gone("handshake that never comes", id);
                w.exceptions.clear();
                continue;
            case fine: break;
            }
            expect.push_back("connected");
            out += answer;
            if (sendsAtOnce) out += "MSGF0123";
            check("handshake");
            sent("handshake");
            ups += 1;
            if (closesAtOnce)
            {
                ctx.label("owner closes while told it is up");
                gone("owner closed while told it is up", id);
                PBT_REQUIRE(w.exceptions.empty(), "exception: %s", w.exceptions.front().c_str());
                continue;
            }
        }
        // ---- up
        b.owner.onUp = {};
        std::int64_t const upAt = w.now;
        std::int64_t active = w.now;
        unsigned steps = extent.draw(src, 12);
        while (!ended && steps--)
        {
            // an idle connection ends 10 s after the last traffic at the latest, none before 10 s
            std::int64_t const earliest = upAt + 10 * sec;
            if (w.now < earliest) { check("up"); PBT_REQUIRE(w.open(id), "closed too early"); }
            else if (!w.open(id)) { expect.push_back("closed"); gone("time is up", id); ended = true; break; }
            unsigned const what = src.below(steps > 12 ? 9 : 16);
            if (what < 7)
            {
                std::string const m = someMessage(src);
                bool const closing = steps <= 12 && src.chance(1, 12);
                bool const replying = !closing && src.chance(1, 3);
                std::string const reply = replying ? someMessage(src, 1 + 1023) : std::string();
                std::string seen;
                b.owner.onData = [&]()
                {
                    auto& rx = b.object().getRxBuffer();
                    seen.assign(reinterpret_cast<char const*>(rx.begin()), rx.size());
                    if (replying && !b.send(reply)) fail("a reply could not be sent");
                    if (closing) b.close();
                };
                ctx.say(fmt("message of %zu bytes%s%s", m.size(), replying ? ", answered" : "", closing ? ", owner closes" : ""));
                auto const parts = split(src, m);
                for (std::size_t k = 0; k < parts.size() && !ended; ++k)
                {
                    if (k && src.chance(1, steps > 12 ? 200 : 12)) w.advance(src.below(sec));
                    if (w.now >= earliest && !w.open(id)) { expect.push_back("closed"); gone("time is up", id); ended = true; break; }
                    check("message under way");
                    w.deliver(id, parts[k]);
                    active = w.now;
                }
                if (ended) break;
                expect.push_back("data");
                out += reply;
                check("message");
                sent("message");
                if (seen != m) fail(fmt("the owner sees %s instead of the message %s", hex(seen).c_str(), hex(m).c_str()));
                b.owner.onData = {};
                messages += 1;
                if (closing) { gone("owner closed on a message", id); ended = true; ctx.label("owner closes on data"); }
            }
            else if (what < 9)
            {
                std::string const m = someMessage(src);
                bool const failing = src.chance(1, 6);
                w.conn(id).failSend = failing;
                bool const ok = b.send(m);
                w.conn(id).failSend = false;
                PBT_REQUIRE(ok == !failing, "send reported the wrong outcome");
                if (ok) { out += m; active = w.now; }
                check("send");
                sent("send");
            }
            else if (what < 11) { w.advance(src.below(src.chance(1, 4) ? 12 * sec : 2 * sec)); if (w.now < earliest) check("quiet"); }
            else if (what == 11)
            {
                ctx.label("owner closes");
                b.close();
                gone("owner closed", id);
                ended = true;
            }
            else if (what == 12)
            {
                ctx.label("peer closes");
                if (src.coin()) { std::string const m = someMessage(src); w.deliver(id, m.substr(0, src.below(m.size()))); }
                w.peerClose(id);
                expect.push_back("error");
                gone("peer closed", id);
                ended = true;
            }
            else if (what == 13)
            {
                ctx.label("peer resets");
                w.peerReset(id);
                expect.push_back("error");
                gone("peer reset", id);
                ended = true;
            }
            else if (what == 14)
            {
                // a header that announces less than what came with it
                ctx.label("bad size");
                std::string m = someMessage(src) + "x";
                m = m.substr(0, 4) + le32(src.coin() ? src.below(8) : 8 + src.below(m.size() - 8)) + m.substr(8);
                w.deliver(id, m);
                expect.push_back("error");
                gone("bad size", id);
                ended = true;
            }
            else
            {
                // a message far too large, piece by piece
                ctx.label("flood");
                std::uint32_t const n = src.coin() ? 5000 : static_cast<std::uint32_t>(src.integer(32) | 0x10000);
                std::string m = std::string("MSGF") + le32(n);
                m.resize(12000, 'x');
                unsigned const piece = 1 + src.below(3000);
                for (std::size_t at = 0; at < m.size() && w.open(id); at += piece) w.deliver(id, m.substr(at, piece));
                PBT_REQUIRE(!w.open(id) || n < 12000, "a message of %u bytes was taken in", n);
                expect.push_back("error");
                gone("flood", id);
                ended = true;
            }
        }
        b.owner.onData = {};
        if (!ended)
        {
            // nothing more: the connection ends by itself, 10 s after the last traffic at the latest
            ctx.label("idle");
            if (w.now < upAt + 10 * sec - 1) { w.advance(upAt + 10 * sec - 1 - w.now); check("idle"); PBT_REQUIRE(w.open(id), "an idle connection was closed too early"); }
            if (w.now < active + 10 * sec) w.advance(active + 10 * sec - w.now);
            expect.push_back("closed");
            gone("idle", id);
        }
        PBT_REQUIRE(w.exceptions.empty(), "exception: %s", w.exceptions.front().c_str());
        // a late event of the closed connection, and a later timer, mean nothing
        w.advance(15 * sec);
        gone("afterwards", id);
    } while (extent.again(src, attempts, 5));
    ctx.labels["messages"] += messages;
    ctx.labels["uses"] += attempts;
    if (ups && (messages || attempts > 1)) ctx.nontrivial();
}

// ---------------------------------------------------------------- C28
struct ChannelBench
{
    World w{8};
    OpcUaServerSecureChannel ch{EntityId{}, w};
    reactor::AcceptorPtr acceptor;
    std::vector<std::string> log;
    std::string body;
    std::function<void()> onRequest;
    ChannelBench()
    {
        acceptor = w.createAcceptor([]() {});
        acceptor->listen(addrOf(1, 4842));
        ch.setHandler([this](OpcUaSecureChannelEvent const& e)
        {
            switch (e.type)
            {
            case OpcUaSecureChannelEvent::established: log.push_back("established"); break;
            case OpcUaSecureChannelEvent::closed: log.push_back("closed"); break;
            case OpcUaSecureChannelEvent::error: log.push_back("error"); break;
            case OpcUaSecureChannelEvent::request:
            {
                log.push_back("request");
                auto& rx = e.channel.getRxBuffer();
                body.assign(reinterpret_cast<char const*>(rx.begin()), rx.size());
                if (onRequest) onRequest();
            }
            }
        });
    }
    ~ChannelBench() { w.tearingDown = true; }
    std::vector<std::string> take()
    {
        std::vector<std::string> v;
        for (auto& e : log) if (e != "established") v.push_back(e);
        log.clear();
        return v;
    }
};

void channels(Src& src, Ctx& ctx, Extent const& extent)
{
    logging(!extent.uses && !extent.steps && src.chance(1, 20));
    ChannelBench b;
    World& w = b.w;
    unsigned requests = 0, opens = 0, channels = 0;
    std::vector<std::uint32_t> olds;                 // tokens that are not valid any more
    do
    {
        channels += 1;
        std::uint64_t const id = w.dial(*w.acceptor());
        reactor::LinkPtr link = w.createLink([](auto) {});
        b.acceptor->accept(*link);
        w.guarded([&]() { b.ch.open(link); });
        b.take();
        auto expect = [&](std::vector<std::string> const& e, char const* when)
        {
            auto const got = b.take();
            if (got != e) fail(fmt("%s: the owner was told \"%s\", expected \"%s\"", when, dump(got).c_str(), dump(e).c_str()));
        };
        auto gone = [&](char const* when)
        {
            PBT_REQUIRE(!w.open(id), "%s: the connection is still open", when);
            PBT_REQUIRE(w.liveLinks() == 0 && w.liveTimers() == 0, "%s: a link or a timer is still held", when);
            w.advance(11 * sec);
            expect({}, when);
        };
        auto feed = [&](std::string const& m) { for (auto& p : split(src, m)) w.deliver(id, p); };
        HelloMessage hello;
        feed(helloFrame(hello));
        PBT_REQUIRE(w.takeSent(id).substr(0, 4) == "ACKF", "no acknowledge");
        std::int64_t const upAt = w.now;
        std::optional<std::uint32_t> token, channelId, txSeq;
        std::uint32_t rxSeq = 0;
        bool ended = false;
        unsigned steps = extent.draw(src, 14);
        unsigned const renewals = steps > 14 ? src.below(5) : 0;      // a long life of mostly requests, or mostly renewals
        std::optional<std::uint32_t> reqId;
        auto timeUp = [&]() -> bool
        {
            if (w.now < upAt + 10 * sec) { PBT_REQUIRE(w.open(id), "closed too early"); return false; }
            if (w.open(id)) return false;
            expect({"closed"}, "time is up");
            gone("time is up");
            ended = true;
            return true;
        };
        // one answer on the wire: headers as the channel promises, then the payload
        auto answer = [&](std::string const& type, std::uint32_t req) -> std::string
        {
            std::string const s = w.takeSent(id);
            PBT_REQUIRE(s.size() >= 12, "no answer");
            PBT_REQUIRE(s.substr(0, 4) == type, "answer of type %s", s.substr(0, 4).c_str());
            PBT_REQUIRE(rd32(s, 4) == s.size(), "an answer of %zu bytes announces %u", s.size(), rd32(s, 4));
            if (channelId) PBT_REQUIRE(rd32(s, 8) == *channelId, "answer for channel %u on channel %u", rd32(s, 8), *channelId);
            channelId = rd32(s, 8);
            std::size_t at = 12;
            if (type == "OPNF")
            {
                std::string const none = "http://opcfoundation.org/UA/SecurityPolicy#None";
                PBT_REQUIRE(s.substr(at) .substr(0, 4 + none.size() + 8) == le32(none.size()) + none + le32(0xffffffff) + le32(0xffffffff), "security header");
                at += 4 + none.size() + 8;
            }
            else
            {
                PBT_REQUIRE(rd32(s, at) == *token, "answer with token %u instead of %u", rd32(s, at), *token);
                at += 4;
            }
            std::uint32_t const sq = rd32(s, at);
            if (txSeq) PBT_REQUIRE(sq == *txSeq + 1, "sequence number %u after %u", sq, *txSeq);
            txSeq = sq;
            PBT_REQUIRE(rd32(s, at + 4) == req, "answer to request %u, it was %u", rd32(s, at + 4), req);
            return s.substr(at + 8);
        };
        while (!ended && steps--)
        {
            if (timeUp()) break;
            unsigned const what = steps > 14 ? (src.below(4) < renewals ? 0 : 5) : src.below(20);
            if (what < 4 || (!token && what < 12))
            {
                UaSecurityHeader sh;
                sh.securityPolicyUri.val = "http://opcfoundation.org/UA/SecurityPolicy#None";
                UaOpenSecureChannelReq m;
                if (src.coin()) { Gen g(src); GenVisitor v{g}; v(m); if (refBytes(m).size() > 800) m = UaOpenSecureChannelReq(); }
                std::uint32_t const life = static_cast<std::uint32_t>(src.integer(32));
                m.requestLifetime = life;
                ExpandedNodeId type;
                type.nodeId.value.emplace<0>() = 446u;
                std::uint32_t const sq = token ? rxSeq + 1 : static_cast<std::uint32_t>(src.integer(32));
                std::uint32_t const rq = static_cast<std::uint32_t>(src.integer(32));
                std::string const p = le32(channelId.value_or(0)) + refBytes(sh) + le32(sq) + le32(rq) + refBytes(type) + refBytes(m);
                bool const failing = steps <= 14 && src.chance(1, 15);
                w.conn(id).failSend = failing;
                feed(std::string("OPNF") + le32(8 + p.size()) + p);
                if (failing)
                {
                    ctx.label("answer not sent");
                    expect({"error"}, "an open answer that could not be sent");
                    gone("an open answer that could not be sent");
                    ended = true;
                    break;
                }
                expect({}, "open");
                PBT_REQUIRE(w.exceptions.empty(), "exception: %s", w.exceptions.front().c_str());
                std::string const a = answer("OPNF", rq);
                OpcUaSduBuffer buf;
                for (char c : a) buf.write(static_cast<std::uint8_t>(c));
                // reference bytes of the answer, but for its times and its token
                UaOpenSecureChannelRsp ref;
                std::string const typeBytes = [] { ExpandedNodeId t; t.nodeId.value.emplace<0>() = 449u; return refBytes(t); }();
                PBT_REQUIRE(a.substr(0, typeBytes.size()) == typeBytes, "type of the open answer");
                PBT_REQUIRE(a.size() == typeBytes.size() + refBytes(ref).size(), "length of the open answer");
                // ... serverProtocolVersion, channel id, token id, created at, lifetime, nonce
                std::size_t const at = a.size() - 4 - 4 - 8 - 4 - 4 - 4;
                PBT_REQUIRE(rd32(a, at) == 0, "protocol version");
                PBT_REQUIRE(rd32(a, at + 4) == *channelId, "the open answer names channel %u in its token, %u in its header", rd32(a, at + 4), *channelId);
                PBT_REQUIRE(rd32(a, at + 20) == life, "lifetime %u instead of %u", rd32(a, at + 20), life);
                ctx.say(fmt("%s, request %u", token ? "renew" : "open", rq));
                if (token) { ctx.label("renew"); if (*token != rd32(a, at + 8)) olds.push_back(*token); }
                token = rd32(a, at + 8);
                olds.erase(std::remove(olds.begin(), olds.end(), *token), olds.end());
                rxSeq = sq;
                reqId = rq;
                opens += 1;
            }
            else if (what < 12)
            {
                std::string body = src.bytesExact(src.chance(1, 6) ? 900 + src.below(100) : src.below(60));
                std::uint32_t const rq = static_cast<std::uint32_t>(src.integer(32));
                std::string const p = le32(*channelId) + le32(*token) + le32(rxSeq + 1) + le32(rq) + body;
                unsigned const replies = src.below(3);
                bool const nested = src.coin();
                std::vector<std::string> payload;
                for (unsigned k = 0; k < replies; ++k) payload.push_back(src.bytesExact(src.chance(1, 5) ? (src.coin() ? 1000 + src.below(3072) : 4060 + src.below(37)) : src.below(60)));
                auto reply = [&]()
                {
                    for (auto& x : payload)
                    {
                        OpcUaSduBuffer tx;
                        for (char c : x) tx.write(static_cast<std::uint8_t>(c));
                        w.guarded([&]() { b.ch.send(tx); });
                        if (x.size() > 4096 - 24)
                        {
                            // more than a message holds: nothing is sent, and nothing else changes
                            ctx.label("too large to send");
                            PBT_REQUIRE(w.takeSent(id).empty(), "part of a message that is too large was sent");
                            w.exceptions.clear();
                            continue;
                        }
                        std::string const got = answer("MSGF", rq);
                        if (got != x) fail("the payload of an answer was changed");
                    }
                };
                if (nested) b.onRequest = reply;
                feed(std::string("MSGF") + le32(8 + p.size()) + p);
                b.onRequest = {};
                expect({"request"}, "request");
                PBT_REQUIRE(b.body == body, "the owner sees another request: %s instead of %s", hex(b.body).c_str(), hex(body).c_str());
                PBT_REQUIRE(w.exceptions.empty(), "exception: %s", w.exceptions.front().c_str());
                if (!nested) reply();
                PBT_REQUIRE(w.takeSent(id).empty(), "more was sent than was asked for");
                rxSeq += 1;
                reqId = rq;
                requests += 1;
                ctx.say(fmt("request %u of %zu bytes, %u answers", rq, body.size(), replies));
            }
            else if (what == 12 && token)
            {
                bool const clo = src.coin();
                bool const badToken = src.coin();
                std::uint32_t const tk = badToken ? (olds.size() && src.coin() ? src.pick(olds) : src.coin() ? *token + 1 : src.coin() ? *token ^ (1u << src.below(32)) : *token ^ static_cast<std::uint32_t>(1 + src.below(0x7fffffff))) : *token;
                std::uint32_t const sq = badToken ? rxSeq + 1 : (src.coin() ? rxSeq : src.coin() ? rxSeq + 2 : src.coin() ? (rxSeq + 1) ^ (1u << src.below(32)) : rxSeq + 2 + static_cast<std::uint32_t>(src.below(0xfffffff0)));
                UaCloseSecureChannelReq m;
                std::string const p = le32(*channelId) + le32(tk) + le32(sq) + le32(7) + (clo ? std::string("\x01\x00\xc4\x01", 4) + refBytes(m) : "body");
                ctx.label(badToken ? "wrong token" : "wrong sequence number");
                ctx.say(badToken ? "wrong token" : "wrong sequence number");
                feed(std::string(clo ? "CLOF" : "MSGF") + le32(8 + p.size()) + p);
                expect({"error"}, "a message with a wrong token or sequence number");
                PBT_REQUIRE(w.takeSent(id).empty(), "a wrong message was answered");
                gone("a message with a wrong token or sequence number");
                ended = true;
            }
            else if (what == 13 && token)
            {
                UaCloseSecureChannelReq m;
                std::string const p = le32(*channelId) + le32(*token) + le32(rxSeq + 1) + le32(7) + std::string("\x01\x00\xc4\x01", 4) + refBytes(m);
                ctx.label("close");
                ctx.say("close");
                feed(std::string("CLOF") + le32(8 + p.size()) + p);
                expect({"closed"}, "close request");
                gone("close request");
                ended = true;
            }
            else if (what == 14 || what == 12 || what == 13)
            {
                // not a message the channel can act on in this state: never a request, never an answer
                std::string p = le32(5) + le32(7) + le32(1) + le32(2) + "body";
                if (token) w.deliver(id, std::string("ZZZF") + le32(8 + p.size()) + p);
                else w.deliver(id, std::string(src.coin() ? "MSGF" : src.coin() ? "CLOF" : "XXXF") + le32(8 + p.size()) + p);
                ctx.label("out of place");
                auto const got = b.take();
                for (auto& e : got) PBT_REQUIRE(e != "request", "a message out of place was given to the owner");
                PBT_REQUIRE(w.takeSent(id).empty(), "a message out of place was answered");
                if (!w.open(id)) { PBT_REQUIRE(got.size() == 1, "the owner was not told once"); gone("out of place"); ended = true; }
                else PBT_REQUIRE(got.empty(), "the owner was told of an end that did not come");
            }
            else if (what == 17)
            {
                // an open request that ends too early: no answer, and an end within the time of an idle connection
                UaSecurityHeader sh;
                UaOpenSecureChannelReq m;
                std::string const p = le32(channelId.value_or(0)) + refBytes(sh) + le32(rxSeq + 1) + le32(1) + std::string("\x01\x00\xbe\x01", 4) + refBytes(m);
                std::string const q = p.substr(0, src.below(p.size()));
                ctx.label("malformed open");
                feed(std::string("OPNF") + le32(8 + q.size()) + q);
                PBT_REQUIRE(w.takeSent(id).empty(), "a malformed open request was answered");
                w.advance(10 * sec);
                auto const got = b.take();
                PBT_REQUIRE(got.size() == 1 && (got[0] == "error" || got[0] == "closed"), "a malformed open request: the owner was told \"%s\"", dump(got).c_str());
                gone("a malformed open request");
                ended = true;
            }
            else if (what == 15)
            {
                ctx.label("peer closes");
                w.peerClose(id);
                expect({"error"}, "peer closed");
                gone("peer closed");
                ended = true;
            }
            else if (what == 16)
            {
                ctx.label("peer resets");
                w.peerReset(id);
                expect({"error"}, "peer reset");
                gone("peer reset");
                ended = true;
            }
            else { w.advance(src.below(src.chance(1, 4) ? 12 * sec : 2 * sec)); }
        }
        if (!ended)
        {
            ctx.label("idle");
            w.advance(11 * sec);
            expect({"closed"}, "idle");
            gone("idle");
        }
        if (token) olds.push_back(*token);
        w.exceptions.clear();
    } while (extent.again(src, channels, 4));
    ctx.labels["requests"] += requests;
    ctx.labels["uses"] += channels;
    if (requests) ctx.nontrivial();
}

void connectionsShort(Src& src, Ctx& ctx) { connections(src, ctx, Extent()); }
void connectionsLong(Src& outer, Ctx& ctx) { Src src = outer.fork(); Extent const e = Extent::pick(src); connections(src, ctx, e); }
void channelsShort(Src& src, Ctx& ctx) { channels(src, ctx, Extent()); }
void channelsLong(Src& outer, Ctx& ctx) { Src src = outer.fork(); Extent const e = Extent::pick(src); channels(src, ctx, e); }

PBT_SUB("C27", "connections", "one of three kinds of connection object, 1-5 attempts with up to 12 steps each after the handshake; non-trivial: a handshake was completed and messages exchanged or the object used again", 60000, 2000000, connectionsShort);
PBT_SUB("C27", "long", "one connection object used 16 to 650 times, or one connection with 16 to 650 messages, counts around powers of two preferred; non-trivial: a handshake was completed and messages exchanged or the object used again", 1200, 30000, connectionsLong);
PBT_SUB("C28", "channels", "1-4 channels on one object with up to 14 steps each; non-trivial: at least one request was passed to the owner", 60000, 2000000, channelsShort);
PBT_SUB("C28", "long", "one channel object used 16 to 650 times, or a channel with 16 to 650 requests and renewals, counts around powers of two preferred; non-trivial: at least one request was passed to the owner", 1200, 30000, channelsLong);

} // namespace

