// Modbus: codec (C09), arbitrary bytes (C10), client (C11..C13), server (C14, C15).
#include "pbt.hpp"
#include "world.hpp"

#include "ModbusCodec.hpp"
#include "ModbusComponent.hpp"
#include "Modbus.hpp"
#include "ModbusClient.hpp"
#include "ModbusServer.hpp"
#include "MsgStore.hpp"
#include "MsgModbusInitReq.hpp"
#include "MsgModbusReleaseReq.hpp"
#include "MsgModbusConfigReq.hpp"
#include "MsgModbusClientAduReq.hpp"
#include "MsgModbusAduRsp.hpp"

namespace
{

using namespace app;
using namespace app::modbus;
using namespace world;
using pbt::Ctx;
using pbt::Src;
using pbt::fmt;
using pbt::hex;

// ------------------------------------------------------------------ reference wire format

struct Req
{
    unsigned client{0};
    unsigned tid{0};
    unsigned func{3};
    unsigned addr{0};
    unsigned start{0};
    unsigned num{0};
    std::string data;

    std::string text() const { return fmt("client=%u tid=%u func=%u unit=%u start=%u num=%u data=%s", client, tid, func, addr, start, num, hex(data, 24).c_str()); }
};

void be(std::string& s, unsigned v) { s += static_cast<char>(v >> 8); s += static_cast<char>(v); }
std::string swapped(std::string const& d) { std::string s; for (std::size_t i = 0; i + 1 < d.size(); i += 2) { s += d[i + 1]; s += d[i]; } return s; }
bool coilValue(std::string const& d) { return d.size() == 2 && d[1] == 0 && (d[0] == 0 || d[0] == '\xff'); }

std::string adu(unsigned tid, std::string const& body, unsigned proto = 0, int len = -1)
{
    std::string s;
    be(s, tid);
    be(s, proto);
    be(s, len < 0 ? body.size() : len);
    return s + body;
}

bool refValid(Req const& r)
{
    if (r.addr > 247 || r.data.size() > 260) return false;
    switch (r.func)
    {
    case 1: case 2: return 2 + (r.num + 7) / 8 <= 253;
    case 3: case 4: return 2 + r.num * 2 <= 253;
    case 5: return r.num == 0 && coilValue(r.data);
    case 6: return r.num == 0 && r.data.size() == 2;
    case 16: return r.data.size() == r.num * 2 && 13 + r.data.size() <= 260;
    default: return false;
    }
}

std::string refRequest(Req const& r)
{
    std::string b;
    b += static_cast<char>(r.addr);
    b += static_cast<char>(r.func);
    be(b, r.start);
    switch (r.func)
    {
    case 1: case 2: case 3: case 4: be(b, r.num); break;
    case 5: b += r.data; break;                       // FF 00 or 00 00
    case 6: b += swapped(r.data); break;
    case 16: be(b, r.num); b += static_cast<char>(r.data.size()); b += swapped(r.data); break;
    }
    return adu(r.tid, b);
}

// Reference decoder of one complete request ADU.
bool refParseRequest(std::string const& s, Req& r)
{
    auto u = [&](std::size_t i) { return static_cast<unsigned>(static_cast<unsigned char>(s[i])); };
    auto w = [&](std::size_t i) { return u(i) << 8 | u(i + 1); };
    if (s.size() < 8 || s.size() >= 260) return false;
    if (w(2) != 0 || w(4) + 6 != s.size()) return false;
    r.tid = w(0);
    r.addr = u(6);
    r.func = u(7);
    r.data.clear();
    r.num = 0;
    if (r.addr > 247) return false;
    switch (r.func)
    {
    case 1: case 2: case 3: case 4:
        if (s.size() != 12) return false;
        r.start = w(8);
        r.num = w(10);
        return r.func <= 2 ? 2 + (r.num + 7) / 8 <= 253 : 2 + 2 * r.num <= 253;
    case 5: case 6:
        if (s.size() != 12) return false;
        r.start = w(8);
        r.data = r.func == 5 ? s.substr(10, 2) : swapped(s.substr(10, 2));
        return true;
    case 16:
        if (s.size() < 13) return false;
        r.start = w(8);
        r.num = w(10);
        if (u(12) != r.num * 2 || s.size() != 13 + u(12)) return false;
        r.data = swapped(s.substr(13));
        return true;
    }
    return false;
}

struct Rsp
{
    unsigned tid{0}, addr{0}, func{3}, error{0}, start{0}, num{0};
    std::string data;
};

std::string refResponse(Rsp const& r)
{
    std::string b;
    b += static_cast<char>(r.addr);
    b += static_cast<char>(r.func);
    switch (r.func)
    {
    case 3: case 4: b += static_cast<char>(r.data.size()); b += swapped(r.data); break;
    case 5: be(b, r.start); b += r.data; break;
    case 6: be(b, r.start); b += swapped(r.data); break;
    case 16: be(b, r.start); be(b, r.num); break;
    default: b += static_cast<char>(r.error); break;
    }
    return adu(r.tid, b);
}

// Is s exactly one well-formed response ADU?
bool refParseResponse(std::string const& s, Rsp& r)
{
    auto u = [&](std::size_t i) { return static_cast<unsigned>(static_cast<unsigned char>(s[i])); };
    auto w = [&](std::size_t i) { return u(i) << 8 | u(i + 1); };
    if (s.size() < 9 || s.size() >= 260) return false;
    if (w(2) != 0 || w(4) + 6 != s.size()) return false;
    r.tid = w(0);
    r.addr = u(6);
    r.func = u(7);
    r.data.clear();
    switch (r.func)
    {
    case 0x8f:
        if (s.size() != 9) return false;
        r.error = u(8);
        return true;
    case 3: case 4:
        if (u(8) % 2 || s.size() != 9 + u(8)) return false;
        r.data = swapped(s.substr(9));
        return true;
    case 5: case 6:
        if (s.size() != 12) return false;
        r.start = w(8);
        r.data = r.func == 5 ? s.substr(10, 2) : swapped(s.substr(10, 2));
        return true;
    case 16:
        if (s.size() != 12) return false;
        r.start = w(8);
        r.num = w(10);
        return true;
    }
    return false;
}

// ------------------------------------------------------------------ generators

Req genReq(Src& src, bool mostlyValid)
{
    static unsigned const funcs[] = {3, 4, 6, 16, 5, 1, 2};
    static unsigned const odd[] = {0, 7, 15, 17, 0x8f, 0x83, 0x43, 255};
    Req r;
    bool const wild = !src.chance(mostlyValid ? 7 : 1, mostlyValid ? 8 : 2);
    r.tid = src.integer(16);
    r.func = wild && src.chance(1, 4) ? src.pick(odd) : src.pick(funcs);
    r.addr = wild && src.chance(1, 3) ? src.integer(16) : src.below(248);
    r.start = src.integer(16);
    switch (r.func)
    {
    case 1: case 2: r.num = wild ? src.integer(16) : src.below(2009); break;
    case 3: case 4: r.num = wild ? src.integer(16) : (src.chance(1, 8) ? 125 - src.below(2) : src.below(126)); break;
    case 5:
    {
        static std::string const v[] = {std::string("\0\0", 2), std::string("\xff\0", 2), std::string("\0\xff", 2), std::string("\x01\0", 2)};
        r.data = v[src.below(wild ? 4 : 2)];
        if (wild && src.coin()) r.data[src.below(2)] = static_cast<char>(src.below(256));
        break;
    }
    case 6: r.data = src.bytesExact(2); break;
    case 16:
        r.num = src.chance(1, 8) ? 123 - src.below(2) : src.below(124);
        if (wild && src.coin()) r.num = 120 + src.below(11);
        r.data = src.bytesExact(r.num * 2);
        break;
    default: r.num = src.below(4); break;
    }
    if (wild && src.chance(1, 3))
    {
        r.data = src.bytesExact(src.below(20));
        if (src.coin()) r.data = src.bytesExact(src.range(240, 300));
    }
    if (wild && src.chance(1, 6)) r.num = src.integer(16);
    return r;
}

Rsp genReplyTo(Src& src, Req const& q)
{
    Rsp p;
    p.tid = q.tid;
    p.addr = q.addr;
    p.func = q.func;
    p.start = q.start;
    p.num = q.num;
    switch (q.func)
    {
    case 3: case 4: p.data = src.bytesExact(q.num * 2); break;
    case 5: case 6: p.data = q.data; break;
    default: break;
    }
    return p;
}

std::vector<std::string> split(Src& src, std::string const& s)
{
    std::vector<std::string> v;
    std::size_t pos = 0;
    switch (src.below(4))
    {
    case 0: v.push_back(s); return v;
    case 1:
        for (char c : s) v.push_back(std::string(1, c));
        return v;
    default:
        while (pos < s.size())
        {
            std::size_t n = 1 + src.below(src.coin() ? 8 : s.size());
            v.push_back(s.substr(pos, n));
            pos += n;
        }
        return v;
    }
}

// ------------------------------------------------------------------ C09: codec

PduBuffer bufferOf(std::string const& s)
{
    PduBuffer b;
    std::memset(b.begin(), 0xa5, 512);
    std::memcpy(b.begin(), s.data(), s.size());
    b.seek(s.size());
    return b;
}

void codecRequest(Src& src, Ctx& ctx)
{
    logging(src.chance(1, 16));
    Req r = genReq(src, false);
    AduRequest a;
    std::string data = r.data;
    a.clientId = 0;
    a.transactId = r.tid;
    a.func = static_cast<ModbusFunction>(r.func);
    a.addr = r.addr;
    a.startItem = r.start;
    a.numItems = r.num;
    a.numBytes = data.size();
    std::unique_ptr<std::uint8_t[]> exact(new std::uint8_t[data.size() + 1]);
    std::memcpy(exact.get(), data.data(), data.size());
    a.data = data.empty() ? nullptr : exact.get();
    if (data.size() > 260) throw pbt::Discard{};
    PduBuffer buf;
    ModbusCodec codec(buf);
    bool const ok = codec.encode(a);
    if (ctx.wantText) ctx.say(r.text() + (ok ? " encoded " : " refused"));
    ctx.label(fmt("func %u %s", r.func, ok ? "encoded" : "refused"));
    PBT_REQUIRE(ok == refValid(r), "encoder %s a %s request: %s", ok ? "accepted" : "refused", refValid(r) ? "valid" : "invalid", r.text().c_str());
    if (!ok) return;
    ctx.nontrivial();
    std::string const wire(reinterpret_cast<char const*>(buf.begin()), buf.size());
    PBT_REQUIRE(wire == refRequest(r), "request on the wire %s, expected %s", hex(wire).c_str(), hex(refRequest(r)).c_str());
    PBT_REQUIRE(codec.isAduHdrReceived() && codec.isAduDataLenValid() && codec.isAduReceived() && codec.isAduValid(), "the codec rejects the framing of its own request %s", hex(wire).c_str());
    // and back, into an object holding leftovers of another request
    std::uint8_t store[260];
    std::memset(store, 0x77, sizeof(store));
    AduRequest d(store);
    d.transactId = 0xdead;
    d.func = ModbusFunction::presetMultipleRegisters;
    d.addr = d.startItem = d.numItems = 0x5151;
    d.numBytes = 44;
    PduBuffer in = bufferOf(wire);
    ModbusCodec dec(in);
    PBT_REQUIRE(dec.decode(d), "the decoder refuses %s", hex(wire).c_str());
    PBT_REQUIRE(d.transactId == r.tid && static_cast<unsigned>(d.func) == r.func && d.addr == r.addr && d.startItem == r.start && d.numItems == r.num,
        "decoded tid=%u func=%u addr=%u start=%u num=%u from %s", d.transactId, static_cast<unsigned>(d.func), d.addr, d.startItem, d.numItems, r.text().c_str());
    if (r.func >= 5)
    {
        PBT_REQUIRE(d.numBytes == r.data.size() && std::memcmp(store, r.data.data(), r.data.size()) == 0, "decoded %u data bytes %s from %s", d.numBytes, hex(store, std::min<unsigned>(d.numBytes, 260)).c_str(), r.text().c_str());
    }
    else PBT_REQUIRE(d.numBytes == 0, "a read request was decoded with %u data bytes", d.numBytes);
}

void codecResponse(Src& src, Ctx& ctx)
{
    logging(src.chance(1, 16));
    static unsigned const funcs[] = {3, 4, 5, 6, 16, 0x8f};
    Rsp r;
    r.tid = src.integer(16);
    r.addr = src.below(256);
    r.func = src.pick(funcs);
    r.start = src.integer(16);
    r.num = src.integer(16);
    r.error = r.func == 0x8f ? src.pick({1u, 2u, 3u, 4u, 5u, 6u, 7u, 8u, 10u, 11u, 255u}) : 0;
    bool valid = true;
    if (r.func == 3 || r.func == 4) { r.data = src.bytesExact(src.chance(1, 8) ? 250 : 2 * src.below(126)); if (src.chance(1, 8)) { r.data += 'x'; valid = r.data.size() % 2 == 0; } }
    if (r.func == 5) r.data = src.coin() ? std::string("\xff\0", 2) : std::string("\0\0", 2);
    if (r.func == 5 && src.chance(1, 4)) { r.data[src.below(2)] = static_cast<char>(src.below(256)); valid = r.data[1] == 0 && (r.data[0] == 0 || r.data[0] == '\xff'); }
    if (r.func == 6) r.data = src.bytesExact(2);
    AduRespond a;
    a.transactId = r.tid;
    a.func = static_cast<ModbusFunction>(r.func);
    a.addr = r.addr;
    a.error = static_cast<ModbusError>(r.error);
    a.startItem = r.start;
    a.numItems = r.num;
    a.numBytes = r.data.size();
    std::memcpy(a.data, r.data.data(), r.data.size());
    PduBuffer buf;
    ModbusCodec codec(buf);
    bool const ok = codec.encode(a);
    PBT_REQUIRE(ok == valid, "response encoder %s func=%u with %zu bytes", ok ? "accepted" : "refused", r.func, r.data.size());
    ctx.label(fmt("func %u", r.func));
    if (!ok) return;
    ctx.nontrivial();
    std::string const wire(reinterpret_cast<char const*>(buf.begin()), buf.size());
    if (ctx.wantText) ctx.say(fmt("func=%u wire=%s", r.func, hex(wire).c_str()));
    PBT_REQUIRE(wire == refResponse(r), "response on the wire %s, expected %s", hex(wire).c_str(), hex(refResponse(r)).c_str());
    PBT_REQUIRE(codec.isAduHdrReceived() && codec.isAduDataLenValid() && codec.isAduReceived() && codec.isAduValid(), "the codec rejects the framing of its own response %s", hex(wire).c_str());
    AduRespond d;
    d.numBytes = 0;
    PduBuffer in = bufferOf(wire);
    ModbusCodec dec(in);
    PBT_REQUIRE(dec.decode(d), "the decoder refuses %s", hex(wire).c_str());
    PBT_REQUIRE(d.transactId == r.tid && static_cast<unsigned>(d.func) == r.func && d.addr == r.addr, "decoded tid=%u func=%u addr=%u", d.transactId, static_cast<unsigned>(d.func), d.addr);
    if (r.func == 0x8f) PBT_REQUIRE(static_cast<unsigned>(d.error) == r.error, "error code %u decoded as %u", r.error, static_cast<unsigned>(d.error));
    else if (r.func == 16) PBT_REQUIRE(d.startItem == r.start && d.numItems == r.num, "start=%u num=%u", d.startItem, d.numItems);
    else
    {
        PBT_REQUIRE(d.numBytes == r.data.size() && std::memcmp(d.data, r.data.data(), r.data.size()) == 0, "decoded %u data bytes", d.numBytes);
        if (r.func >= 5) PBT_REQUIRE(d.startItem == r.start, "start=%u", d.startItem);
    }
    // framing predicates agree with the length field for every prefix
    std::size_t const k = src.below(wire.size() + 1);
    PduBuffer pre = bufferOf(wire.substr(0, k));
    ModbusCodec pc(pre);
    bool const complete = pc.isAduHdrReceived() && pc.isAduReceived();
    PBT_REQUIRE(complete == (k == wire.size()), "%zu of %zu bytes of an ADU are reported as %s", k, wire.size(), complete ? "complete" : "incomplete");
}

// ------------------------------------------------------------------ C10: arbitrary bytes at the codec

std::string genGarbage(Src& src)
{
    std::string s;
    switch (src.below(4))
    {
    case 0: s = src.bytesExact(src.below(300)); break;
    case 1: s = refRequest(genReq(src, false)); break;
    case 2: { Req q = genReq(src, true); s = refResponse(genReplyTo(src, q)); break; }
    default:
    {
        std::string body = src.bytes(40, 6);
        if (body.size() > 1 && src.coin()) body[1] = static_cast<char>(src.pick({1, 2, 3, 4, 5, 6, 16, 0x8f}));
        if (!body.empty() && src.coin()) body[0] = static_cast<char>(src.below(248));
        s = adu(src.integer(16), body, src.chance(1, 6) ? src.integer(16) : 0, src.chance(1, 6) ? static_cast<int>(src.integer(16)) : -1);
        break;
    }
    }
    if (s.size() > 400) s.resize(400);
    unsigned m = src.chance(1, 2) ? src.below(4) : 0;
    while (m-- && !s.empty())
    {
        switch (src.below(4))
        {
        case 0: s[src.below(s.size())] = static_cast<char>(src.below(256)); break;
        case 1: s.resize(src.below(s.size())); break;
        case 2: s += src.bytesExact(1 + src.below(8)); break;
        default: if (s.size() > 8) s[6 + src.below(s.size() - 6)] ^= static_cast<char>(1u << src.below(8)); break;
        }
    }
    // sometimes the length of the frame fits again, but not what it says inside
    if (s.size() >= 8 && src.chance(1, 3)) { s[4] = static_cast<char>((s.size() - 6) >> 8); s[5] = static_cast<char>(s.size() - 6); }
    return s;
}

void codecGarbage(Src& src, Ctx& ctx)
{
    logging(src.chance(1, 16));
    std::string const s = genGarbage(src);
    if (s.size() >= 6) ctx.nontrivial();
    if (ctx.wantText) ctx.say(fmt("%zu bytes: %s", s.size(), hex(s).c_str()));
    PduBuffer b = bufferOf(s);
    ModbusCodec c(b);
    bool const framed = c.isAduHdrReceived() && c.isAduDataLenValid() && c.isAduReceived() && c.isAduValid();
    Req r;
    Rsp p;
    bool const refReq = refParseRequest(s, r);
    bool const refRsp = refParseResponse(s, p);
    std::uint8_t store[260];
    AduRequest d(store);
    PduBuffer b1 = b;
    bool const isReq = framed && ModbusCodec(b1).decode(d);
    PBT_REQUIRE(isReq == refReq, "%s is %s request but was %s", hex(s).c_str(), refReq ? "a well-formed" : "not a", isReq ? "accepted" : "refused");
    if (isReq)
    {
        PBT_REQUIRE(d.transactId == r.tid && d.addr == r.addr && static_cast<unsigned>(d.func) == r.func && d.startItem == r.start && d.numItems == r.num && d.numBytes == r.data.size()
            && std::memcmp(store, r.data.data(), r.data.size()) == 0, "request fields of %s", hex(s).c_str());
        ctx.label("request accepted");
    }
    AduRespond a;
    PduBuffer b2 = b;
    bool const isRsp = framed && ModbusCodec(b2).decode(a);
    PBT_REQUIRE(isRsp == refRsp, "%s is %s response but was %s", hex(s).c_str(), refRsp ? "a well-formed" : "not a", isRsp ? "accepted" : "refused");
    if (isRsp) ctx.label("response accepted");
}

// ------------------------------------------------------------------ component on the virtual event loop

reactor::LinkAddr addrOf(unsigned host, unsigned port)
{
    reactor::LinkAddr a{};
    a.type = reactor::LinkAddr::Type::ipv4;
    a.data[0] = 127;
    a.data[3] = static_cast<char>(host);
    a.data[4] = static_cast<char>(port >> 8);
    a.data[5] = static_cast<char>(port);
    return a;
}

template <typename T> void post(World& w, std::function<void(T&)> fill = {})
{
    reactor::MsgStore<T> st;
    if (fill) fill(st.getMsg());
    w.send(st.getMsg());
}

// Sends the items as one or several messages.
void submit(World& w, std::vector<Req> const& items)
{
    post<MsgModbusClientAduReq>(w, [&](MsgModbusClientAduReq& m)
    {
        m.numItems = 0;
        for (auto const& r : items)
        {
            auto& it = m.item(m.numItems);
            it.clientId = r.client;
            it.transactId = r.tid;
            it.func = static_cast<ModbusFunction>(r.func);
            it.addr = r.addr;
            it.startItem = r.start;
            it.numItems = r.num;
            it.numBytes = r.data.size();
            std::memcpy(it.data, r.data.data(), r.data.size());
            m.numItems += 1;
        }
    });
}

struct ClientModel
{
    bool configured{false};
    reactor::LinkAddr addr{};
    std::uint64_t conn{0};              // current attempt or connection, 0 none
    bool established{false};
    std::int64_t lastAttempt{0};        // last attempt, or loss of a connection
    std::uint64_t faults{0};            // anything that may legitimately fail requests
    std::deque<std::size_t> fifo;       // submitted, unanswered
    std::int64_t idleSince{0};
    long outstanding{-1};               // index of the request on the wire
};

struct ReqModel
{
    Req r;
    unsigned responses{0};
    std::int64_t submitted{0};
    std::uint64_t faultsAtSubmit{0};
    bool connectedAtSubmit{false};
    bool overflow{false};
    bool onWire{false};
    std::int64_t sentAt{0};
    bool contaminated{false};           // bytes that are not its own reply arrived while it was outstanding
    bool badReply{false};
    std::string got;                    // its own reply bytes so far
    std::string reply;                  // the reply the device is sending
    bool success{false};
};

struct ClientRun
{
    Src& src;
    Ctx& ctx;
    bool c11, c12, c13;
    World w{32};
    std::unique_ptr<ModbusComponent> comp;
    std::vector<ClientModel> clients;
    std::deque<ReqModel> reqs;
    std::map<std::pair<unsigned, unsigned>, std::size_t> byId;
    unsigned nClients;
    unsigned tidBase;
    unsigned okAnswers{0}, errAnswers{0}, reconnects{0};

    ClientRun(Src& s, Ctx& c, int prop) : src(s), ctx(c), c11(prop == 11), c12(prop == 12), c13(prop == 13) {}
    ~ClientRun() { w.tearingDown = true; }

    ClientModel* byAddr(reactor::LinkAddr const& a)
    {
        for (auto& c : clients) if (c.configured && std::memcmp(c.addr.data, a.data, 6) == 0) return &c;
        return nullptr;
    }
    ClientModel* byConn(std::uint64_t id)
    {
        for (auto& c : clients) if (c.conn == id) return &c;
        return nullptr;
    }
    void fault(ClientModel& c) { c.faults += 1; }

    void init()
    {
        nClients = 1 + src.below(3);
        clients.resize(nClients);
        comp = std::make_unique<ModbusComponent>(w, w);
        w.onConnect = [this](std::uint64_t id)
        {
            ClientModel* c = byAddr(w.conn(id).addr);
            PBT_REQUIRE(c, "a connection attempt to an address nobody configured");
            if (c13) PBT_REQUIRE(c->conn == 0, "a second connection while one is open");
            if (c->lastAttempt || c->conn) reconnects += 1;
            c->conn = id;
            c->established = false;
            c->lastAttempt = w.now;
        };
        w.onConnectFail = [this](reactor::LinkAddr const& a)
        {
            ClientModel* c = byAddr(a);
            PBT_REQUIRE(c, "a connection attempt to an address nobody configured");
            c->lastAttempt = w.now;
            fault(*c);
        };
        w.onClose = [this](std::uint64_t id)
        {
            if (ClientModel* c = byConn(id)) { if (c->established) c->lastAttempt = w.now; c->conn = 0; c->established = false; fault(*c); }
        };
        w.onSend = [this](std::uint64_t id) { onWire(id); };
        w.sniff = [this](reactor::MsgInterface const& m)
        {
            if (m.getMsgId() == MsgModbusClientAduRsp::msgId()) onResponse(static_cast<MsgModbusClientAduRsp const&>(m));
        };
        w.onStep = [this]() { invariants(); };
        post<MsgModbusInitReq>(w, [&](MsgModbusInitReq& m) { m.maxNumServers = 1; m.maxNumClients = nClients; });
        w.pump();
        PBT_REQUIRE(w.takeOutbox<MsgModbusInitRsp>().size() == 1, "one init response");
        post<MsgModbusConfigReq>(w, [&](MsgModbusConfigReq& m)
        {
            m.numItems = 0;
            for (unsigned i = 0; i < nClients; ++i)
            {
                if (i && src.chance(1, 5)) continue;
                clients[i].configured = true;
                clients[i].addr = addrOf(1 + i, 502 + i);
                auto& it = m.items[m.numItems++];
                it.id = i;
                it.mode = ModbusConfig::Mode::client;
                it.addr = clients[i].addr;
            }
        });
        w.pump();
        PBT_REQUIRE(w.takeOutbox<MsgModbusConfigRsp>().size() == 1, "one configuration response");
        for (auto& c : clients) if (c.configured && c13) PBT_REQUIRE(c.conn != 0, "a configured client does not connect");
        tidBase = src.integer(16);
    }

    void onWire(std::uint64_t id)
    {
        ClientModel* c = byConn(id);
        PBT_REQUIRE(c, "bytes written to a dead connection");
        std::string const bytes = w.takeSent(id);
        if (c->outstanding >= 0)
        {
            if (c12) pbt::fail(fmt("a request was written while request %ld had no answer yet", c->outstanding));
            return;
        }
        // the oldest unanswered request of this client
        if (c->fifo.empty())
        {
            if (c12) pbt::fail("bytes written without a request: " + hex(bytes));
            return;
        }
        ReqModel& m = reqs[c->fifo.front()];
        if (c12)
        {
            PBT_REQUIRE(c->established, "a request was written before the connection was established");
            PBT_REQUIRE(!m.onWire, "a request was written twice: %s", m.r.text().c_str());
            PBT_REQUIRE(refValid(m.r), "an invalid request was written: %s -> %s", m.r.text().c_str(), hex(bytes).c_str());
            PBT_REQUIRE(bytes == refRequest(m.r), "wrote %s, but the oldest waiting request is %s = %s", hex(bytes).c_str(), m.r.text().c_str(), hex(refRequest(m.r)).c_str());
        }
        m.onWire = true;
        m.sentAt = w.now;
        if (!w.conn(id).toCode.empty()) m.contaminated = true;      // older bytes still wait to be read
        c->outstanding = static_cast<long>(c->fifo.front());
    }

    void onResponse(MsgModbusClientAduRsp const& p)
    {
        auto it = byId.find({p.clientId, p.transactId});
        PBT_REQUIRE(it != byId.end(), "a response to a request that was never made: client=%u tid=%u", p.clientId, p.transactId);
        std::size_t const idx = it->second;
        ReqModel& m = reqs[idx];
        m.responses += 1;
        if (c11) PBT_REQUIRE(m.responses == 1, "request answered %u times: %s", m.responses, m.r.text().c_str());
        ClientModel* c = m.r.client < clients.size() && clients[m.r.client].configured ? &clients[m.r.client] : nullptr;
        bool const ok = p.status == MsgStatus::success;
        if (ok) okAnswers += 1; else errAnswers += 1;
        m.success = ok;
        if (c11 && ok)
        {
            PBT_REQUIRE(c && c->outstanding == static_cast<long>(idx), "success reported for a request that is not outstanding: %s", m.r.text().c_str());
            Rsp d;
            bool const good = refParseResponse(m.got, d);
            if (!m.contaminated)
            {
                PBT_REQUIRE(good && d.tid == m.r.tid && d.addr == m.r.addr && (d.func == m.r.func || d.func == 0x8f), "success reported, but the device answered %s to %s", hex(m.got).c_str(), m.r.text().c_str());
                PBT_REQUIRE(static_cast<unsigned>(p.error) == (d.func == 0x8f ? d.error : 0), "error code %u reported for %s", static_cast<unsigned>(p.error), hex(m.got).c_str());
                std::string const data = d.func == 0x8f ? std::string() : d.data;
                PBT_REQUIRE(p.numBytes == data.size() && std::memcmp(p.data, data.data(), data.size()) == 0, "data reported %s, device sent %s", hex(p.data, p.numBytes).c_str(), hex(m.got).c_str());
            }
        }
        if (c11 && !ok)
        {
            PBT_REQUIRE(p.numBytes == 0, "an error response carries %u bytes", p.numBytes);
            bool const reason = !c || !refValid(m.r) || m.overflow || !m.connectedAtSubmit || c->faults != m.faultsAtSubmit || m.contaminated || m.badReply
                || (m.onWire && w.now - m.sentAt >= 5000000);
            PBT_REQUIRE(reason, "request failed although connection, request and device were fine: %s, reply so far %s", m.r.text().c_str(), hex(m.got).c_str());
        }
        if (c)
        {
            auto f = std::find(c->fifo.begin(), c->fifo.end(), idx);
            if (f != c->fifo.end()) c->fifo.erase(f);
            if (c->outstanding == static_cast<long>(idx)) c->outstanding = -1;
            c->idleSince = w.now;
        }
    }

    void invariants()
    {
        for (auto& c : clients)
        {
            if (!c.configured) continue;
            if (c11 && c.outstanding >= 0)
            {
                ReqModel& m = reqs[c.outstanding];
                PBT_REQUIRE(w.now - m.sentAt <= 5000000, "no answer %lld us after the request was sent", (long long)(w.now - m.sentAt));
            }
            if (c11 && !c.fifo.empty() && c.outstanding < 0)
                PBT_REQUIRE(w.now - std::max(c.idleSince, reqs[c.fifo.front()].submitted) <= 1000000, "a waiting request is neither sent nor answered for over 1 s: %s", reqs[c.fifo.front()].r.text().c_str());
            if (c13 && !c.established)
                PBT_REQUIRE(w.now - c.lastAttempt <= 4000000, "not connected and no new connection attempt for %lld us", (long long)(w.now - c.lastAttempt));
        }
    }

    void advance(std::int64_t us) { w.advance(us); invariants(); }

    void doSubmit()
    {
        std::vector<Req> items;
        std::size_t size = 64;
        std::size_t const burst = src.chance(1, 40) ? 70 : 4;
        do
        {
            Req r = genReq(src, true);
            if (burst > 4 && r.data.size() > 4) { r.func = 3; r.num = 1; r.data.clear(); }
            size += (r.data.size() + 63) & ~15ull;
            if (size > 4000) break;
            r.client = src.chance(1, 12) ? nClients + src.below(3) : src.below(nClients);
            r.tid = (tidBase + reqs.size()) & 0xffff;
            ReqModel m;
            m.r = r;
            m.submitted = w.now;
            ClientModel* c = r.client < clients.size() && clients[r.client].configured ? &clients[r.client] : nullptr;
            if (c)
            {
                m.connectedAtSubmit = c->established;
                m.faultsAtSubmit = c->faults;
                m.overflow = c->fifo.size() >= 64;
                if (c->fifo.empty()) c->idleSince = w.now;
                c->fifo.push_back(reqs.size());
            }
            byId[{r.client, r.tid}] = reqs.size();
            if (ctx.wantText) ctx.say("submit " + r.text());
            reqs.push_back(m);
            items.push_back(r);
        } while (items.size() < burst && src.coin());
        if (items.size() > 60) ctx.label("queue overflow burst");
        submit(w, items);
        w.pump();
        invariants();
    }

    ClientModel* anyClient()
    {
        ClientModel& c = clients[src.below(nClients)];
        return c.configured ? &c : nullptr;
    }

    // One piece of device output for request idx arrives.
    void piece(ClientModel& c, std::uint64_t conn, std::size_t idx, std::string const& bytes)
    {
        if (c.conn != conn || !c.established) return;
        ReqModel& m = reqs[idx];
        bool const mine = c.outstanding == static_cast<long>(idx);
        if (mine)
        {
            m.got += bytes;
            Rsp d;
            if (m.got.size() > m.reply.size() || m.reply.compare(0, m.got.size(), m.got) != 0) m.contaminated = true;
        }
        else if (c.outstanding >= 0) reqs[c.outstanding].contaminated = true;
        w.deliver(conn, bytes);
        invariants();
    }

    void doReply()
    {
        ClientModel* c = anyClient();
        if (!c || c->outstanding < 0 || !c->established) return;
        std::size_t const idx = c->outstanding;
        ReqModel& m = reqs[idx];
        if (!m.reply.empty()) return;
        std::uint64_t const conn = c->conn;
        Rsp p = genReplyTo(src, m.r);
        unsigned const kind = src.below(10);
        bool good = true;
        if (kind == 6) { p.func = 0x8f; p.error = src.pick({1u, 2u, 3u, 4u, 5u, 6u, 7u, 8u, 10u, 11u, 9u, 200u}); p.data.clear(); }
        std::string s = refResponse(p);
        switch (kind)
        {
        case 7:
            switch (src.below(5))
            {
            case 0: p.tid ^= 1 + src.below(0xffff); break;
            case 1: p.addr = (p.addr + 1 + src.below(255)) & 0xff; break;
            case 2: p.func = p.func == 3 ? 4 : 3; p.data = "ab"; break;
            case 3: p.func = 0x83; p.error = 2; break;
            default: p.func = 16; p.num += 1; break;
            }
            s = refResponse(p);
            break;
        case 8:
            switch (src.below(5))
            {
            case 0: s[2 + src.below(2)] = static_cast<char>(1 + src.below(255)); break;                                     // protocol id
            case 1: { unsigned l = src.below(8); s[4] = 0; s[5] = static_cast<char>(l); s.resize(6 + l, 'z'); } break;     // short body
            case 2: s[4] = static_cast<char>(1 + src.below(255)); break;                                                   // huge length
            case 3: s += src.bytesExact(1 + src.below(5)); break;                                                          // trailing bytes
            default: s = genGarbage(src); if (s.empty()) s = "x"; break;
            }
            break;
        case 9: s.resize(1 + src.below(s.size() - 1)); break;                                                              // never completed
        default: break;
        }
        Rsp d;
        good = refParseResponse(s, d) && d.tid == m.r.tid && d.addr == m.r.addr && (d.func == m.r.func || d.func == 0x8f);
        m.reply = s;
        if (!good) m.badReply = true;
        if (ctx.wantText) ctx.say(fmt("t=%lld reply (%s) to tid %u: ", (long long)w.now, good ? "good" : "bad", m.r.tid) + hex(s, 40));
        ctx.label(good ? (d.func == 0x8f ? "exception reply" : "good reply") : "bad reply");
        if (src.chance(1, 10)) { advance(src.pick({4900000, 5000000, 5005000, 5011000, 5100000})); ctx.label("late reply"); }
        auto parts = split(src, s);
        if (parts.size() > 1) ctx.label("split reply");
        bool const slow = src.chance(1, 4);
        for (std::size_t k = 0; k < parts.size(); ++k)
        {
            piece(*c, conn, idx, parts[k]);
            if (slow && k + 1 < parts.size() && k < 20)
            {
                if (src.chance(1, 4)) doSubmit();
                if (src.chance(1, 2)) advance(src.below(400000));
            }
        }
        if (c11 && good && !m.contaminated && m.got == m.reply && w.conn(conn).link && c->conn == conn)
            PBT_REQUIRE(m.responses == 1 && m.success, "the device's complete answer %s to %s was not reported as success (%u responses)", hex(s).c_str(), m.r.text().c_str(), m.responses);
    }

    void op()
    {
        switch (src.below(24))
        {
        case 0: case 1: case 2: case 3: doSubmit(); break;
        case 4: case 5: case 6: case 7: case 11: case 12: case 13: case 14: case 15: doReply(); break;
        case 16: case 17:
            for (auto& c : clients)
                if (c.configured && c.conn && !c.established)
                {
                    if (ctx.wantText) ctx.say("connection established");
                    c.established = true;
                    w.establish(c.conn);
                    invariants();
                }
            break;
        case 8: advance(src.pick({1000, 5000, 10000, 10001, 20000, 20000, 100000, 500000, 1000000, 3000000, 5000000, 7000000})); break;
        case 9:
            if (ClientModel* c = anyClient(); c && c->conn)
            {
                fault(*c);
                std::uint64_t const id = c->conn;
                if (!c->established) { if (ctx.wantText) ctx.say("refused"); w.refuse(id); }
                else
                {
                    bool const reset = src.coin();
                    if (ctx.wantText) ctx.say(reset ? "peer reset" : "peer closed");
                    if (reset) w.peerReset(id); else w.peerClose(id);
                    ctx.label(reset ? "peer reset" : "peer close");
                    if (c13)
                    {
                        PBT_REQUIRE(!w.open(id), "the connection was lost but is still held open");
                        PBT_REQUIRE(!c->established, "model");
                    }
                    if (c11) for (std::size_t i : c->fifo) (void)i;
                    if (c11) PBT_REQUIRE(c->fifo.empty(), "the connection was lost but %zu requests stay without an answer", c->fifo.size());
                }
                invariants();
            }
            break;
        case 10:
            switch (src.below(3))
            {
            case 0: if (ClientModel* c = anyClient(); c && c->conn && c->established) { fault(*c); w.conn(c->conn).failSend = true; } break;
            case 1: w.failConnect = true; break;
            default:
                // unsolicited bytes
                if (ClientModel* c = anyClient(); c && c->conn && c->established)
                {
                    std::string g = genGarbage(src);
                    if (g.empty()) break;
                    if (ctx.wantText) ctx.say("unsolicited " + hex(g, 32));
                    if (c->outstanding >= 0) { reqs[c->outstanding].contaminated = true; }
                    w.deliver(c->conn, g);
                    invariants();
                    ctx.label("unsolicited bytes");
                }
                break;
            }
            break;
        default:
            advance(10000);
            break;
        }
    }

    void finish()
    {
        // The world turns fine again; everything must end answered and connected.
        bool const silent = src.chance(1, 3);
        w.failConnect = false;
        unsigned guard = 0;
        for (;;)
        {
            bool pending = false;
            for (auto& c : clients)
            {
                if (!c.configured) continue;
                if (c.conn && !c.established) { c.established = true; w.establish(c.conn); }
                if (!c.fifo.empty()) pending = true;
                if (!silent && c.conn && c.established && c.outstanding >= 0 && reqs[c.outstanding].reply.empty())
                {
                    std::size_t const i = c.outstanding;
                    Rsp p = genReplyTo(src, reqs[i].r);
                    reqs[i].reply = refResponse(p);
                    Rsp d;
                    if (!refParseResponse(reqs[i].reply, d)) reqs[i].badReply = true;
                    piece(c, c.conn, i, reqs[i].reply);
                    if (c11 && !reqs[i].badReply && !reqs[i].contaminated) PBT_REQUIRE(reqs[i].responses == 1 && reqs[i].success, "a clean answer was not reported: %s", reqs[i].r.text().c_str());
                }
            }
            if (!pending) break;
            advance(10000);
            if (++guard > 70 * 510) { if (c11) pbt::fail("requests stay without an answer"); return; }
        }
        advance(4100000);
        for (auto& c : clients)
        {
            if (!c.configured) continue;
            if (c.conn && !c.established) { c.established = true; w.establish(c.conn); }
            advance(4100000);
            if (c.conn && !c.established) { c.established = true; w.establish(c.conn); }
            if (c13) PBT_REQUIRE(c.conn && c.established, "the client never came back after the faults ended");
            // usable again
            if (!c.conn || w.conn(c.conn).failSend) continue;
            Req r;
            r.client = static_cast<unsigned>(&c - clients.data());
            r.tid = (tidBase + reqs.size()) & 0xffff;
            r.func = 4;
            r.addr = 7;
            r.num = 2;
            ReqModel m;
            m.r = r;
            m.submitted = w.now;
            m.connectedAtSubmit = true;
            m.faultsAtSubmit = c.faults;
            std::size_t const i = reqs.size();
            byId[{r.client, r.tid}] = i;
            reqs.push_back(m);
            c.idleSince = w.now;
            c.fifo.push_back(i);
            submit(w, {r});
            w.pump();
            advance(20000);
            if (c13) PBT_REQUIRE(reqs[i].onWire, "after recovery a request is not sent");
            if (c.outstanding == static_cast<long>(i))
            {
                Rsp p;
                p.tid = r.tid; p.addr = 7; p.func = 4; p.data = "wxyz";
                reqs[i].reply = refResponse(p);
                piece(c, c.conn, i, reqs[i].reply);
            }
            if (c13) PBT_REQUIRE(reqs[i].responses == 1 && reqs[i].success, "after recovery a request does not succeed");
        }
        advance(6000000);
        for (auto& m : reqs)
            if (c11) PBT_REQUIRE(m.responses == 1, "request answered %u times: %s", m.responses, m.r.text().c_str());
        if (c13) PBT_REQUIRE(w.liveLinks() <= nClients && w.liveTimers() <= nClients, "%u links and %u timers held by %u clients", w.liveLinks(), w.liveTimers(), nClients);
        if (okAnswers >= 2 && errAnswers >= 1) ctx.nontrivial();
        ctx.labels["requests"] += reqs.size();
        ctx.labels["answers ok"] += okAnswers;
        ctx.labels["answers error"] += errAnswers;
        ctx.labels["connection attempts"] += reconnects;
    }

    void run()
    {
        logging(src.chance(1, 16));
        init();
        // usually start connected
        for (auto& c : clients) if (c.configured && c.conn && !src.chance(1, 4)) { c.established = true; w.establish(c.conn); }
        unsigned n = 0;
        while (n++ < 120 * src.scale && src.goOn(30)) op();
        finish();
        comp.reset();
    }
};

void clientC11(Src& s, Ctx& c) { ClientRun(s, c, 11).run(); }
void clientC12(Src& s, Ctx& c) { ClientRun(s, c, 12).run(); }
void clientC13(Src& s, Ctx& c) { ClientRun(s, c, 13).run(); }

// ------------------------------------------------------------------ C10 at the component: one burst, reference verdict

void serverGarbage(Src& src, Ctx& ctx)
{
    logging(src.chance(1, 16));
    World w(32);
    ModbusComponent comp(w, w);
    post<MsgModbusInitReq>(w, [&](MsgModbusInitReq& m) { m.maxNumServers = 1; m.maxNumClients = 1; });
    post<MsgModbusConfigReq>(w, [&](MsgModbusConfigReq& m) { m.numItems = 1; m.items[0].id = 0; m.items[0].mode = ModbusConfig::Mode::server; m.items[0].addr = addrOf(1, 502); });
    w.pump();
    VAcceptor* a = w.acceptor();
    PBT_REQUIRE(a, "the server does not listen");
    std::uint64_t const victim = w.dial(*a);
    w.fireAccepts(*a, 4);
    std::uint64_t const id = w.dial(*a);
    w.fireAccepts(*a, 4);
    PBT_REQUIRE(w.open(id) && w.open(victim), "connections accepted");
    w.outbox.clear();
    unsigned const bursts = 1 + src.below(4);
    for (unsigned k = 0; k < bursts && w.open(id); ++k)
    {
        std::string const s = genGarbage(src);
        if (s.empty()) continue;
        if (ctx.wantText) ctx.say(fmt("burst of %zu bytes: %s", s.size(), hex(s).c_str()));
        w.deliver(id, s);
        auto got = w.takeOutbox<MsgModbusAduReq>();
        Req r;
        if (k == 0)
        {
            bool const good = refParseRequest(s, r);
            PBT_REQUIRE(got.size() == (good ? 1u : 0u), "%s is %s request, but %zu requests were forwarded", hex(s).c_str(), good ? "a well-formed" : "not a", got.size());
            if (good)
            {
                auto const& m = got[0]->as<MsgModbusAduReq>();
                PBT_REQUIRE(m.transactId == r.tid && m.addr == r.addr && static_cast<unsigned>(m.func) == r.func && m.startItem == r.start && m.numItems == r.num
                    && m.numBytes == r.data.size() && std::memcmp(m.data, r.data.data(), r.data.size()) == 0, "forwarded fields differ from %s", hex(s).c_str());
                ctx.label("well-formed");
            }
            else ctx.label("malformed");
            if (s.size() >= 6) ctx.nontrivial();
        }
        PBT_REQUIRE(got.size() <= 1, "%zu requests from one burst", got.size());
        PBT_REQUIRE(w.conn(id).fromCode.empty(), "the server wrote without being asked to");
        if (src.coin()) w.advance(src.pick({1000000, 5000000, 29000000}));
    }
    // the other connection is unaffected
    w.takeOutbox<MsgModbusAduReq>();
    if (w.open(victim))
    {
        Req q;
        q.tid = 77; q.func = 3; q.addr = 9; q.start = 5; q.num = 3;
        w.deliver(victim, refRequest(q));
        auto got = w.takeOutbox<MsgModbusAduReq>();
        PBT_REQUIRE(got.size() == 1 && got[0]->as<MsgModbusAduReq>().transactId == 77, "another client's request is lost after garbage");
    }
}

void clientGarbage(Src& src, Ctx& ctx)
{
    logging(src.chance(1, 16));
    World w(32);
    ModbusComponent comp(w, w);
    std::uint64_t id = 0;
    w.onConnect = [&](std::uint64_t c) { id = c; };
    post<MsgModbusInitReq>(w, [&](MsgModbusInitReq& m) { m.maxNumServers = 1; m.maxNumClients = 1; });
    post<MsgModbusConfigReq>(w, [&](MsgModbusConfigReq& m) { m.numItems = 1; m.items[0].id = 0; m.items[0].mode = ModbusConfig::Mode::client; m.items[0].addr = addrOf(1, 502); });
    w.pump();
    w.establish(id);
    Req q = genReq(src, true);
    while (!refValid(q)) q = Req{};
    q.client = 0;
    // an earlier exchange leaves its bytes behind in the receive buffer
    if (src.coin())
    {
        Req e;
        e.tid = 1; e.func = 3; e.addr = q.addr; e.num = 20;
        submit(w, {e});
        w.pump();
        w.advance(10000);
        Rsp p;
        p.tid = 1; p.addr = e.addr; p.func = 3; p.data = src.bytesExact(40);
        w.deliver(id, refResponse(p));
    }
    submit(w, {q});
    w.pump();
    w.advance(20000);
    w.outbox.clear();
    PBT_REQUIRE(w.conn(id).fromCode.size() > 0, "the request was not sent");
    std::string s;
    if (src.coin())
    {
        Rsp p = genReplyTo(src, q);
        if (src.coin()) { p.func = 0x8f; p.error = 3; }
        s = refResponse(p);
        unsigned m = src.below(4);
        while (m--)
            switch (src.below(3))
            {
            case 0: s[src.below(s.size())] = static_cast<char>(src.below(256)); break;
            case 1: s.resize(1 + src.below(s.size())); break;
            default: if (s.size() < 300) s += static_cast<char>(src.below(256)); break;
            }
        if (src.coin() && s.size() >= 6 && s.size() < 260) { s[4] = 0; s[5] = static_cast<char>(s.size() - 6); }
    }
    else s = genGarbage(src);
    if (s.empty()) s = "q";
    if (ctx.wantText) ctx.say(q.text() + " answered with " + hex(s));
    w.deliver(id, s);
    w.advance(5000000);
    auto got = w.takeOutbox<MsgModbusClientAduRsp>();
    PBT_REQUIRE(got.size() == 1, "%zu responses after %s", got.size(), hex(s).c_str());
    auto const& m = got[0]->as<MsgModbusClientAduRsp>();
    Rsp d;
    bool const good = refParseResponse(s, d) && d.tid == q.tid && d.addr == q.addr && (d.func == q.func || d.func == 0x8f);
    PBT_REQUIRE((m.status == MsgStatus::success) == good, "%s to %s was reported as %s", hex(s).c_str(), q.text().c_str(), good ? "an error" : "a success");
    if (good)
    {
        ctx.label("well-formed");
        PBT_REQUIRE(static_cast<unsigned>(m.error) == (d.func == 0x8f ? d.error : 0), "error code");
        PBT_REQUIRE(m.numBytes == d.data.size() && std::memcmp(m.data, d.data.data(), d.data.size()) == 0, "reported data differ from %s", hex(s).c_str());
    }
    else ctx.label("malformed");
    if (s.size() >= 6) ctx.nontrivial();
}

// ------------------------------------------------------------------ C14, C15: server

struct Peer
{
    std::uint64_t id{0};
    unsigned server{0};
    bool dead{false};           // closed by either side as far as the model knows
    bool poisoned{false};       // partial garbage in its stream: no expectation
    std::int64_t busyUntil{-1}; // session waits for a controller answer that will not come
    bool waiting{false};        // a request was forwarded, answer owed
    Req req;
    EntityId session{0};
    std::int64_t forwardedAt{0};
    std::int64_t lastActive{0};
    std::int64_t connectedSince{0};   // the inactivity period runs from here
    bool asked{false};                // a request of it was forwarded before
    bool noisy{false};                // extra bytes arrived while an answer was owed
};

struct ServerRun
{
    Src& src;
    Ctx& ctx;
    bool c14, c15;
    World w{32};
    std::unique_ptr<ModbusComponent> comp;
    unsigned nServers{1};
    std::vector<Peer> peers;
    unsigned served{0}, faults{0};

    ServerRun(Src& s, Ctx& c, int prop) : src(s), ctx(c), c14(prop == 14), c15(prop == 15) {}
    ~ServerRun() { w.tearingDown = true; }

    VAcceptor* acceptorOf(unsigned server)
    {
        for (auto& a : w.acceptors) if (a->alive && a->listening && std::memcmp(a->addr.data, addrOf(1 + server, 1502).data, 6) == 0) return a.get();
        return nullptr;
    }

    void init()
    {
        nServers = 1 + src.below(2);
        comp = std::make_unique<ModbusComponent>(w, w);
        post<MsgModbusInitReq>(w, [&](MsgModbusInitReq& m) { m.maxNumServers = nServers; m.maxNumClients = 1; });
        post<MsgModbusConfigReq>(w, [&](MsgModbusConfigReq& m)
        {
            m.numItems = nServers;
            for (unsigned i = 0; i < nServers; ++i) { m.items[i].id = i; m.items[i].mode = ModbusConfig::Mode::server; m.items[i].addr = addrOf(1 + i, 1502); }
        });
        w.pump();
        w.outbox.clear();
        for (unsigned i = 0; i < nServers; ++i) PBT_REQUIRE(acceptorOf(i), "server %u does not listen on its address", i);
    }

    Peer* dial(unsigned server)
    {
        VAcceptor* a = acceptorOf(server);
        if (!a) return nullptr;
        Peer p;
        p.server = server;
        p.id = w.dial(*a);
        p.lastActive = w.now;
        w.fireAccepts(*a, 1 + src.below(3));
        peers.push_back(p);
        return &peers.back();
    }

    void accepts(unsigned n)
    {
        for (unsigned i = 0; i < nServers; ++i) if (VAcceptor* a = acceptorOf(i)) w.fireAccepts(*a, n);
    }

    unsigned openCount() { unsigned n = 0; for (auto& p : peers) n += w.open(p.id); return n; }

    Peer* pick()
    {
        if (peers.empty()) return nullptr;
        std::size_t const k = peers.size();
        Peer& p = peers[src.coin() ? k - 1 - src.below(std::min<std::size_t>(k, 4)) : src.below(k)];
        return &p;
    }

    bool idle(Peer& p) { return w.open(p.id) && !p.dead && !p.poisoned && !p.waiting && w.now > p.busyUntil; }

    void nothingWritten(Peer const* except)
    {
        if (!c14) return;
        for (auto& p : peers)
            if (&p != except) PBT_REQUIRE(w.conn(p.id).fromCode.empty(), "bytes written to the wrong connection: %s", hex(w.conn(p.id).fromCode).c_str());
    }

    void request(Peer& p)
    {
        if (!idle(p)) return;
        Req r = genReq(src, true);
        if (!refValid(r)) r.func = 3, r.num = 4, r.addr = 1, r.data.clear();
        std::string const wire = refRequest(r);
        auto parts = split(src, wire);
        if (ctx.wantText) ctx.say(fmt("t=%lld conn %llu sends (%zu parts) %s", (long long)w.now, (unsigned long long)p.id, parts.size(), r.text().c_str()));
        if (parts.size() > 1) ctx.label("split request");
        w.outbox.clear();
        for (std::size_t k = 0; k < parts.size(); ++k)
        {
            w.deliver(p.id, parts[k]);
            auto got = w.takeOutbox<MsgModbusAduReq>();
            if (k + 1 < parts.size())
            {
                if (c14) PBT_REQUIRE(got.empty(), "a request was forwarded before it was complete (%zu of %zu parts)", k + 1, parts.size());
                if (src.chance(1, 6) && parts.size() < 8) { w.advance(src.below(500000)); }
                if (w.now - std::max(p.connectedSince, w.conn(p.id).acceptedAt) >= 30000000) { p.poisoned = true; return; }
                if (c14) PBT_REQUIRE(w.open(p.id), "the server closed the connection in the middle of a valid request");
                continue;
            }
            if (c14) PBT_REQUIRE(got.size() == 1, "a complete valid request was forwarded %zu times: %s", got.size(), r.text().c_str());
            if (got.size() != 1) { p.poisoned = true; return; }
            auto const& m = got[0]->as<MsgModbusAduReq>();
            if (c14)
            {
                PBT_REQUIRE(m.serverId == p.server, "server id %u instead of %u", m.serverId, p.server);
                PBT_REQUIRE(m.transactId == r.tid && m.addr == r.addr && static_cast<unsigned>(m.func) == r.func && m.startItem == r.start && m.numItems == r.num,
                    "forwarded tid=%u func=%u unit=%u start=%u num=%u for %s", m.transactId, static_cast<unsigned>(m.func), m.addr, m.startItem, m.numItems, r.text().c_str());
                std::string const data = r.func >= 5 ? r.data : std::string();
                PBT_REQUIRE(m.numBytes == data.size() && std::memcmp(m.data, data.data(), data.size()) == 0, "forwarded %u bytes for %s", m.numBytes, r.text().c_str());
                for (auto& o : peers) if (o.waiting && o.server == p.server && w.open(o.id)) PBT_REQUIRE(o.session != m.sessionId, "two connections share session id %u", m.sessionId);
            }
            p.session = m.sessionId;
            p.req = r;
            p.waiting = p.asked = true;
            p.forwardedAt = w.now;
            p.lastActive = w.now;
        }
        nothingWritten(nullptr);
    }

    void answer(Peer& p)
    {
        if (!p.waiting) return;
        // the number of a session that is gone may belong to another connection by now: then this answer would be that one's
        if (!w.open(p.id)) for (auto& o : peers) if (o.id != p.id && o.server == p.server && o.session == p.session && w.open(o.id)) { p.waiting = false; return; }
        unsigned const kind = src.below(8);
        Rsp d = genReplyTo(src, p.req);
        unsigned error = 0;
        bool expectBytes = true;
        unsigned tid = p.req.tid;
        MsgStatus status = MsgStatus::success;
        if (p.req.func == 5) { if (!coilValue(d.data)) expectBytes = false; }
        if (p.req.func <= 2) expectBytes = false;
        if (kind == 5) { error = src.pick({1u, 2u, 3u, 4u, 6u, 11u}); d.func = 0x8f; d.error = error; d.data.clear(); expectBytes = true; }
        if (kind == 6) { tid ^= 1 + src.below(0xffff); expectBytes = false; }
        if (kind == 7) { status = MsgStatus::error; expectBytes = false; }
        if (d.func == 3 || d.func == 4) if (src.chance(1, 6)) d.data = src.bytesExact(2 * src.below(126));
        // more than fits into a message (253 bytes): not sent
        if (kind < 5 && d.func != 16 && src.chance(1, 12)) { d.data = std::string(src.coin() ? 251 + src.below(20) : 251 + src.below(3700), 'w'); expectBytes = false; ctx.label("oversized answer"); }
        bool const late = w.now - p.forwardedAt >= 5000000;
        bool const open = w.open(p.id);
        bool const broken = open && (w.conn(p.id).failSend || w.conn(p.id).reset);
        if (ctx.wantText) ctx.say(fmt("t=%lld controller answers conn %llu session %u tid %u error %u data %s%s", (long long)w.now, (unsigned long long)p.id, p.session, tid, error, hex(d.data, 16).c_str(), late ? " (late)" : ""));
        post<MsgModbusAduRsp>(w, [&](MsgModbusAduRsp& m)
        {
            m.serverId = p.server;
            m.sessionId = p.session;
            m.transactId = tid;
            m.error = static_cast<ModbusError>(error);
            m.status = status;
            // an error answer may carry the application's buffer as well: it is still an exception
            std::string const body = error && src.coin() ? src.bytes(250, 20) : d.data;
            m.numBytes = body.size();
            std::memcpy(m.data, body.data(), body.size());
        });
        w.pump();
        bool const wouldSend = expectBytes && open && !late;
        expectBytes = wouldSend && !broken;
        nothingWritten(&p);
        std::string const out = open ? w.takeSent(p.id) : std::string();
        if (c14 && expectBytes)
        {
            PBT_REQUIRE(out == refResponse(d), "wrote %s, expected %s", hex(out).c_str(), hex(refResponse(d)).c_str());
            served += 1;
        }
        if (c14 && !expectBytes) PBT_REQUIRE(out.empty(), "wrote %s although nothing should be sent", hex(out).c_str());
        if (wouldSend && broken) { if (c15) PBT_REQUIRE(!w.open(p.id), "a connection that cannot be written to is kept"); p.dead = true; }
        p.waiting = false;
        if (!late) { p.busyUntil = -1; p.noisy = false; }
        p.connectedSince = late ? p.forwardedAt + 5000000 : w.now;
        p.lastActive = w.now;
    }

    // an answer that belongs to no pending request
    void stray()
    {
        unsigned server = src.below(nServers), session = 0, tid = src.integer(16);
        std::string what;
        switch (src.below(3))
        {
        case 0: session = src.pick({256u, 257u, 300u, 1000u, 0x10000u, 0x7fffffffu, 0xffffffffu}); what = "an unknown session"; break;
        case 1: server = nServers + src.pick({0u, 1u, 7u, 0x10000u, 0xfffffff0u}); session = src.below(256); what = "an unknown server"; break;
        default:
        {
            Peer* p = pick();
            if (!p || p->waiting || !p->asked || !idle(*p)) return;
            server = p->server; session = p->session; tid = p->req.tid; what = "a session that has its answer";
            break;
        }
        }
        if (ctx.wantText) ctx.say(fmt("t=%lld controller answers %s: server %u session %u tid %u", (long long)w.now, what.c_str(), server, session, tid));
        ctx.label("stray answer");
        post<MsgModbusAduRsp>(w, [&](MsgModbusAduRsp& m)
        {
            m.serverId = server;
            m.sessionId = session;
            m.transactId = tid;
            m.error = src.coin() ? ModbusError::noerror : static_cast<ModbusError>(2);
            m.status = MsgStatus::success;
            m.numBytes = 2 * src.below(3);
            std::memset(m.data, 0x77, m.numBytes);
        });
        w.pump();
        nothingWritten(nullptr);
    }

    void disturb(Peer& p)
    {
        if (!w.open(p.id) || p.dead) return;
        switch (src.below(6))
        {
        case 0: case 1:
            if (ctx.wantText) ctx.say(fmt("t=%lld conn %llu closes", (long long)w.now, (unsigned long long)p.id));
            w.peerClose(p.id);
            p.dead = true;
            p.lastActive = w.now;      // bytes it left unread may be looked at only now
            ++faults;
            if (c15 && !p.poisoned && !p.noisy && w.now > p.busyUntil) PBT_REQUIRE(!w.open(p.id), "the peer closed, the session stays");
            break;
        case 2:
        {
            if (ctx.wantText) ctx.say(fmt("t=%lld conn %llu is reset", (long long)w.now, (unsigned long long)p.id));
            unsigned const held = w.liveLinks() + w.liveTimers();
            w.peerReset(p.id);
            p.dead = true;
            ++faults;
            if (c15) PBT_REQUIRE(w.liveLinks() + w.liveTimers() + 2 <= held, "the connection was reset, its link and timer are kept");
            break;
        }
        case 3: w.conn(p.id).failSend = true; ++faults; break;
        default:
        {
            std::string g = genGarbage(src);
            if (g.empty()) break;
            ++faults;
            Req r;
            if (c15 && src.chance(1, 6))
            {
                // the last it sends: one event announces both the bytes and the end
                if (src.coin()) g = std::string("\0\1\0\0\0\6\1\3\0\0\0\1", 12);
                if (ctx.wantText) ctx.say(fmt("t=%lld conn %llu sends %s and closes at once", (long long)w.now, (unsigned long long)p.id, hex(g, 24).c_str()));
                ctx.label("sent and left at once");
                w.conn(p.id).eof = true;
                w.deliver(p.id, g);
                w.outbox.clear();
                p.poisoned = p.dead = true;
                p.waiting = false;
                p.lastActive = w.now;
                break;
            }
            if (p.waiting && w.now - p.forwardedAt >= 5000000) p.waiting = false;
            if (p.waiting || p.poisoned || !idle(p))
            {
                if (ctx.wantText) ctx.say(fmt("t=%lld busy conn %llu sends garbage %s", (long long)w.now, (unsigned long long)p.id, hex(g, 24).c_str()));
                w.deliver(p.id, g);
                if (!p.waiting || !w.conn(p.id).toCode.empty()) p.poisoned = true;
                p.noisy = true;
                p.lastActive = w.now;
                break;
            }
            if (refParseRequest(g, r)) break;
            if (ctx.wantText) ctx.say(fmt("t=%lld conn %llu sends garbage %s", (long long)w.now, (unsigned long long)p.id, hex(g, 24).c_str()));
            w.outbox.clear();
            w.deliver(p.id, g);
            if (c14) PBT_REQUIRE(w.takeOutbox<MsgModbusAduReq>().empty(), "garbage was forwarded: %s", hex(g).c_str());
            // complete but malformed: the session recovers after the answer timeout; incomplete: unknown
            std::size_t const len = g.size() >= 6 ? 6 + (static_cast<unsigned char>(g[4]) << 8 | static_cast<unsigned char>(g[5])) : 1000000;
            if (g.size() >= len && g.size() < 500) { p.busyUntil = w.now + 5000000; p.connectedSince = p.busyUntil; }
            else p.poisoned = true;
            p.lastActive = w.now;
            break;
        }
        }
    }

    void timeouts()
    {
        for (auto& p : peers)
        {
            if (!w.open(p.id)) { p.dead = true; continue; }
            p.lastActive = std::max(p.lastActive, w.conn(p.id).acceptedAt);
            if (c15 && w.now - p.lastActive > 36000000) pbt::fail(fmt("connection %llu is still held although inactive for %lld us", (unsigned long long)p.id, (long long)(w.now - p.lastActive)));
        }
    }

    void op()
    {
        switch (src.below(12))
        {
        case 0: case 1:
        {
            unsigned n = c15 && src.chance(1, 4) ? 1 + src.below(40) : 1;
            while (n--) dial(src.below(nServers));
            break;
        }
        case 2: case 3: case 4: case 5: case 6:
        {
            // bias to a peer for which something can happen
            Peer* p = pick();
            for (unsigned k = 0; p && k < 3 && !idle(*p) && !p->waiting; ++k) p = pick();
            if (!p) break;
            if (p->waiting && src.below(4)) answer(*p);
            else { request(*p); if (p->waiting && src.below(3) == 0) answer(*p); }
            break;
        }
        case 7: case 8: if (Peer* p = pick()) answer(*p); break;
        case 9: if (Peer* p = pick()) { unsigned n = c15 && src.chance(1, 4) ? 20 : 1; while (n-- && (p = pick())) disturb(*p); } break;
        case 10: w.advance(src.pick({1000, 100000, 1000000, 4999999, 5000000, 5000001, 29000000, 31000000})); timeouts(); break;
        default:
            if (src.chance(1, 3)) stray();
            if (c15 && src.chance(1, 3)) accepts(src.chance(1, 4) ? 300 : 3); else accepts(3);
            if (c15 && src.chance(1, 4)) if (VAcceptor* a = acceptorOf(0)) a->failAccept = true;
            break;
        }
        timeouts();
    }

    // One request / answer round trip that must work.
    void roundTrip(Peer& p)
    {
        Req r;
        r.tid = src.integer(16);
        r.func = 3; r.addr = 3; r.start = 10; r.num = 2;
        w.outbox.clear();
        w.deliver(p.id, refRequest(r));
        auto got = w.takeOutbox<MsgModbusAduReq>();
        PBT_REQUIRE(got.size() == 1, "a fresh connection is accepted but its request is not forwarded");
        post<MsgModbusAduRsp>(w, [&](MsgModbusAduRsp& m)
        {
            m.serverId = p.server; m.sessionId = got[0]->as<MsgModbusAduReq>().sessionId; m.transactId = r.tid;
            m.error = ModbusError::noerror; m.status = MsgStatus::success; m.numBytes = 4; std::memcpy(m.data, "abcd", 4);
        });
        w.pump();
        PBT_REQUIRE(w.takeSent(p.id).size() == 13, "a fresh connection gets no answer");
    }

    void finish()
    {
        if (c15)
        {
            if (src.coin()) for (auto& p : peers) if (w.open(p.id)) { if (src.coin()) w.peerClose(p.id); else w.peerReset(p.id); }
            for (auto& a : w.acceptors) a->failAccept = false;
            // backlog of peers that were never accepted
            for (unsigned k = 0; k < 40; ++k) { accepts(50); for (auto& p : peers) if (w.open(p.id)) w.peerClose(p.id); }
            w.advance(36000000);
            for (unsigned k = 0; k < 40; ++k) { accepts(50); for (auto& p : peers) if (w.open(p.id)) w.peerClose(p.id); }
            w.advance(36000000);
            PBT_REQUIRE(w.liveLinks() == 0 && w.liveTimers() == 0, "all peers are gone, but %u links and %u timers are still held", w.liveLinks(), w.liveTimers());
            // and the full capacity is available again
            std::vector<Peer> fresh;
            for (unsigned k = 0; k < 20; ++k)
            {
                Peer p;
                p.server = k % nServers;
                VAcceptor* a = acceptorOf(p.server);
                PBT_REQUIRE(a, "the server stopped listening");
                p.id = w.dial(*a);
                w.fireAccepts(*a, 3);
                PBT_REQUIRE(w.open(p.id), "connection %u of 20 is refused although nobody else is connected", k);
                fresh.push_back(p);
            }
            for (auto& p : fresh) roundTrip(p);
            if (faults >= 2 && peers.size() >= 3) ctx.nontrivial();
        }
        if (c14)
        {
            if (served >= 2) ctx.nontrivial();
            ctx.labels["served"] += served;
        }
        ctx.labels["connections"] += peers.size();
        ctx.labels["faults"] += faults;
        if (w.linkExhausted || w.timerExhausted) ctx.label("descriptor pool exhausted");
    }

    void run()
    {
        logging(src.chance(1, 16));
        init();
        dial(0);
        unsigned n = 0;
        while (n++ < 150 * src.scale && src.goOn(c15 ? 30 : 40)) op();
        finish();
        comp.reset();
        if (c15) PBT_REQUIRE(w.liveLinks() == 0 && w.liveTimers() == 0 && w.liveAcceptors() == 0, "descriptors outlive the component");
    }
};

void serverC14(Src& s, Ctx& c) { ServerRun(s, c, 14).run(); }
void serverC15(Src& s, Ctx& c) { ServerRun(s, c, 15).run(); }

// Hundreds of connections one after the other on one server: session ids are recycled.
void serverMany(Src& src, Ctx& ctx)
{
    logging(false);
    ServerRun r(src, ctx, 15);
    r.init();
    unsigned const total = 260 + src.below(600);
    unsigned const atOnce = 1 + src.below(24);
    unsigned const way = src.below(5);
    std::deque<Peer> live;
    for (unsigned k = 0; k < total; ++k)
    {
        Peer* p = r.dial(0);
        PBT_REQUIRE(p && r.w.open(p->id), "connection %u is refused with %zu others open", k, live.size());
        live.push_back(*p);
        if (k % 16 == 0) r.roundTrip(live.back());
        if (live.size() > atOnce)
        {
            Peer q = live.front();
            live.pop_front();
            switch (way == 4 ? src.below(4) : way)
            {
            case 3: r.w.peerReset(q.id); break;
            case 0: r.w.peerClose(q.id); break;
            case 1: r.w.deliver(q.id, std::string("\0\0\0\0\xff\xff", 6)); break;       // oversized length: dropped
            default: r.w.deliver(q.id, std::string("\0\1\0\0\0\6\1\3\0\0\0\1", 12)); r.w.peerClose(q.id); break;
            }
            PBT_REQUIRE(!r.w.open(q.id), "a finished session is not released");
        }
    }
    ctx.nontrivial();
    if (ctx.wantText) ctx.say(fmt("%u connections in turn, %u at once, ending %u", total, atOnce, way));
}

// ------------------------------------------------------------------ long lives: thousands of rounds of one client, session or server

struct Mix      // many small decisions from one choice
{
    std::uint64_t x;
    std::uint64_t next() { x += 0x9e3779b97f4a7c15ull; std::uint64_t z = x; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    unsigned below(unsigned n) { return static_cast<unsigned>(next() % n); }
};

unsigned longCount(Src& src)
{
    switch (src.below(12))
    {
    case 0: return src.below(3) ? 1200 + src.below(6000) : 65530 + src.below(600);
    case 1: case 2: case 3: return 260 + src.below(900);
    case 4: case 5: case 6: return 252 + src.below(8);
    case 7: case 8: return 508 + src.below(8);
    default: return (1u << (4 + src.below(8))) + src.below(8) - 4;
    }
}

// One client through hundreds to tens of thousands of rounds, each of which ends in a known way.
void clientLong(Src& src, Ctx& ctx)
{
    logging(false);
    World w(32);
    ModbusComponent comp(w, w);
    reactor::LinkAddr const addr = addrOf(9, 502);
    std::uint64_t conn = 0;
    unsigned attempts = 0;
    w.onConnect = [&](std::uint64_t id) { PBT_REQUIRE(!conn || !w.open(conn), "a second connection while one is open"); PBT_REQUIRE(std::memcmp(w.conn(id).addr.data, addr.data, 6) == 0, "a connection to another address"); conn = id; attempts += 1; };
    post<MsgModbusInitReq>(w, [&](MsgModbusInitReq& m) { m.maxNumServers = 1; m.maxNumClients = 1; });
    post<MsgModbusConfigReq>(w, [&](MsgModbusConfigReq& m) { m.numItems = 1; m.items[0].id = 0; m.items[0].mode = ModbusConfig::Mode::client; m.items[0].addr = addr; });
    w.pump();
    w.outbox.clear();
    PBT_REQUIRE(conn, "a configured client does not connect");
    unsigned total = longCount(src);
    unsigned const mode = src.below(12);       // 0..9: always the same, else mixed
    Mix mix{src.below(0)};
    unsigned const tid0 = mix.below(65536);
    bool up = false;
    auto ensureUp = [&](unsigned round)
    {
        if (up && w.open(conn)) return;
        up = false;
        for (unsigned k = 0; k < 3 && !(conn && w.open(conn)); ++k) { w.advance(510000); w.pump(); }
        PBT_REQUIRE(conn && w.open(conn), "round %u: the client does not connect again after its back-off (%u attempts so far)", round, attempts);
        w.establish(conn);
        PBT_REQUIRE(w.open(conn), "round %u: an established connection is closed", round);
        up = true;
    };
    if (total > 3000 && (mode == 2 || (mode >= 5 && mode <= 9))) total = 3000;       // these open a connection each
    unsigned round = 0;
    for (; round < total; ++round)
    {
        unsigned const kind = mode < 10 ? mode : mix.below(16);
        if (kind == 5 || kind == 6 || kind == 7)       // attempts that fail
        {
            if (up) { w.peerReset(conn); up = false; }
            for (unsigned k = 0; k < 3 && !w.open(conn); ++k) w.advance(510000);
            PBT_REQUIRE(w.open(conn), "round %u: the client does not connect again after its back-off (%u attempts so far)", round, attempts);
            if (kind == 5) w.refuse(conn);
            else if (kind == 6) { std::uint64_t const was = conn; w.advance(3000000); PBT_REQUIRE(!w.open(was), "round %u: an attempt without outcome is not given up", round); }
            else { w.refuse(conn); w.failConnect = true; w.advance(510000); w.failConnect = false; w.advance(3500000); }
            continue;
        }
        ensureUp(round);
        Req r;
        r.tid = (tid0 + round) & 0xffff;
        r.func = mix.below(2) ? 3 : 4;
        r.addr = 1 + mix.below(247);
        r.start = mix.below(65000);
        r.num = 1 + mix.below(125);
        submit(w, {r});
        w.pump();
        w.advance(10000);
        if (kind == 8) { w.conn(conn).failSend = true; }
        std::string const wire = w.takeSent(conn);
        PBT_REQUIRE(wire == refRequest(r), "round %u: wrote %s for %s", round, hex(wire).c_str(), r.text().c_str());
        bool want = false;
        Rsp p;
        p.tid = r.tid; p.addr = r.addr; p.func = r.func;
        p.data.resize(2 * r.num);
        for (auto& ch : p.data) ch = static_cast<char>(mix.next());
        switch (kind)
        {
        case 1: p.func = 0x8f; p.error = 2; p.data.clear(); want = true; w.deliver(conn, refResponse(p)); break;
        case 2: w.advance(5000000); break;                                        // no reply
        case 3: p.tid ^= 1; w.deliver(conn, refResponse(p)); break;
        case 4: { std::string f = refResponse(p); f[4] = 0x7f; w.deliver(conn, f); break; }
        case 8: w.peerClose(conn); up = false; break;
        case 9: w.peerReset(conn); up = false; break;
        default: want = true; w.deliver(conn, refResponse(p)); break;
        }
        w.pump();
        auto got = w.takeOutbox<MsgModbusClientAduRsp>();
        PBT_REQUIRE(got.size() == 1, "round %u: the request was answered %zu times", round, got.size());
        auto const& a = got[0]->as<MsgModbusClientAduRsp>();
        PBT_REQUIRE(a.transactId == r.tid && a.clientId == 0, "round %u: the answer is for another request", round);
        PBT_REQUIRE((a.status == MsgStatus::success) == want, "round %u: reported as %s", round, want ? "failed" : "success");
        if (want && p.func != 0x8f) PBT_REQUIRE(a.numBytes == p.data.size() && std::memcmp(a.data, p.data.data(), p.data.size()) == 0 && a.error == ModbusError::noerror, "round %u: data reported are not those sent", round);
        if (want && p.func == 0x8f) PBT_REQUIRE(static_cast<unsigned>(a.error) == 2, "round %u: error code", round);
        if (up) PBT_REQUIRE(w.open(conn), "round %u: the connection was given up", round);
        w.advance(10000);
        PBT_REQUIRE(!up || w.takeSent(conn).empty(), "round %u: something was written without a request", round);
        w.outbox.clear();
    }
    ensureUp(round);
    ctx.labels["rounds"] += total;
    ctx.label(total > 65536 ? "more than 65536 rounds" : total > 1000 ? "more than 1000 rounds" : total > 256 ? "more than 256 rounds" : "up to 256 rounds");
    if (ctx.wantText) ctx.say(fmt("%u rounds of kind %u, %u connection attempts", total, mode, attempts));
    ctx.nontrivial();
}

// One connection to a server through hundreds to tens of thousands of requests; or so many connections that each session is used hundreds of times.
void serverLong(Src& src, Ctx& ctx)
{
    logging(false);
    ServerRun r(src, ctx, 14);
    r.init();
    World& w = r.w;
    bool const turns = src.chance(1, 40);
    unsigned const total = turns ? 77000 + src.below(2000) : longCount(src);
    unsigned const mode = src.below(8);
    Mix mix{src.below(0)};
    VAcceptor* a = r.acceptorOf(0);
    PBT_REQUIRE(a, "the server does not listen");
    std::uint64_t id = 0;
    for (unsigned round = 0; round < total; ++round)
    {
        unsigned const kind = mode < 5 ? mode : mix.below(6);
        if (!id || !w.open(id) || turns)
        {
            if (id && w.open(id)) { if (mix.below(3) == 0) w.advance(36000000); else if (mix.below(2)) w.peerClose(id); else w.peerReset(id); PBT_REQUIRE(!w.open(id), "round %u: a finished session is not released", round); }
            if (turns && id) w.conns.erase(id);
            id = w.dial(*a);
            w.fireAccepts(*a, 1);
            PBT_REQUIRE(w.open(id), "round %u: the connection is refused", round);
            if (turns && round % 16) continue;
        }
        Req q;
        q.tid = mix.below(65536); q.func = 3; q.addr = 1 + mix.below(247); q.start = mix.below(65000); q.num = 1 + mix.below(20);
        w.outbox.clear();
        w.deliver(id, refRequest(q));
        auto got = w.takeOutbox<MsgModbusAduReq>();
        PBT_REQUIRE(got.size() == 1, "round %u: the request was indicated %zu times", round, got.size());
        auto const& m = got[0]->as<MsgModbusAduReq>();
        PBT_REQUIRE(m.transactId == q.tid && m.addr == q.addr && m.startItem == q.start && m.numItems == q.num, "round %u: the request was indicated with other fields", round);
        std::string data(2 * q.num, 0);
        for (auto& ch : data) ch = static_cast<char>(mix.next());
        auto answer = [&](bool exception)
        {
            post<MsgModbusAduRsp>(w, [&](MsgModbusAduRsp& p)
            {
                p.serverId = 0; p.sessionId = m.sessionId; p.transactId = q.tid;
                p.error = exception ? static_cast<ModbusError>(2) : ModbusError::noerror; p.status = MsgStatus::success;
                p.numBytes = exception ? 0 : data.size();
                std::memcpy(p.data, data.data(), p.numBytes);
            });
            w.pump();
        };
        std::string want;
        Rsp p;
        p.tid = q.tid; p.addr = q.addr; p.func = 3; p.data = data;
        switch (kind)
        {
        case 0: case 5: answer(false); want = refResponse(p); break;
        case 1: answer(true); p.func = 0x8f; p.error = 2; p.data.clear(); want = refResponse(p); break;
        case 2: w.advance(5000000); answer(false); break;                       // too late
        case 3: answer(false); answer(false); want = refResponse(p); break;     // twice
        default: w.advance(29900000 % 4000000); answer(false); want = refResponse(p); break;
        }
        std::string const sent = w.takeSent(id);
        PBT_REQUIRE(sent == want, "round %u: sent %s, expected %s", round, hex(sent).c_str(), hex(want).c_str());
        PBT_REQUIRE(w.open(id), "round %u: an active connection is dropped", round);
    }
    w.advance(36000000);
    PBT_REQUIRE(!w.open(id), "the idle connection is still held");
    PBT_REQUIRE(w.liveLinks() == 0 && w.liveTimers() == 0, "all peers are gone, but %u links and %u timers are still held", w.liveLinks(), w.liveTimers());
    ctx.labels["rounds"] += total;
    ctx.label(turns ? "77000 connections in turn" : total > 65536 ? "more than 65536 requests" : total > 256 ? "more than 256 requests" : "up to 256 requests");
    if (ctx.wantText) ctx.say(fmt("%u rounds of kind %u%s", total, mode, turns ? ", each on a new connection" : ""));
    ctx.nontrivial();
}

// ------------------------------------------------------------------ C29: configuration

struct ConfigRun
{
    struct Item { bool server; unsigned id; unsigned host, port; };
    struct Entry { bool set{false}, listening{false}; unsigned host{0}, port{0}; };
    Src& src;
    Ctx& ctx;
    World w{32};
    std::unique_ptr<ModbusComponent> comp;
    bool ready{false};
    std::vector<Entry> servers, clients;
    unsigned configured{0}, refused{0}, trips{0}, replaced{0};

    ConfigRun(Src& s, Ctx& c) : src(s), ctx(c)
    {
        comp = std::make_unique<ModbusComponent>(w, w);
        w.addrInUse = [this](VAcceptor* self, reactor::LinkAddr const& a)
        {
            for (auto& o : w.acceptors) if (o.get() != self && o->alive && o->listening && std::memcmp(o->addr.data, a.data, 6) == 0) return true;
            return false;
        };
    }
    ~ConfigRun() { w.tearingDown = true; }
    void say(std::string const& t) { if (ctx.wantText) ctx.say(t); }
    static bool at(reactor::LinkAddr const& a, Entry const& e) { return std::memcmp(a.data, addrOf(e.host, e.port).data, 6) == 0; }

    void check()
    {
        unsigned listening = 0;
        for (auto& a : w.acceptors)
        {
            if (!a->alive || !a->listening) continue;
            ++listening;
            unsigned n = 0;
            for (auto& e : servers) n += e.listening && at(a->addr, e);
            PBT_REQUIRE(n == 1, "a listener on an address that is not configured (any more)");
        }
        unsigned expected = 0;
        for (auto& e : servers) expected += e.listening;
        PBT_REQUIRE(listening == expected, "%u servers listen, %u are configured", listening, expected);
        std::vector<unsigned> open(clients.size());
        for (auto& [id, c] : w.conns)
        {
            if (c.incoming || !c.link) continue;
            bool found = false;
            for (std::size_t k = 0; k < clients.size(); ++k) if (clients[k].set && at(c.addr, clients[k])) { found = true; open[k] += 1; }
            PBT_REQUIRE(found, "a connection to an address that is not configured (any more)");
        }
        for (std::size_t k = 0; k < clients.size(); ++k)
        {
            unsigned same = 0;
            for (auto& e : clients) same += e.set && e.host == clients[k].host && e.port == clients[k].port;
            if (clients[k].set) PBT_REQUIRE(open[k] <= same, "%u connections for client %zu", open[k], k);
        }
        if (!ready) PBT_REQUIRE(!w.liveLinks() && !w.liveTimers() && !w.liveAcceptors(), "released, but %u links, %u timers and %u acceptors are held", w.liveLinks(), w.liveTimers(), w.liveAcceptors());
    }

    void init()
    {
        unsigned const ns = src.below(8) ? 1 + src.below(4) : 0, nc = src.below(8) ? 1 + src.below(4) : 0;
        say(fmt("init for %u servers and %u clients", ns, nc));
        post<MsgModbusInitReq>(w, [&](MsgModbusInitReq& m) { m.maxNumServers = ns; m.maxNumClients = nc; });
        w.pump();
        PBT_REQUIRE(w.takeOutbox<MsgModbusInitRsp>().size() == 1, "not exactly one answer to the init request");
        servers.assign(ns, Entry{});
        clients.assign(nc, Entry{});
        ready = true;
        PBT_REQUIRE(!w.liveLinks() && !w.liveTimers() && !w.liveAcceptors(), "initialised anew, but %u links, %u timers and %u acceptors are held", w.liveLinks(), w.liveTimers(), w.liveAcceptors());
    }
    void release()
    {
        say("release");
        post<MsgModbusReleaseReq>(w, [](MsgModbusReleaseReq&) {});
        w.pump();
        PBT_REQUIRE(w.takeOutbox<MsgModbusReleaseRsp>().size() == 1, "not exactly one answer to the release request");
        ready = false;
        servers.clear();
        clients.clear();
    }
    void configure()
    {
        std::vector<Item> items;
        unsigned n = src.chance(1, 12) ? src.below(60) : src.below(6);
        while (n--)
        {
            Item it;
            it.server = src.coin();
            it.id = src.chance(1, 12) ? src.pick({5u, 6u, 255u, 256u, 0x7fffffffu, 0xffffffffu}) : src.below(5);
            it.host = 1 + src.below(3);
            it.port = src.pick({502u, 503u, 1502u, 0x1234u, 0x3412u, 255u, 256u, 65535u});
            items.push_back(it);
        }
        bool const bad = src.chance(1, 5);
        bool const badConnect = src.coin();
        if (bad) { if (badConnect) w.failConnect = true; else w.failListen = true; }
        say(fmt("configure%s", bad ? badConnect ? ", the next connect fails at once" : ", the next listen fails" : ""));
        for (auto& i : items) say(fmt("   %s %u at %u:%u", i.server ? "server" : "client", i.id, i.host, i.port));
        std::vector<std::uint64_t> before;
        for (auto& [id, c] : w.conns) if (c.link) before.push_back(id);
        post<MsgModbusConfigReq>(w, [&](MsgModbusConfigReq& m)
        {
            m.numItems = items.size();
            for (std::size_t k = 0; k < items.size(); ++k)
            {
                m.items[k].id = items[k].id;
                m.items[k].mode = items[k].server ? ModbusConfig::Mode::server : ModbusConfig::Mode::client;
                m.items[k].addr = addrOf(items[k].host, items[k].port);
            }
        });
        w.pump();
        auto got = w.takeOutbox<MsgModbusConfigRsp>();
        if (!ready) { w.failConnect = w.failListen = false; return; }
        PBT_REQUIRE(got.size() == 1, "a configuration request was answered %zu times", got.size());
        auto const& rsp = got[0]->as<MsgModbusConfigRsp>();
        PBT_REQUIRE(rsp.numItems == items.size(), "%zu items were configured, %u are in the answer", items.size(), rsp.numItems);
        bool failL = bad && !badConnect, failC = bad && badConnect;
        for (std::size_t k = 0; k < items.size(); ++k)
        {
            Item const& i = items[k];
            bool ok = i.id < (i.server ? servers : clients).size();
            if (ok)
            {
                Entry& e = (i.server ? servers : clients)[i.id];
                if (e.set) ++replaced;
                e = Entry{true, false, i.host, i.port};
                if (i.server)
                {
                    if (failL) { ok = false; failL = false; }
                    else for (std::size_t j = 0; j < servers.size(); ++j) if (j != i.id && servers[j].listening && servers[j].host == e.host && servers[j].port == e.port) ok = false;
                    e.listening = ok;
                }
                else if (failC) { ok = false; failC = false; }
            }
            PBT_REQUIRE(rsp.items[k].id == i.id, "item %zu of the answer has id %u, expected %u", k, rsp.items[k].id, i.id);
            PBT_REQUIRE((rsp.items[k].status == MsgStatus::success) == ok, "item %zu (%s %u) is reported as %s", k, i.server ? "server" : "client", i.id, ok ? "failed" : "successful");
            if (ok) ++configured; else ++refused;
        }
        w.failConnect = w.failListen = false;
        // connections of servers that were configured anew are gone
        for (auto id : before)
        {
            Conn& c = w.conn(id);
            if (!c.incoming || !c.link) continue;
            for (auto& i : items) PBT_REQUIRE(!(i.server && owner[id] == i.id && i.id < servers.size()), "a connection of a server that was configured anew is kept");
        }
    }
    std::map<std::uint64_t, unsigned> owner;      // server of an incoming connection

    void trip()
    {
        if (!ready) return;
        if (src.coin())
        {
            // a peer of a server
            std::vector<unsigned> v;
            for (unsigned k = 0; k < servers.size(); ++k) if (servers[k].listening) v.push_back(k);
            if (v.empty()) return;
            unsigned const k = src.pick(v);
            VAcceptor* a = nullptr;
            for (auto& o : w.acceptors) if (o->alive && o->listening && at(o->addr, servers[k])) a = o.get();
            PBT_REQUIRE(a, "server %u does not listen on its address", k);
            if (w.liveLinks() >= 32) return;
            std::uint64_t const id = w.dial(*a);
            w.fireAccepts(*a, 1);
            PBT_REQUIRE(w.open(id), "server %u does not accept", k);
            owner[id] = k;
            Req r = genReq(src, true);
            if (!refValid(r)) { r.func = 3; r.num = 4; r.addr = 1; r.data.clear(); }
            say(fmt("a peer of server %u: %s", k, r.text().c_str()));
            w.deliver(id, refRequest(r));
            auto got = w.takeOutbox<MsgModbusAduReq>();
            PBT_REQUIRE(got.size() == 1, "a request to server %u was forwarded %zu times", k, got.size());
            auto const& q = got[0]->as<MsgModbusAduReq>();
            PBT_REQUIRE(q.serverId == k, "a request to server %u was forwarded as one of server %u", k, q.serverId);
            post<MsgModbusAduRsp>(w, [&](MsgModbusAduRsp& m)
            {
                m.serverId = q.serverId; m.sessionId = q.sessionId; m.transactId = q.transactId;
                m.error = static_cast<ModbusError>(2); m.status = MsgStatus::success; m.numBytes = 0;
            });
            w.pump();
            PBT_REQUIRE(w.takeSent(id).size() == 9, "the peer of server %u gets no answer", k);
            ++trips;
            if (src.coin()) w.peerClose(id);
            return;
        }
        std::vector<unsigned> v;
        for (unsigned k = 0; k < clients.size(); ++k) if (clients[k].set) v.push_back(k);
        if (v.empty()) return;
        unsigned const k = src.pick(v);
        // only one client per address, so that its connection can be told
        for (unsigned j = 0; j < clients.size(); ++j) if (j != k && clients[j].set && clients[j].host == clients[k].host && clients[j].port == clients[k].port) return;
        std::uint64_t link = 0;
        for (unsigned t = 0; t < 20 && !link; ++t)
        {
            for (auto& [id, c] : w.conns) if (!c.incoming && c.link && at(c.addr, clients[k])) link = id;
            if (!link) w.advance(500000);
        }
        PBT_REQUIRE(link, "client %u does not connect to its address", k);
        if (!w.conn(link).established) w.establish(link);
        Req r = genReq(src, true);
        r.client = k;
        if (!refValid(r)) { r.func = 3; r.num = 4; r.addr = 1; r.data.clear(); }
        Rsp d = genReplyTo(src, r);
        say(fmt("client %u: %s", k, r.text().c_str()));
        w.outbox.clear();
        submit(w, {r});
        w.pump();
        w.advance(30000);
        std::string const out = w.takeSent(link);
        PBT_REQUIRE(out == refRequest(r), "client %u sent %s", k, hex(out).c_str());
        w.deliver(link, refResponse(d));
        auto got = w.takeOutbox<MsgModbusClientAduRsp>();
        PBT_REQUIRE(got.size() == 1 && got[0]->as<MsgModbusClientAduRsp>().clientId == k, "a request of client %u has %zu answers", k, got.size());
        w.advance(30000);
        ++trips;
        if (src.chance(1, 4)) { if (src.coin()) w.peerClose(link); else w.peerReset(link); }
    }
};

void configuration(Src& src, Ctx& ctx)
{
    logging(src.chance(1, 16));
    ConfigRun r(src, ctx);
    if (src.below(8)) r.init();
    unsigned n = 0;
    while (n++ < 40 * src.scale && src.goOn(14))
    {
        switch (src.below(10))
        {
        case 0: r.init(); break;
        case 1: if (src.chance(1, 3)) r.release(); break;
        case 2: case 3: case 4: r.configure(); break;
        case 5: r.w.advance(src.below(6000000)); break;
        default: r.trip(); break;
        }
        r.check();
    }
    r.release();
    r.check();
    ctx.labels["configured"] += r.configured;
    ctx.labels["refused"] += r.refused;
    ctx.labels["replaced"] += r.replaced;
    ctx.labels["round trips"] += r.trips;
    if (r.configured >= 2 && r.trips >= 2) ctx.nontrivial();
}

PBT_SUB("C09", "requests", "random requests (all functions, boundary counts, invalid ones): accepted exactly when valid, wire bytes equal to an independent encoder, decoded back into a dirty object; non-trivial: a valid request", 300000, 8000000, codecRequest);
PBT_SUB("C09", "responses", "random responses incl. exceptions: wire bytes equal to an independent encoder, decoded back, every prefix recognised as incomplete; non-trivial: encodable", 300000, 8000000, codecResponse);
PBT_SUB("C10", "codec", "random and mutated byte strings up to 400 bytes: accepted as request / response exactly when an independent parser accepts them; non-trivial: at least 6 bytes", 400000, 10000000, codecGarbage);
PBT_SUB("C10", "server", "1-4 bursts of random or mutated bytes into one server connection; forwarded exactly when well-formed; a second connection keeps working; non-trivial: at least 6 bytes", 12000, 300000, serverGarbage);
PBT_SUB("C10", "client", "a random or mutated byte string as answer to one pending request: success exactly when it is a well-formed matching response, exactly one answer; non-trivial: at least 6 bytes", 60000, 1500000, clientGarbage);
PBT_SUB("C11", "history", "random histories of up to 120 operations on 1-3 clients (submissions, connects, refusals, split / wrong / late / missing replies, unsolicited bytes, disconnects, send failures, time); non-trivial: at least 2 successes and 1 error", 150000, 3000000, clientC11);
PBT_SUB("C11", "long-history", "the histories of history, 20 times as long; non-trivial by the same rule", 1000, 30000, longer<20>(clientC11), 90);
PBT_SUB("C12", "history", "same histories; every write is compared with the oldest waiting request; non-trivial: at least 2 successes and 1 error", 150000, 3000000, clientC12);
PBT_SUB("C12", "long-history", "the histories of history, 20 times as long; non-trivial by the same rule", 1000, 30000, longer<20>(clientC12), 90);
PBT_SUB("C13", "history", "same histories; connection attempts, losses and recovery; non-trivial: at least 2 successes and 1 error", 150000, 3000000, clientC13);
PBT_SUB("C13", "long-history", "the histories of history, 20 times as long; non-trivial by the same rule", 1000, 30000, longer<20>(clientC13), 90);
PBT_SUB("C11", "long", "one client through 12 to 66,000 rounds, counts around powers of two preferred, all of one kind or mixed (answer, exception, none, wrong or malformed one, lost connection, refused / timed out / impossible attempts); every case is non-trivial", 500, 15000, clientLong, 90);
PBT_SUB("C12", "long", "one client through 12 to 66,000 rounds, counts around powers of two preferred, all of one kind or mixed (answer, exception, none, wrong or malformed one, lost connection, refused / timed out / impossible attempts); every case is non-trivial", 500, 15000, clientLong, 90);
PBT_SUB("C13", "long", "one client through 12 to 66,000 rounds, counts around powers of two preferred, all of one kind or mixed (answer, exception, none, wrong or malformed one, lost connection, refused / timed out / impossible attempts); every case is non-trivial", 500, 15000, clientLong, 90);
PBT_SUB("C14", "history", "random histories of up to 150 operations on 1-2 servers and any number of peers (split requests, controller answers of every kind, garbage, disconnects, time); non-trivial: at least 2 requests served", 100000, 2000000, serverC14);
PBT_SUB("C14", "long-history", "the histories of history, 20 times as long; non-trivial by the same rule", 600, 15000, longer<20>(serverC14), 90);
PBT_SUB("C14", "long", "one connection through 12 to 66,000 requests, counts around powers of two preferred, with answers of every kind, or 77,000 connections in turn so that every session is used hundreds of times; every case is non-trivial", 500, 15000, serverLong, 90);
PBT_SUB("C15", "long", "one connection through 12 to 66,000 requests, counts around powers of two preferred, with answers of every kind, or 77,000 connections in turn so that every session is used hundreds of times; every case is non-trivial", 500, 15000, serverLong, 90);
PBT_SUB("C15", "history", "same histories with bursts of connections beyond the descriptor pool, failing accepts, resets; at the end everything is released and 20 fresh connections are served; non-trivial: at least 2 faults and 3 connections", 30000, 900000, serverC15);
PBT_SUB("C15", "long-history", "the histories of history, 20 times as long; non-trivial by the same rule", 600, 15000, longer<20>(serverC15), 90);
PBT_SUB("C15", "recycling", "260-860 connections in turn on one server; every case is non-trivial", 4000, 100000, serverMany);
PBT_SUB("C29", "configuration", "up to 40 requests to initialise, configure (up to 60 servers and clients, ids out of range, the same address twice, listening or connecting that fails at once) and release, with round trips of the servers and clients in between; non-trivial: at least 2 items configured and 2 round trips", 60000, 1500000, configuration);
PBT_SUB("C29", "long-configuration", "the histories of configuration, 20 times as long; non-trivial by the same rule", 500, 15000, longer<20>(configuration), 90);

} // namespace
