// The deployed application as a whole: the repository's own Deployer, ReactorManager and all components, on virtual
// reactors.  C23 start / stop, C24 hostile traffic, C25 memory.

#include "pbt.hpp"
#include "uaref.hpp"
#include "Reactor.hpp"        // harness/stub
#include "world.hpp"

#include "Deployer.hpp"
#include "ReactorManager.hpp"
#include "ComponentInterface.hpp"
#include "MsgStore.hpp"
#include "MsgControllerStartReq.hpp"
#include "MsgControllerStopReq.hpp"

#include "MsgModbusInitReq.hpp"
#include "MsgModbusInitRsp.hpp"
#include "MsgModbusReleaseReq.hpp"
#include "MsgModbusReleaseRsp.hpp"
#include "MsgUaTransportInitReq.hpp"
#include "MsgUaTransportInitRsp.hpp"
#include "MsgUaTransportReleaseReq.hpp"
#include "MsgUaTransportReleaseRsp.hpp"
#include "MsgUaSecureChannelInitReq.hpp"
#include "MsgUaSecureChannelInitRsp.hpp"
#include "MsgUaSecureChannelReleaseReq.hpp"
#include "MsgUaSecureChannelReleaseRsp.hpp"
#include "MsgUaServiceInitReq.hpp"
#include "MsgUaServiceInitRsp.hpp"
#include "MsgUaServiceReleaseReq.hpp"
#include "MsgUaServiceReleaseRsp.hpp"

#include <optional>
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
#include <sys/syscall.h>
#include <unistd.h>
#include <time.h>

using namespace pbt;
using namespace world;
using namespace uaref;

// A handler that sleeps keeps its reactor, and no other, from handling anything for that time.
static std::function<void(World&, std::int64_t)> sleeper;
static int virtualSleep(timespec const* t)
{
    sleeper(*World::running, t->tv_sec * 1000000ll + t->tv_nsec / 1000);
    return 0;
}
extern "C" int nanosleep(timespec const* t, timespec* r)
{
    return World::running && sleeper ? virtualSleep(t) : static_cast<int>(syscall(SYS_nanosleep, t, r));
}
extern "C" int clock_nanosleep(clockid_t c, int f, timespec const* t, timespec* r)
{
    return World::running && sleeper ? virtualSleep(t) : static_cast<int>(syscall(SYS_clock_nanosleep, c, f, t, r));
}

namespace
{

constexpr std::int64_t sec = 1000000;

bool same(reactor::LinkAddr const& a, reactor::LinkAddr const& b) { return !std::memcmp(a.data, b.data, 6); }
reactor::LinkAddr addrOf(unsigned port)
{
    reactor::LinkAddr a{};
    a.data[0] = 127; a.data[3] = 1;
    a.data[4] = static_cast<char>(port >> 8); a.data[5] = static_cast<char>(port);
    return a;
}
reactor::LinkAddr const uaAddr = addrOf(4369), modbusAddr = addrOf(12145);

struct Pipe { World* cw; std::uint64_t c; World* sw; std::uint64_t s; bool done{false}; };
struct Peer { World* w; std::uint64_t id; };

struct App
{
    Src& src;
    std::vector<reactor::Reactor*> ws;
    reactor::ReactorManager manager;
    std::vector<Pipe> pipes;
    std::vector<std::pair<World*, std::uint64_t>> attempts;
    std::int64_t now{0};
    bool ordered{true};               // messages and events handled as soon as possible
    unsigned piece{0};                // largest segment on the connection between client and server, 0: any

    explicit App(Src& s) : src(s)
    {
        reactor::Reactor::created().clear();
        Deployer().apply(manager, DeploymentType::cpu3);
        ws = reactor::Reactor::created();
        for (auto* w : ws)
        {
            w->autoPump = false;
            w->addrInUse = [this](VAcceptor* me, reactor::LinkAddr const& a) { return find(a, me) != nullptr; };
            w->sniff = [this, w](reactor::MsgInterface const& m) { handled(*w, m); };
            w->onConnect = [this, w](std::uint64_t id) { attempts.push_back({w, id}); };
        }
        sleeper = [this](World& w, std::int64_t us)
        {
            World* const me = World::running;
            World::running = nullptr;
            w.blocked = true;
            advance(us / 2);
            if (asleep) asleep();
            advance(us - us / 2);
            w.blocked = false;
            World::running = me;
        };
        manager.start();
    }
    ~App() { sleeper = {}; for (auto* w : ws) w->tearingDown = true; }

    // requests of the controller and their confirmations
    std::map<reactor::MsgId, unsigned> asked, confirmed;
    World* controller{nullptr};
    std::function<void(World&, reactor::MsgInterface const&)> trace;
    void handled(World& w, reactor::MsgInterface const& m)
    {
        static std::map<reactor::MsgId, reactor::MsgId> const rspOf =
        {
              {MsgModbusInitReq::msgId(), MsgModbusInitRsp::msgId()}
            , {MsgModbusReleaseReq::msgId(), MsgModbusReleaseRsp::msgId()}
            , {MsgUaTransportInitReq::msgId(), MsgUaTransportInitRsp::msgId()}
            , {MsgUaTransportReleaseReq::msgId(), MsgUaTransportReleaseRsp::msgId()}
            , {MsgUaSecureChannelInitReq::msgId(), MsgUaSecureChannelInitRsp::msgId()}
            , {MsgUaSecureChannelReleaseReq::msgId(), MsgUaSecureChannelReleaseRsp::msgId()}
            , {MsgUaServiceInitReq::msgId(), MsgUaServiceInitRsp::msgId()}
            , {MsgUaServiceReleaseReq::msgId(), MsgUaServiceReleaseRsp::msgId()}
        };
        if (trace) trace(w, m);
        if (m.getMsgId() == MsgControllerStartReq::msgId() || m.getMsgId() == MsgControllerStopReq::msgId()) controller = &w;
        if (auto it = rspOf.find(m.getMsgId()); it != rspOf.end()) asked[it->second] += 1;
        for (auto& [q, r] : rspOf) if (r == m.getMsgId() && &w == controller) confirmed[r] += 1;
    }
    bool allConfirmed() { return asked == confirmed; }
    std::string confirmations()
    {
        std::string s;
        for (auto& [r, n] : asked) s += fmt(" %u:%u/%u", (unsigned)r, confirmed[r], n);
        for (auto* w : ws) for (auto& e : w->exceptions) s += " " + e;
        for (auto* w : ws) s += fmt(" q%zu", w->queue.size());
        return s;
    }

    VAcceptor* find(reactor::LinkAddr const& a, VAcceptor* except = nullptr)
    {
        for (auto* w : ws) for (auto& v : w->acceptors) if (v->alive && v->listening && v.get() != except && same(v->addr, a)) return v.get();
        return nullptr;
    }
    unsigned acceptors() { unsigned n = 0; for (auto* w : ws) n += w->liveAcceptors(); return n; }
    unsigned links() { unsigned n = 0; for (auto* w : ws) n += w->liveLinks(); return n; }
    unsigned timers() { unsigned n = 0; for (auto* w : ws) n += w->liveTimers(); return n; }

    std::function<void()> asleep;     // called in the middle of a handler's sleep
    bool ready(World& w) { return !w.blocked; }

    // one thing that can happen now: a message handled, an attempt answered, bytes moved; false: nothing
    bool step()
    {
        std::vector<std::function<void()>> can;
        for (auto* w : ws)
            if (!w->queue.empty() && ready(*w)) can.push_back([w]() { w->step(); });
        for (auto* w : ws)
            for (auto& v : w->acceptors)
                if (v->alive && v->listening && !v->pending.empty() && ready(*w)) { auto* a = v.get(); can.push_back([w, a]() { w->fireAccepts(*a, 1); }); }
        for (std::size_t k = 0; k < attempts.size(); ++k)
            if (ready(*attempts[k].first)) can.push_back([this, k]() { answer(k); });
        for (auto& p : pipes)
        {
            if (p.done) continue;
            if (ready(*p.sw) && movable(*p.cw, p.c, *p.sw, p.s)) can.push_back([this, &p]() { move(*p.cw, p.c, *p.sw, p.s); });
            if (ready(*p.cw) && movable(*p.sw, p.s, *p.cw, p.c)) can.push_back([this, &p]() { move(*p.sw, p.s, *p.cw, p.c); });
            if (!p.cw->open(p.c) && p.cw->conn(p.c).closedByCode && !p.sw->open(p.s) && p.sw->conn(p.s).closedByCode) p.done = true;
        }
        if (can.empty()) return false;
        can[ordered ? 0 : src.below(can.size())]();
        return true;
    }
    std::uint64_t moved{0};           // bytes between the Modbus client and the Modbus server of the application
    bool movable(World& from, std::uint64_t a, World& to, std::uint64_t b)
    {
        Conn& f = from.conn(a);
        Conn& t = to.conn(b);
        if (!t.link) return false;
        return !f.fromCode.empty() || (f.closedByCode && !t.eof);
    }
    void move(World& from, std::uint64_t a, World& to, std::uint64_t b)
    {
        Conn& f = from.conn(a);
        if (!f.fromCode.empty())
        {
            std::size_t n = f.fromCode.size();
            if (piece) n = 1 + src.below(std::min<std::size_t>(n, piece));
            std::string const s = f.fromCode.substr(0, n);
            f.fromCode.erase(0, n);
            f.writes.clear();
            moved += s.size();
            to.deliver(b, s);
        }
        else to.peerClose(b);
    }
    void answer(std::size_t k)
    {
        auto [w, id] = attempts[k];
        attempts.erase(attempts.begin() + k);
        if (!w->open(id)) return;
        VAcceptor* a = find(w->conn(id).addr);
        if (!a) { w->refuse(id); return; }
        Pipe p{w, id, nullptr, 0};
        for (auto* x : ws) for (auto& v : x->acceptors) if (v.get() == a) p.sw = x;
        p.s = p.sw->dial(*a);
        pipes.push_back(p);
        w->establish(id);
    }
    std::string busy()
    {
        std::string s = fmt(" %zu attempts;", attempts.size());
        for (auto* w : ws)
        {
            s += fmt(" reactor: %zu messages, %u links, %zu exceptions", w->queue.size(), w->liveLinks(), w->exceptions.size());
            if (!w->exceptions.empty()) s += " (" + w->exceptions.back() + ")";
            for (auto& v : w->acceptors) if (v->alive && !v->pending.empty()) s += fmt(", backlog of %zu", v->pending.size());
            s += ";";
        }
        return s;
    }
    void settle()
    {
        unsigned n = 0;
        while (step()) if (++n > 200000) fail("the components never come to rest:" + busy());
    }
    void steps(unsigned n) { while (n-- && step()) {} }
    // lets time pass; everything that can happen happens
    void advance(std::int64_t us, bool settling = true)
    {
        std::int64_t const until = now + us;
        unsigned n = 0;
        for (;;)
        {
            if (settling) settle();
            World* bw = nullptr;
            VTimer* bt = nullptr;
            std::int64_t at = until;
            for (auto* w : ws)
            {
                if (w->blocked) continue;
                if (VTimer* t = w->nextTimer())
                    if (t->deadline < at || (t->deadline == at && !bt)) { at = t->deadline; bw = w; bt = t; }
            }
            if (!bt && now >= until) break;
            setNow(std::max(at, now));
            if (bt)
            {
                bt->armed = false;
                auto h = bt->handler;
                if (h) bw->guarded([&]() { h(); });
            }
            else break;
            if (++n > 300000) fail("timers never settle");
        }
        if (settling) settle();
    }
    void setNow(std::int64_t t) { if (t < now) return; now = t; for (auto* w : ws) w->now = t; }

    template <typename T> void send() { reactor::MsgStore<T> store; manager.send(store.getMsg()); }
    std::vector<std::string> exceptions()
    {
        std::vector<std::string> v;
        for (auto* w : ws) { v.insert(v.end(), w->exceptions.begin(), w->exceptions.end()); w->exceptions.clear(); }
        return v;
    }
    std::string state()
    {
        std::string s = fmt("t=%lld acceptors=%u links=%u timers=%u", (long long)now, acceptors(), links(), timers());
        for (auto* w : ws) for (auto& v : w->acceptors) if (v->alive && v->listening) s += fmt(" listen:%d", (static_cast<unsigned char>(v->addr.data[4]) << 8) + static_cast<unsigned char>(v->addr.data[5]));
        return s;
    }
};


std::string le32(std::uint32_t v) { Bytes b; b.le(v, 4); return b.b; }
std::uint32_t rd32(std::string const& s, std::size_t at)
{
    if (at + 4 > s.size()) fail("short frame");
    std::uint32_t v = 0;
    for (unsigned i = 0; i < 4; ++i) v |= static_cast<std::uint32_t>(static_cast<unsigned char>(s[at + i])) << (8 * i);
    return v;
}
std::string frame(std::string const& type, std::uint32_t chId, std::string const& payload) { return type + 'F' + le32(12 + payload.size()) + le32(chId) + payload; }
template <typename M> std::string typed(std::uint32_t typeId, M& m)
{
    ExpandedNodeId id;
    id.nodeId.value.emplace<0>() = typeId;
    return refBytes(id) + refBytes(m);
}
std::string helloFrame()
{
    HelloMessage h;
    h.endpointUrl.val = "opc.tcp://localhost:4369";
    std::string const b = refBytes(h);
    return std::string("HELF") + le32(8 + b.size()) + b;
}
std::string openFrame(std::uint32_t seq, std::uint32_t requestId)
{
    UaSecurityHeader sh;
    sh.securityPolicyUri.val = "http://opcfoundation.org/UA/SecurityPolicy#None";
    UaSequenceHeader qh;
    qh.sequenceNumber = seq;
    qh.requestId = requestId;
    UaOpenSecureChannelReq r;
    return frame("OPN", 0, refBytes(sh) + refBytes(qh) + typed(446, r));
}
std::string aduOf(unsigned tid, std::string const& body)
{
    std::string s;
    auto be = [&](unsigned v) { s += static_cast<char>(v >> 8); s += static_cast<char>(v); };
    be(tid); be(0); be(body.size());
    return s + body;
}

// a peer outside of the application
struct Outside
{
    World* w{nullptr};
    std::uint64_t id{0};
    explicit operator bool() const { return w; }
    bool open() { return w && w->open(id); }
    std::string take() { return w->takeSent(id); }
};

struct Life
{
    Src& src;
    Ctx& ctx;
    App a;
    bool on{false};               // what the last request asked for
    bool faulty{false};           // something failed since: only stop / start count
    bool disturbed{false};        // somebody else used the Modbus server or broke its connection: its self test may have failed
    std::vector<Outside> outs;
    unsigned starts{0}, stops{0}, checks{0}, faults{0};

    Life(Src& s, Ctx& c) : src(s), ctx(c), a(s)
    {
        if (getenv("APP_TRACE"))
            a.trace = [this](World& w, reactor::MsgInterface const& m)
            {
                for (std::size_t k = 0; k < a.ws.size(); ++k) if (a.ws[k] == &w) ctx.say(fmt("   t=%lld reactor %zu handles message %u", (long long)a.now, k, (unsigned)m.getMsgId()));
            };
    }
    void say(std::string const& t) { if (ctx.wantText) ctx.say(fmt("t=%lld ", (long long)a.now) + t); }

    Outside dial(reactor::LinkAddr const& addr)
    {
        VAcceptor* v = a.find(addr);
        if (!v) return {};
        Outside o;
        for (auto* x : a.ws) for (auto& q : x->acceptors) if (q.get() == v) o.w = x;
        o.id = o.w->dial(*v);
        a.settle();
        return o;
    }
    std::string exchange(Outside& o, std::string const& bytes)
    {
        o.take();
        o.w->deliver(o.id, bytes);
        a.settle();
        return o.take();
    }

    // A start before the one before it is complete and without a stop leaves confirmations of the former to the latter:
    // the Modbus self test is then not required to work until all has been stopped.
    bool overlapping{false};
    std::int64_t startedAt{0};
    void start()
    {
        if (on && a.now < startedAt + 3 * sec) overlapping = true;
        startedAt = a.now;
        say("start"); a.send<MsgControllerStartReq>(); on = true; ++starts; faulty = false; disturbed = overlapping;
        for (auto* w : a.ws) faulty |= w->failListen;
    }
    void stop() { say("stop"); a.send<MsgControllerStopReq>(); on = false; ++stops; }

    void uaPeer()
    {
        Outside o = dial(uaAddr);
        if (!o) return;
        say("a UA client connects");
        outs.push_back(o);
        if (src.coin() && o.open()) o.w->deliver(o.id, helloFrame());
        if (src.coin()) { a.steps(src.below(6)); if (o.open()) o.w->deliver(o.id, openFrame(1, 1)); }
        a.steps(src.below(8));
    }
    void modbusPeer()
    {
        Outside o = dial(modbusAddr);
        if (!o) return;
        say("a Modbus master connects");
        outs.push_back(o);
        if (src.coin() && o.open()) o.w->deliver(o.id, aduOf(3, std::string("\x01\x04\x00\x0a\x00\x02", 6)));
        a.steps(src.below(8));
    }
    void drop()
    {
        if (outs.empty()) return;
        Outside& o = outs[src.below(outs.size())];
        if (!o.open()) return;
        say("an outside peer leaves");
        if (src.coin()) o.w->peerClose(o.id); else o.w->peerReset(o.id);
    }
    void cut()
    {
        for (auto& p : a.pipes)
            if (!p.done && p.cw->open(p.c) && p.sw->open(p.s))
            {
                say("the connection between Modbus client and server breaks");
                p.cw->peerReset(p.c);
                p.sw->peerReset(p.s);
                disturbed = true;
                ++faults;
                return;
            }
    }
    void listenFault()
    {
        say("a port is taken");
        a.ws[src.below(a.ws.size())]->failListen = true;
        faulty = true;
        ++faults;
    }

    void servesUa()
    {
        Outside o = dial(uaAddr);
        PBT_REQUIRE(o, "started, but nobody listens on the OPC UA address; %s", a.state().c_str());
        PBT_REQUIRE(o.open(), "started, but a UA connection is not accepted; %s", a.state().c_str());
        std::string r = exchange(o, helloFrame());
        PBT_REQUIRE(r.size() == 28 && r.substr(0, 4) == "ACKF", "started, but a Hello is not acknowledged (%zu bytes)", r.size());
        r = exchange(o, openFrame(7, 99));
        PBT_REQUIRE(r.size() > 12 && r.substr(0, 4) == "OPNF", "started, but a secure channel is not opened (%zu bytes)", r.size());
        std::uint32_t const ch = rd32(r, 8);
        UaGetEndpointsReq g;
        PBT_REQUIRE(r.size() > 40 && rd32(r, 4) == r.size(), "started, but the response to OpenSecureChannel is malformed");
        std::uint32_t const token = rd32(r, r.size() - 4 - 4 - 8 - 4);    // before creation time, lifetime and an empty nonce
        r = exchange(o, frame("MSG", ch, le32(token) + le32(8) + le32(100) + typed(428, g)));
        PBT_REQUIRE(r.size() > 24 && r.substr(0, 4) == "MSGF" && rd32(r, 20) == 100, "started, but GetEndpoints is not answered (%zu bytes)", r.size());
        // the endpoint named there is this one
        std::size_t const at = r.find("opc.tcp://");
        PBT_REQUIRE(at != std::string::npos, "GetEndpoints names no endpoint");
        std::string url = r.substr(at + 10, at >= 4 ? rd32(r, at - 4) - 10 : 0);
        url = url.substr(0, url.find('/'));
        std::size_t const colon = url.find(':');
        std::string const host = url.substr(0, colon);
        unsigned const port = colon == std::string::npos ? 4840 : static_cast<unsigned>(std::strtoul(url.c_str() + colon + 1, nullptr, 10));
        PBT_REQUIRE(host == "localhost" || host == "127.0.0.1", "the endpoint named by GetEndpoints is not on this machine: %s", url.c_str());
        Outside again = dial(addrOf(port));
        PBT_REQUIRE(again && again.open(), "nobody listens at the endpoint named by GetEndpoints (%s)", url.c_str());
        PBT_REQUIRE(exchange(again, helloFrame()).substr(0, 4) == "ACKF", "the endpoint named by GetEndpoints (%s) does not serve OPC UA", url.c_str());
        again.w->peerClose(again.id);
        o.w->peerClose(o.id);
        a.settle();
    }
    void servesModbus()
    {
        unsigned listening = 0;
        for (auto* w : a.ws) for (auto& v : w->acceptors) listening += v->alive && v->listening && same(v->addr, modbusAddr);
        PBT_REQUIRE(listening == 1, "started, but %u listen on the Modbus address; %s", listening, a.state().c_str());
        unsigned connected = 0;
        for (auto& p : a.pipes) connected += p.cw->open(p.c) && p.sw->open(p.s);
        PBT_REQUIRE(connected == 1, "started, but the Modbus client has %u connections; %s", connected, a.state().c_str());
        std::string const q = aduOf(3, std::string("\x01\x04\x00\x0a\x00\x02", 6));
        std::string r;
        for (unsigned k = 0; k < 3 && r.empty(); ++k)
        {
            Outside o = dial(modbusAddr);
            PBT_REQUIRE(o && o.open(), "started, but a Modbus connection is not accepted; %s", a.state().c_str());
            r = exchange(o, q);
            if (r.empty()) a.advance(20000);       // between two rounds of the self test
            if (r.empty() && o.open()) r = exchange(o, q);
            if (o.open()) o.w->peerClose(o.id);
            a.settle();
        }
        PBT_REQUIRE(r.size() == 13 && r[7] == 4 && r[8] == 4, "started, but a Modbus request is not answered: %s", hex(r).c_str());
        std::uint64_t const before = a.moved;
        a.advance(12 * sec);                       // one of its requests is never answered and times out
        PBT_REQUIRE(a.moved > before, "started, but the Modbus self test stands still; %s", a.state().c_str());
    }

    void check()
    {
        ++checks;
        for (auto* w : a.ws) if (w->failListen) { w->failListen = false; }
        a.ordered = true;
        a.advance(src.pick({100000, 1000000, 3000000, 12000000, 65000000}));
        PBT_REQUIRE(a.allConfirmed(), "a request to initialise or release a component was not confirmed to the controller exactly once:%s", a.confirmations().c_str());
        if (!on)
        {
            PBT_REQUIRE(!a.acceptors() && !a.links() && !a.timers(), "stopped, but not everything is released; %s", a.state().c_str());
            for (auto& o : outs) PBT_REQUIRE(!o.open(), "stopped, but a connection is still open");
            outs.clear();
            overlapping = false;
            ctx.label("stopped and checked");
        }
        else if (!faulty)
        {
            a.advance(3000000);
            servesUa();
            if (!disturbed) { servesModbus(); ctx.label("modbus checked"); }
            ctx.label("started and checked");
        }
    }

    void run()
    {
        a.piece = src.pick({0u, 0u, 1u, 7u, 300u});
        bool const nap = src.coin();
        bool busy = true;
        if (nap) a.asleep = [&]() { if (busy) switch (src.below(8)) { case 6: stop(); break; case 7: start(); break; default: break; } };
        for (unsigned n = 0; n < 60 * src.scale && src.goOn(20); ++n)
        {
            a.ordered = src.coin();
            switch (src.below(14))
            {
            case 0: case 1: case 2: start(); break;
            case 3: case 4: stop(); break;
            case 5: case 6: case 7: a.steps(src.below(12)); break;
            case 8: a.advance(src.below(3 * sec)); break;
            case 9: if (on || src.coin()) uaPeer(); break;
            case 10: modbusPeer(); break;
            case 11: drop(); break;
            case 12: switch (src.below(3)) { case 0: cut(); break; case 1: listenFault(); break; default: break; } break;
            default: check(); break;
            }
            a.steps(src.below(4));
        }
        busy = false;
        check();
        // whatever happened, a stop releases everything and a start brings everything back
        stop();
        check();
        start();
        check();
        stop();
        check();
        if (starts >= 2 && stops >= 2) ctx.nontrivial();
    }
};

void c23(Src& src, Ctx& ctx)
{
    logging(false);
    Life(src, ctx).run();
}

// Started and stopped again and again, or left running for hours.
void c23long(Src& outer, Ctx& ctx)
{
    logging(false);
    Src src = outer.fork();
    Life l(src, ctx);
    bool const hours = src.below(3) == 0;
    if (hours)
    {
        l.start();
        l.check();
        std::int64_t const until = l.a.now + (600 + src.below(6600)) * sec;
        while (l.a.now < until)
        {
            l.a.advance(src.range(100, 900) * sec);
            l.check();
        }
        ctx.labels["seconds of running"] += l.a.now / sec;
        l.stop();
        l.check();
    }
    else
    {
        unsigned n = src.below(6) ? 18 + src.below(40) : 255 + src.below(10);
        unsigned const often = n > 100 ? 40 : 6;
        while (n--)
        {
            l.start();
            if (src.chance(1, often)) l.check(); else if (src.coin()) l.a.settle(); else l.a.advance(src.below(4 * sec));
            if (src.below(4) == 0) { unsigned k = src.below(4); while (k--) { if (src.coin()) l.uaPeer(); else l.modbusPeer(); } }
            l.stop();
            if (src.chance(1, often)) l.check(); else if (src.coin()) l.a.settle(); else l.a.advance(src.below(4 * sec));
        }
        l.check();
        l.start();
        l.check();
        l.stop();
        l.check();
    }
    ctx.labels["starts"] += l.starts;
    ctx.nontrivial();
}


// ---------------------------------------------------------------- C24: traffic nobody in his right mind sends

struct Traffic : Life
{
    struct Talk { Outside o; bool ua; int phase{0}; std::uint32_t ch{0}, token{0}, seq{0}; };
    std::vector<Talk> talks;
    unsigned answers{0}, hostile{0};

    Traffic(Src& s, Ctx& c) : Life(s, c) {}

    std::string mutate(std::string f)
    {
        unsigned n = 0;
        do
        {
            if (f.empty()) f = "x";
            switch (src.below(6))
            {
            case 0: f[src.below(f.size())] = static_cast<char>(src.below(256)); break;
            case 1: f[src.below(f.size())] ^= static_cast<char>(1 << src.below(8)); break;
            case 2: f.resize(src.below(f.size() + 1)); break;
            case 3: f += src.bytes(200, 30); break;
            case 4: { std::size_t const at = src.below(f.size()); for (std::size_t k = at; k < at + 4 && k < f.size(); ++k) f[k] = static_cast<char>(src.pick({0, 0xff, 0x7f, 0x80})); } break;
            default: { std::size_t const at = src.below(f.size()); f.erase(at, 1 + src.below(8)); } break;
            }
        } while (++n < 4 && src.coin());
        return f;
    }

    std::string modbusBytes()
    {
        auto be = [](unsigned v) { return std::string{static_cast<char>(v >> 8), static_cast<char>(v)}; };
        unsigned const tid = src.coin() ? src.below(16) : src.integer(16);
        unsigned const func = src.pick({3, 3, 4, 4, 6, 6, 16, 16, 1, 2, 5, 15, 0x8f, 0});
        unsigned const start = src.below(3) ? src.below(1100) : src.integer(16);
        std::string b = std::string(1, static_cast<char>(src.pick({1, 1, 0, 247, 255}))) + static_cast<char>(func);
        switch (func)
        {
        case 6: case 5: b += be(start) + be(func == 5 ? src.pick({0u, 0xff00u}) : src.integer(16)); break;
        case 16:
        {
            unsigned const n = 1 + src.below(123);
            b += be(start) + be(n) + static_cast<char>(2 * n) + src.bytesExact(2 * n);
            break;
        }
        default: b += be(start) + be(src.coin() ? 1 + src.below(125) : src.integer(16)); break;
        }
        std::string const f = aduOf(tid, b);
        return src.chance(1, 4) ? mutate(f) : f;
    }

    void talk(Talk& t)
    {
        if (!t.o.open()) return;
        std::string f;
        bool proper = false;
        if (!t.ua) f = modbusBytes();
        else if (t.phase == 0) { f = helloFrame(); proper = src.below(4); if (!proper) f = mutate(f); }
        else if (t.phase == 1) { t.seq = src.below(1000); f = openFrame(t.seq, 5); proper = src.below(4); if (!proper) f = mutate(f); }
        else
        {
            UaGetEndpointsReq g;
            UaCreateSessionReq cs;
            UaActivateSessionReq as;
            UaCloseSessionReq xs;
            UaReadReq rd;
            as.requestHdr.authentificationToken.value.emplace<0>() = src.below(40);
            xs.requestHdr.authentificationToken.value.emplace<0>() = src.below(40);
            std::string b;
            switch (src.below(6))
            {
            case 0: b = typed(428, g); break;
            case 1: b = typed(461, cs); break;
            case 2: b = typed(467, as); break;
            case 3: b = typed(473, xs); break;
            case 4: b = typed(631, rd); break;
            default: b = typed(static_cast<std::uint32_t>(src.coin() ? 400 + src.below(300) : src.integer(32)), g); break;
            }
            bool const bad = src.below(3) == 0;
            if (bad) b = mutate(b);
            t.seq += 1;
            f = frame("MSG", t.ch, le32(t.token) + le32(t.seq) + le32(src.integer(32)) + b);
            if (src.chance(1, 6)) f = mutate(f);
        }
        if (src.chance(1, 10)) { f = src.bytes(3000, 100); proper = false; }
        if (!proper) ++hostile;
        std::size_t at = 0;
        while (at < f.size() && t.o.open())
        {
            std::size_t const n = src.below(3) ? f.size() - at : 1 + src.below(std::min<std::size_t>(f.size() - at, 40));
            t.o.w->deliver(t.o.id, f.substr(at, n));
            at += n;
            if (src.coin()) a.settle(); else a.steps(src.below(6));
        }
        if (src.below(4)) a.settle();
        std::string const r = t.o.take();
        if (!r.empty()) ++answers;
        if (t.ua && t.phase == 0 && r.size() == 28 && r.substr(0, 4) == "ACKF") t.phase = 1;
        else if (t.ua && t.phase == 1 && r.size() > 40 && r.substr(0, 4) == "OPNF") { t.phase = 2; t.ch = rd32(r, 8); t.token = rd32(r, r.size() - 20); }
    }

    // registers written through one transaction id read back as written; what is out of range gives an exception
    void registers()
    {
        auto be = [](unsigned v) { return std::string{static_cast<char>(v >> 8), static_cast<char>(v)}; };
        Outside o = dial(modbusAddr);
        if (!o || !o.open()) return;
        unsigned const tid = src.pick({0u, 3u, 4u, 7u, 8u, 10u});
        unsigned const n = 1 + src.below(100);
        if (src.coin())
        {
            unsigned const at = 300 + src.below(400);
            std::string const data = src.bytesExact(2 * n);
            std::string r = exchange(o, aduOf(tid, std::string("\x01\x10", 2) + be(at) + be(n) + static_cast<char>(2 * n) + data));
            if (!r.empty())
            {
                PBT_REQUIRE(r == aduOf(tid, std::string("\x01\x10", 2) + be(at) + be(n)), "writing %u registers at %u: %s", n, at, hex(r).c_str());
                if (!o.open()) return;
                r = exchange(o, aduOf(tid, std::string("\x01", 1) + static_cast<char>(src.pick({3, 4})) + be(at) + be(n)));
                if (!r.empty())
                {
                    PBT_REQUIRE(r.size() == 9 + 2 * n && r.substr(9) == data, "%u registers at %u read back differently: %s, written %s", n, at, hex(r).c_str(), hex(data).c_str());
                    ctx.label("registers read back");
                }
            }
        }
        else
        {
            bool const far = src.coin();
            unsigned const t = far ? tid : src.pick({16u, 17u, 255u, 256u, 4096u, 65535u});
            unsigned const at = far ? src.pick({1024u - n + 1, 1024u, 1025u, 32767u, 32768u, 65535u}) : src.below(900);
            std::string const r = exchange(o, aduOf(t, src.coin() ? std::string("\x01\x03", 2) + be(at) + be(n) : std::string("\x01\x10", 2) + be(at) + be(n) + static_cast<char>(2 * n) + src.bytesExact(2 * n)));
            if (!r.empty())
            {
                PBT_REQUIRE(r.size() == 9 && r.substr(6, 2) == std::string("\x01\x8f", 2), "a request out of range is answered with %s", hex(r).c_str());
                ctx.label("out of range refused");
            }
        }
        if (o.open()) o.w->peerClose(o.id);
        a.settle();
    }

    void run()
    {
        start();
        a.settle();
        a.advance(3 * sec);
        for (unsigned n = 0; n < 150 * src.scale && src.goOn(60); ++n)
        {
            a.ordered = src.below(4);
            switch (src.below(11))
            {
            case 10: registers(); break;
            case 0: case 1:
            {
                Talk t;
                t.ua = src.coin();
                // never more than the application can hold: it would accept the next only once one is gone
                {
                    talks.erase(std::remove_if(talks.begin(), talks.end(), [](Talk& x) { return !x.o.open(); }), talks.end());
                    std::size_t same = 0;
                    for (auto& x : talks) same += x.ua == t.ua;
                    if (src.scale > 1 && same >= 24) { auto& x = talks.front(); if (src.coin()) x.o.w->peerClose(x.o.id); else x.o.w->peerReset(x.o.id); a.settle(); break; }
                }
                t.o = dial(t.ua ? uaAddr : modbusAddr);
                if (t.o) talks.push_back(t);
                break;
            }
            case 2: if (!talks.empty()) { auto& t = talks[src.below(talks.size())]; if (t.o.open()) { if (src.coin()) t.o.w->peerClose(t.o.id); else t.o.w->peerReset(t.o.id); } } break;
            case 3: a.advance(src.below(src.chance(1, 8) ? 40 * sec : 2 * sec)); break;
            default:
            {
                // the latest are the most interesting
                if (talks.empty()) break;
                talk(talks[talks.size() - 1 - src.below(std::min<std::size_t>(talks.size(), 4))]);
                break;
            }
            }
        }
        a.ordered = true;
        a.settle();
        for (auto& t : talks) if (t.o.open()) { if (src.coin()) t.o.w->peerClose(t.o.id); else t.o.w->peerReset(t.o.id); a.settle(); }
        disturbed = true;
        servesUa();                               // UA goes on as if nothing had happened
        check();
        stop();
        check();
        start();
        check();                                  // and a restart restores all
        stop();
        check();
        if (answers >= 2 && hostile >= 2) ctx.nontrivial();
    }
};

void c24(Src& src, Ctx& ctx)
{
    logging(src.chance(1, 8));
    Traffic(src, ctx).run();
}


// ---------------------------------------------------------------- C24: the registers of the controller

// 1024 registers for each transaction id; the self test uses some of them itself, those are left alone.
struct Registers : Life
{
    Registers(Src& s, Ctx& c) : Life(s, c) {}
    std::map<unsigned, std::map<unsigned, unsigned>> model;      // what has been read or written
    std::vector<Outside> peers;
    unsigned reads{0}, writes{0}, refused{0}, known{0};

    static std::string be(unsigned v) { return std::string{static_cast<char>(v >> 8), static_cast<char>(v)}; }
    static bool selfTest(unsigned tid, unsigned at)
    {
        return ((tid == 0 || tid == 7) && at >= 890 && at < 1010) || (tid == 4 && at == 190) || (tid == 8 && at == 256);
    }
    static bool selfTest(unsigned tid, unsigned at, unsigned n) { for (unsigned k = 0; k < n; ++k) if (selfTest(tid, at + k)) return true; return false; }

    // A request is not answered between two rounds of the self test; then it is sent again by another connection.
    std::string ask(std::string const& adu)
    {
        for (unsigned k = 0; k < 6; ++k)
        {
            peers.erase(std::remove_if(peers.begin(), peers.end(), [](Outside& o) { return !o.open(); }), peers.end());
            std::size_t me = peers.size();
            if (peers.empty() || k || (peers.size() < 6 && src.chance(1, 4)))
            {
                peers.push_back(dial(modbusAddr));
                PBT_REQUIRE(peers.back() && peers.back().open(), "a Modbus connection is not accepted; %s", a.state().c_str());
            }
            else me = src.below(peers.size());
            Outside o = peers[me];
            std::string const r = exchange(o, adu);
            if (!r.empty())
            {
                for (std::size_t q = 0; q < peers.size(); ++q) PBT_REQUIRE(q == me || peers[q].take().empty(), "another connection got bytes");
                return r;
            }
            peers.erase(peers.begin() + me);
            if (o.open()) o.w->peerReset(o.id);
            a.advance(15000);
        }
        fail("a request is never answered: " + hex(adu));
        return {};
    }

    void read()
    {
        unsigned const tid = src.pick({0u, 3u, 4u, 7u, 8u, 10u, 11u});
        unsigned const n = src.coin() ? 1 + src.below(125) : 125;
        unsigned const at = src.coin() ? src.below(1024 - n + 1) : src.pick({0u, 1024 - n});
        unsigned const unit = src.pick({1u, 0u, 247u, 7u});
        unsigned const func = src.pick({3u, 4u});
        std::string const r = ask(aduOf(tid, std::string(1, static_cast<char>(unit)) + static_cast<char>(func) + be(at) + be(n)));
        if (ctx.wantText) say(fmt("read bank %u registers %u..%u: %s", tid, at, at + n - 1, hex(r, 40).c_str()));
        PBT_REQUIRE(r.size() == 9 + 2 * n && r.substr(0, 9) == be(tid) + be(0) + be(3 + 2 * n) + static_cast<char>(unit) + static_cast<char>(func) + static_cast<char>(2 * n), "reading %u registers gives %s", n, hex(r, 40).c_str());
        for (unsigned k = 0; k < n; ++k)
        {
            unsigned const v = (static_cast<unsigned char>(r[9 + 2 * k]) << 8) | static_cast<unsigned char>(r[10 + 2 * k]);
            if (selfTest(tid, at + k)) continue;
            auto& bank = model[tid];
            auto it = bank.find(at + k);
            if (it == bank.end()) { bank[at + k] = v; continue; }
            ++known;
            PBT_REQUIRE(it->second == v, "register %u of bank %u reads %04x, it was %04x", at + k, tid, v, it->second);
        }
        ++reads;
    }
    void write()
    {
        unsigned const tid = src.pick({0u, 3u, 4u, 7u, 8u, 10u, 11u});
        bool const single = src.coin();
        unsigned const n = single ? 1 : 1 + src.below(src.coin() ? 123 : 8);
        unsigned const at = src.coin() ? src.below(1024 - n + 1) : src.pick({0u, 1024 - n});
        if (selfTest(tid, at, n)) return;
        std::string const data = src.bytesExact(2 * n);
        std::string const unit(1, static_cast<char>(src.pick({1u, 0u, 247u, 7u})));
        std::string const q = aduOf(tid, single ? unit + '\x06' + be(at) + data : unit + '\x10' + be(at) + be(n) + static_cast<char>(2 * n) + data);
        std::string const r = ask(q);
        if (ctx.wantText) say(fmt("write bank %u registers %u..%u: %s", tid, at, at + n - 1, hex(data, 40).c_str()));
        PBT_REQUIRE(r == (single ? q : aduOf(tid, unit + '\x10' + be(at) + be(n))), "writing is answered with %s", hex(r).c_str());
        for (unsigned k = 0; k < n; ++k) model[tid][at + k] = (static_cast<unsigned char>(data[2 * k]) << 8) | static_cast<unsigned char>(data[2 * k + 1]);
        ++writes;
    }
    void outside()
    {
        bool const far = src.coin();
        unsigned const n = 1 + src.below(100);
        unsigned const tid = far ? src.pick({0u, 3u, 4u, 7u, 8u, 10u, 11u}) : src.pick({16u, 17u, 255u, 256u, 4096u, 65535u});
        unsigned const at = far ? src.pick({1024u - n + 1, 1024u, 1025u, 32767u, 32768u, 65535u}) : src.below(900);
        std::string const q = src.coin() ? std::string("\x01\x03", 2) + be(at) + be(n) : std::string("\x01\x10", 2) + be(at) + be(n) + static_cast<char>(2 * n) + src.bytesExact(2 * n);
        std::string const r = ask(aduOf(tid, q));
        PBT_REQUIRE(r.size() == 9 && r.substr(0, 8) == be(tid) + be(0) + be(3) + std::string("\x01\x8f", 2) && r[8] != 0, "bank %u register %u does not exist, answered with %s", tid, at, hex(r).c_str());
        ++refused;
    }

    void run()
    {
        start();
        a.settle();
        a.advance(3 * sec);
        for (unsigned n = 0; n < 120 * src.scale && src.goOn(40); ++n)
        {
            a.ordered = src.below(4);
            switch (src.below(12))
            {
            case 0: outside(); break;
            case 1: a.advance(src.below(6) ? src.below(100000) : src.below(40 * sec)); break;
            case 2: if (!peers.empty()) { std::size_t const k = src.below(peers.size()); if (peers[k].open()) { if (src.coin()) peers[k].w->peerClose(peers[k].id); else peers[k].w->peerReset(peers[k].id); } peers.erase(peers.begin() + k); } break;
            case 3: case 4: case 5: case 6: write(); break;
            default: read(); break;
            }
        }
        for (auto& p : peers) if (p.open()) p.w->peerClose(p.id);
        a.settle();
        check();
        ctx.labels["reads"] += reads;
        ctx.labels["writes"] += writes;
        ctx.labels["refused"] += refused;
        ctx.labels["values compared"] += known;
        if (writes >= 1 && known >= 1) ctx.nontrivial();
    }
};

void c24registers(Src& src, Ctx& ctx)
{
    logging(false);
    Registers(src, ctx).run();
}


// ---------------------------------------------------------------- C25: memory

struct Memory : Traffic
{
    Memory(Src& s, Ctx& c) : Traffic(s, c) {}
    std::uint32_t fresh{1000};

    // what the harness itself keeps
    void forget()
    {
        a.settle();
        outs.clear();
        outs.shrink_to_fit();
        talks.clear();
        talks.shrink_to_fit();
        a.pipes.erase(std::remove_if(a.pipes.begin(), a.pipes.end(), [&](Pipe& p) { return !p.cw->open(p.c) && !p.sw->open(p.s); }), a.pipes.end());
        for (auto* w : a.ws)
        {
            w->outbox.clear();
            w->outbox.shrink_to_fit();
            w->exceptions.clear();
            w->exceptions.shrink_to_fit();
            for (auto it = w->conns.begin(); it != w->conns.end();)
            {
                bool keep = it->second.link;
                for (auto& p : a.pipes) keep |= (p.cw == w && p.c == it->first) || (p.sw == w && p.s == it->first);
                for (auto& v : w->acceptors) keep |= std::find(v->pending.begin(), v->pending.end(), it->first) != v->pending.end();
                if (!keep) { it = w->conns.erase(it); continue; }
                it->second.writes.clear();
                it->second.writes.shrink_to_fit();
                it->second.fromCode.shrink_to_fit();
                it->second.toCode.shrink_to_fit();
                ++it;
            }
            w->queue.shrink_to_fit();
        }
        a.attempts.shrink_to_fit();
    }
    std::size_t used() { forget(); return __sanitizer_get_current_allocated_bytes(); }

    void uaVisit(unsigned kind)
    {
        Outside o = dial(uaAddr);
        if (!o || !o.open()) return;
        if (a.trace) say(fmt("   ua visit %u links%s", kind, a.busy().c_str()));
        if (kind == 0) { o.w->peerClose(o.id); return; }
        if (kind == 1) { o.w->deliver(o.id, src.bytesExact(60)); a.settle(); if (o.open()) o.w->peerReset(o.id); return; }
        exchange(o, helloFrame());
        if (kind == 2) { o.w->peerReset(o.id); return; }
        std::string r = exchange(o, openFrame(5, 6));
        if (r.size() < 40) { if (o.open()) o.w->peerClose(o.id); return; }
        std::uint32_t const ch = rd32(r, 8), token = rd32(r, r.size() - 20);
        std::uint32_t seq = 5;
        auto msg = [&](std::string const& b) { if (!o.open()) return std::string(); ++seq; return exchange(o, frame("MSG", ch, le32(token) + le32(seq) + le32(seq) + b)); };
        switch (kind)
        {
        case 3: { UaGetEndpointsReq g; msg(typed(428, g)); break; }
        case 4: { UaGetEndpointsReq g; for (unsigned k = 0; k < 4; ++k) msg(typed(++fresh, g)); break; }                  // unknown services
        case 5:
        {
            UaCreateSessionReq c;
            std::string q = msg(typed(461, c));
            if (q.size() < 60) break;
            // the session id is its 4 byte numeric form; try all 32
            UaActivateSessionReq as;
            UaCloseSessionReq cs;
            UaReadReq rd;
            for (unsigned id = 1; id <= 32; ++id)
            {
                as.requestHdr.authentificationToken.value.emplace<0>() = id;
                cs.requestHdr.authentificationToken.value.emplace<0>() = id;
                if (!msg(typed(467, as)).empty()) { msg(typed(631, rd)); msg(typed(473, cs)); }
            }
            break;
        }
        case 6: { UaActivateSessionReq as; as.requestHdr.authentificationToken.value.emplace<0>() = ++fresh; msg(typed(467, as)); UaReadReq rd; msg(typed(631, rd)); break; }
        case 7: msg(src.bytesExact(50)); break;
        default: break;
        }
        if (!o.open()) return;
        if (src.coin()) o.w->peerClose(o.id); else o.w->peerReset(o.id);
    }
    void modbusVisit(unsigned kind)
    {
        Outside o = dial(modbusAddr);
        if (!o || !o.open()) return;
        auto be = [](unsigned v) { return std::string{static_cast<char>(v >> 8), static_cast<char>(v)}; };
        switch (kind)
        {
        case 0: break;
        case 1: exchange(o, aduOf(3, std::string("\x01\x04", 2) + be(src.below(900)) + be(1 + src.below(100)))); break;
        case 2: exchange(o, aduOf(++fresh & 0xffff, std::string("\x01\x04", 2) + be(src.below(900)) + be(1))); break;
        case 3: exchange(o, src.bytesExact(40)); break;
        default: o.w->deliver(o.id, aduOf(3, std::string("\x01\x04", 2) + be(1) + be(1)).substr(0, 7)); break;
        }
        if (!o.open()) return;
        if (src.coin()) o.w->peerClose(o.id); else o.w->peerReset(o.id);
    }

    // more peers at once than there is room for, as long as the server takes them
    void crowd(reactor::LinkAddr const& addr)
    {
        std::vector<Outside> all;
        for (unsigned k = 0; k < 28; ++k) { Outside o = dial(addr); if (o && o.open()) all.push_back(o); }
        for (auto& o : all) if (o.open()) { if (src.coin()) o.w->peerClose(o.id); else o.w->peerReset(o.id); }
    }
    void brokenWrite()
    {
        Outside o = dial(uaAddr);
        if (!o || !o.open()) return;
        if (src.coin()) o.w->conn(o.id).failSend = true;
        exchange(o, helloFrame());
        o.w->conn(o.id).failSend = true;
        if (o.open()) exchange(o, openFrame(5, 6));
        if (o.open()) o.w->peerReset(o.id);
    }
    void brokenAccept()
    {
        for (auto const& addr : {uaAddr, modbusAddr})
        {
            VAcceptor* v = a.find(addr);
            if (!v) continue;
            v->failAccept = true;
            dial(addr);
            v->failAccept = false;
        }
    }

    void run()
    {
        start();
        a.advance(3 * sec);
        unsigned const kind = src.below(19);
        auto round = [&]()
        {
            if (kind < 8) uaVisit(kind);
            else if (kind < 13) modbusVisit(kind - 8);
            else if (kind == 13) { stop(); a.advance(sec); start(); a.advance(3 * sec); }
            else if (kind == 14) a.advance(1000000);
            else if (kind == 15 || kind == 16) crowd(kind == 15 ? uaAddr : modbusAddr);
            else if (kind == 17) brokenWrite();
            else brokenAccept();
            a.settle();
            disturbed = true;
        };
        // each window has as many repetitions as all before it, so that what doubles its capacity now and then is seen too
        constexpr unsigned windows = 6;
        std::size_t at[windows];
        unsigned const first = kind == 13 ? 24 : 60;
        unsigned done = 0;
        std::string seen;
        bool always = true;                 // what is only a matter of capacities does not grow in every window
        for (unsigned w = 0; w < windows && always; ++w)
        {
            unsigned const n = w ? done : first;
            for (unsigned k = 0; k < n; ++k) { round(); if (k % 16 == 15) forget(); }
            done += n;
            at[w] = used();
            seen += fmt(" %zu", at[w]);
            if (w && at[w] < at[w - 1] + n * 3) always = false;
        }
        say(fmt("activity %u: bytes in use%s", kind, seen.c_str()));
        ctx.label(fmt("activity %u", kind));
        ctx.nontrivial();
        PBT_REQUIRE(!always, "memory keeps growing with every repetition of activity %u:%s bytes", kind, seen.c_str());
    }
};

void c25(Src& src, Ctx& ctx)
{
    logging(false);
    Memory(src, ctx).run();
}

PBT_SUB("C23", "lifecycle", "random histories of start and stop requests with any number of messages between the components handled in between, clients coming and going, ports taken and connections breaking; then stop, start, stop; non-trivial: at least 2 starts and 2 stops", 6000, 150000, c23);
PBT_SUB("C23", "long", "18 to 265 starts and stops in turn, or 10 minutes to 2 hours of running with the servers tried now and then; every case is non-trivial", 240, 6000, c23long, 90);
PBT_SUB("C24", "traffic", "up to 150 actions of any number of peers of both ports of the started application: well-formed requests with every field at random, mutated ones, garbage, in pieces, leaving at any time; then a fresh UA client is served, and after stop and start everything; non-trivial: at least 2 answers and 2 hostile messages", 6000, 150000, c24);
PBT_SUB("C24", "long-traffic", "the histories of traffic, 15 times as long; non-trivial by the same rule", 160, 4000, longer<15>(c24), 90);
PBT_SUB("C24", "registers", "up to 120 well-formed reads, single and multiple writes and requests out of range on any number of Modbus connections while the self test runs, compared with a model of the registers; non-trivial: at least one write and one value compared", 6000, 150000, c24registers);
PBT_SUB("C24", "long-use", "the histories of registers, 15 times as long; non-trivial by the same rule", 240, 6000, longer<15>(c24registers), 90);
PBT_SUB("C25", "growth", "one of 19 activities (connections to both ports that end in every way, every service, unknown services, sessions and requests that do not exist, garbage, failing writes and accepts, crowds, stop and start, idle time) repeated 60 times (stop and start: 24) in the started application, then again as often as all before, as long as that takes at least 3 bytes more each, up to 1920 repetitions; every case is non-trivial", 4000, 60000, c25, 120);

} // namespace
