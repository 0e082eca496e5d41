// A deterministic stand-in for the event loop: virtual time, virtual links, acceptors and
// timers, and an explicit message queue.  It implements the repository's own
// ReactorInterface / SenderInterface, so whole components run unchanged on top of it and
// the harness decides every schedule: when a timer fires, when bytes arrive and in which
// pieces, when a peer disappears, when a send fails, when a message is delivered.
#pragma once

#include <algorithm>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

#include "pbt.hpp"
#include "ReactorInterface.hpp"
#include "SenderInterface.hpp"
#include "LinkInterface.hpp"
#include "TimerInterface.hpp"
#include "AcceptorInterface.hpp"
#include "MsgInterface.hpp"
#include "MaxMsgSize.hpp"
#include "Logger.hpp"

namespace world
{

using namespace app;
using reactor::LinkEvent;

class World;

struct Msg
{
    std::unique_ptr<char[]> mem;
    std::size_t len;
    reactor::MsgInterface const& get() const { return *reinterpret_cast<reactor::MsgInterface const*>(mem.get()); }
    template <typename T> T const& as() const { return static_cast<T const&>(get()); }
};

struct VTimer : reactor::TimerInterface
{
    explicit VTimer(World& w_) : w(w_) {}
    void start(long us) override;
    void stop() override { armed = false; }
    void release() override { armed = false; handler = {}; alive = false; }
    World& w;
    reactor::TimerHandler handler;
    bool armed{false};
    bool alive{false};
    std::int64_t deadline{0};
    std::uint64_t seq{0};
};

// One virtual socket.  conn == 0: no descriptor.
struct VLink : reactor::LinkInterface
{
    explicit VLink(World& w_) : w(w_) {}
    void connect(reactor::LinkAddr const&) override;
    void close() override;
    void release() override { close(); handler = {}; alive = false; }
    int send(void const*, std::size_t) override;
    reactor::LinkResult receive(std::uint8_t*, std::size_t) override;
    void setHandler(reactor::LinkHandler h) override { handler = h; }
    int fileDescriptor() const override { return conn ? static_cast<int>(conn) : -1; }
    void setFileDescriptor(int v) override
    {
        if (conn) throw std::runtime_error("already connected");
        conn = v < 0 ? 0 : v;
    }
    void onFileDescriptorEvent(int) override {}
    World& w;
    reactor::LinkHandler handler;
    std::uint64_t conn{0};
    bool alive{false};
};

// The far end of one connection, as seen by the harness.
struct Conn
{
    std::uint64_t id{0};
    reactor::LinkAddr addr{};
    VLink* link{nullptr};          // near end, nullptr once the code under test closed it
    bool incoming{false};
    bool established{false};
    bool closedByCode{false};
    bool eof{false};               // peer closed
    bool reset{false};
    bool failSend{false};
    std::int64_t openedAt{0}, acceptedAt{0}, closedAt{0};
    std::string toCode;            // bytes not read yet by the code under test
    std::string fromCode;          // bytes sent by the code under test, not consumed by the harness
    std::vector<std::string> writes;  // individual sends
};

struct VAcceptor : reactor::AcceptorInterface
{
    explicit VAcceptor(World& w_) : w(w_) {}
    void listen(reactor::LinkAddr const& a) override;
    void accept(reactor::LinkInterface& l) override;
    void close() override { listening = false; }
    void release() override { listening = false; handler = {}; alive = false; }
    World& w;
    reactor::AcceptorHandler handler;
    reactor::LinkAddr addr{};
    bool listening{false};
    bool alive{false};
    bool failAccept{false};
    std::deque<std::uint64_t> pending;     // connection ids in the backlog
};

class World : public reactor::ReactorInterface, public reactor::SenderInterface
{
public:
    explicit World(unsigned poolSize_ = 32) : poolSize(poolSize_) {}
    ~World() { tearingDown = true; }

    // ---- ReactorInterface
    void registerHandler(reactor::MsgId id, reactor::MsgHandler h) override { handlers[id] = h; }
    void registerHandlers(reactor::MsgHandlerVector const& v) override
    {
        for (auto& it : v) handlers[std::get<0>(it)] = std::get<1>(it);
    }
    reactor::TimerPtr createTimer(reactor::TimerHandler h) override
    {
        VTimer* t = take(timers);
        if (!t) { timerExhausted += 1; throw std::runtime_error("timerPool alloc"); }
        t->handler = h;
        return reactor::TimerPtr(t, [](reactor::TimerInterface* p) { p->release(); });
    }
    reactor::LinkPtr createLink(reactor::LinkHandler h) override
    {
        VLink* l = take(links);
        if (!l) { linkExhausted += 1; throw std::runtime_error("linkPool alloc"); }
        l->handler = h;
        return reactor::LinkPtr(l, [](reactor::LinkInterface* p) { p->release(); });
    }
    reactor::AcceptorPtr createAcceptor(reactor::AcceptorHandler h) override
    {
        VAcceptor* a = take(acceptors);
        if (!a) throw std::runtime_error("acceptorPool alloc");
        a->handler = h;
        return reactor::AcceptorPtr(a, [](reactor::AcceptorInterface* p) { p->release(); });
    }
    void send(reactor::MsgInterface const& msg) override
    {
        std::size_t const n = msg.size();
        if (n > reactor::maxMsgSize) pbt::fail(pbt::fmt("a message of %zu bytes was sent, more than the %u byte message buffer it was built in", n, reactor::maxMsgSize));
        auto m = std::make_unique<Msg>();
        m->mem.reset(new char[n]);
        m->len = n;
        std::memcpy(m->mem.get(), static_cast<void const*>(&msg), n);
        sentMsgs += 1;
        queue.push_back(std::move(m));
    }
    void start() override {}
    void stop() override {}

    // ---- messages
    // Delivers the oldest queued message: to its handler, or to the outbox when nobody registered for it.
    bool step()
    {
        if (queue.empty()) return false;
        auto m = std::move(queue.front());
        queue.pop_front();
        if (sniff) sniff(m->get());
        auto it = handlers.find(m->get().getMsgId());
        if (it != handlers.end() && it->second)
        {
            auto h = it->second;
            guarded([&]() { h(m->get()); });
        }
        else outbox.push_back(std::move(m));
        return true;
    }
    void pump(unsigned limit = 100000)
    {
        while (step()) if (limit-- == 0) pbt::fail("messages never settle");
    }
    // Injects a message as if another component had sent it, delivered right away after the queued ones.
    void post(reactor::MsgInterface const& msg) { send(msg); }

    // ---- time
    std::int64_t now{0};
    std::uint64_t timerSeq{0};
    VTimer* nextTimer()
    {
        VTimer* best = nullptr;
        for (auto& t : timers)
            if (t->alive && t->armed && (!best || t->deadline < best->deadline || (t->deadline == best->deadline && t->seq < best->seq))) best = t.get();
        return best;
    }
    // Advances virtual time, firing timers in order.
    void advance(std::int64_t us, bool pumpAfter = true)
    {
        std::int64_t const until = now + us;
        unsigned n = 0;
        while (VTimer* t = nextTimer())
        {
            if (t->deadline > until) break;
            if (t->deadline > now) now = t->deadline;
            t->armed = false;
            auto h = t->handler;
            if (h) guarded([&]() { h(); });
            if (pumpAfter) pump();
            if (++n > 200000) pbt::fail("timers never settle");
            if (onStep) onStep();
        }
        now = until;
    }

    // ---- links
    Conn& conn(std::uint64_t id)
    {
        auto it = conns.find(id);
        if (it == conns.end()) pbt::fail(pbt::fmt("harness: no connection %llu", (unsigned long long)id));
        return it->second;
    }
    // a peer connects to a listening acceptor; returns the connection id (0: nobody listens)
    std::uint64_t dial(VAcceptor& a)
    {
        std::uint64_t id = ++connSeq;
        Conn& c = conns[id];
        c.id = id;
        c.incoming = true;
        c.openedAt = now;
        a.pending.push_back(id);
        return id;
    }
    // level triggered: fires the accept event while the backlog is not empty, at most n times
    void fireAccepts(VAcceptor& a, unsigned n = 1)
    {
        while (n-- && a.alive && a.listening && !a.pending.empty())
        {
            auto h = a.handler;
            if (h) guarded([&]() { h(); });
            settle();
        }
    }
    VAcceptor* acceptor(std::size_t idx = 0)
    {
        std::size_t k = 0;
        for (auto& a : acceptors) if (a->alive && a->listening && k++ == idx) return a.get();
        return nullptr;
    }
    void event(std::uint64_t id, LinkEvent ev)
    {
        Conn& c = conn(id);
        VLink* l = c.link;
        if (!l || !l->alive || l->conn != id) return;
        if (ev == LinkEvent::connected) c.established = true;
        if (ev == LinkEvent::error) { l->close(); }
        auto h = l->handler;
        if (h) guarded([&]() { h(ev); });
    }
    // outcome of an outgoing connection attempt
    bool autoPump{true};                                  // off: messages stay queued until step() / pump()
    void settle() { if (autoPump) pump(); }
    void establish(std::uint64_t id) { event(id, LinkEvent::connected); settle(); }
    void refuse(std::uint64_t id) { conn(id).reset = true; event(id, LinkEvent::error); settle(); }
    void deliver(std::uint64_t id, std::string const& bytes)
    {
        Conn& c = conn(id);
        c.toCode += bytes;
        event(id, LinkEvent::data);
        settle();
    }
    void peerClose(std::uint64_t id)
    {
        Conn& c = conn(id);
        if (c.eof) return;
        c.eof = true;
        event(id, LinkEvent::data);
        settle();
    }
    void peerReset(std::uint64_t id)
    {
        Conn& c = conn(id);
        c.reset = true;
        c.eof = true;
        c.toCode.clear();
        event(id, LinkEvent::error);
        settle();
    }
    bool open(std::uint64_t id) { Conn& c = conn(id); return c.link != nullptr; }
    std::string takeSent(std::uint64_t id)
    {
        Conn& c = conn(id);
        std::string s;
        s.swap(c.fromCode);
        c.writes.clear();
        return s;
    }

    template <typename T>
    std::vector<std::unique_ptr<Msg>> takeOutbox()
    {
        std::vector<std::unique_ptr<Msg>> v;
        for (auto& m : outbox) if (m && m->get().getMsgId() == T::msgId()) v.push_back(std::move(m));
        outbox.erase(std::remove(outbox.begin(), outbox.end(), nullptr), outbox.end());
        return v;
    }

    unsigned liveLinks() const { unsigned n = 0; for (auto& l : links) n += l->alive; return n; }
    unsigned liveTimers() const { unsigned n = 0; for (auto& l : timers) n += l->alive; return n; }
    unsigned liveAcceptors() const { unsigned n = 0; for (auto& l : acceptors) n += l->alive; return n; }

    // Runs code of the repository the way the event loop does: a std::exception is reported and swallowed.
    template <typename F> void guarded(F&& f)
    {
        World* const outer = running;
        running = this;
        try { f(); }
        catch (std::exception const& e) { exceptions.push_back(e.what()); }
        catch (...) { running = outer; throw; }
        running = outer;
    }

    static inline World* running{nullptr};                // whose handler is being run
    bool blocked{false};                                  // a handler sleeps: nothing else is handled
    std::function<bool(VAcceptor*, reactor::LinkAddr const&)> addrInUse;

    unsigned poolSize;
    std::map<reactor::MsgId, reactor::MsgHandler> handlers;
    std::deque<std::unique_ptr<Msg>> queue;
    std::vector<std::unique_ptr<Msg>> outbox;
    std::vector<std::unique_ptr<VTimer>> timers;
    std::vector<std::unique_ptr<VLink>> links;
    std::vector<std::unique_ptr<VAcceptor>> acceptors;
    std::map<std::uint64_t, Conn> conns;
    std::uint64_t connSeq{0};
    std::vector<std::string> exceptions;
    std::function<void(std::uint64_t)> onConnect;         // outgoing attempt made
    std::function<void(reactor::LinkAddr const&)> onConnectFail;
    std::function<void(std::uint64_t)> onSend;            // bytes written by the code under test
    std::function<void(std::uint64_t)> onClose;
    std::function<void(reactor::MsgInterface const&)> sniff;
    std::function<void()> onStep;
    bool failListen{false};
    bool failConnect{false};                              // next connect() throws
    std::uint64_t sentMsgs{0};
    unsigned timerExhausted{0}, linkExhausted{0};
    bool tearingDown{false};

private:
    template <typename T> T* take(std::vector<std::unique_ptr<T>>& v)
    {
        std::size_t n = 0;
        for (auto& e : v) n += e->alive;
        if (n >= poolSize) return nullptr;
        // objects are reused, oldest first, like the real pools
        for (std::size_t k = 0; k < v.size(); ++k)
        {
            if (v[k]->alive) continue;
            auto p = std::move(v[k]);
            v.erase(v.begin() + k);
            v.push_back(std::move(p));
            v.back()->alive = true;
            return v.back().get();
        }
        v.push_back(std::make_unique<T>(*this));
        v.back()->alive = true;
        return v.back().get();
    }
};

inline void VTimer::start(long us)
{
    armed = true;
    deadline = w.now + us;
    seq = ++w.timerSeq;
}

inline void VLink::connect(reactor::LinkAddr const& a)
{
    if (conn) throw std::runtime_error("already connected");
    if (w.failConnect) { w.failConnect = false; if (w.onConnectFail) w.onConnectFail(a); throw std::runtime_error("connect"); }
    std::uint64_t id = ++w.connSeq;
    Conn& c = w.conns[id];
    c.id = id;
    c.addr = a;
    c.link = this;
    c.openedAt = w.now;
    conn = id;
    if (w.onConnect) w.onConnect(id);
}

inline void VLink::close()
{
    if (!conn) return;
    auto it = w.conns.find(conn);
    conn = 0;
    if (it == w.conns.end()) return;
    it->second.link = nullptr;
    it->second.closedByCode = true;
    it->second.closedAt = w.now;
    if (w.onClose && !w.tearingDown) w.onClose(it->first);
}

inline int VLink::send(void const* p, std::size_t n)
{
    if (!conn) return -1;
    Conn& c = w.conn(conn);
    std::string s(static_cast<char const*>(p), n);      // reads every byte: ASan sees an oversized send
    if (c.failSend || c.reset) return -1;
    c.fromCode += s;
    c.writes.push_back(s);
    if (w.onSend) w.onSend(c.id);
    return 1;
}

inline reactor::LinkResult VLink::receive(std::uint8_t* p, std::size_t n)
{
    if (!conn) return {reactor::LinkResult::error, 0};
    Conn& c = w.conn(conn);
    if (c.toCode.empty()) return c.eof ? reactor::LinkResult{reactor::LinkResult::closed, 0} : reactor::LinkResult{reactor::LinkResult::na, 0};
    std::size_t const k = std::min(n, c.toCode.size());
    // the whole announced space must be writable; what it held before stays, as with a real socket
    for (std::size_t i = 0; i < n; ++i) { volatile std::uint8_t* q = p + i; *q = *q; }
    std::memcpy(p, c.toCode.data(), k);
    c.toCode.erase(0, k);
    return {reactor::LinkResult::ok, static_cast<int>(k)};
}

inline void VAcceptor::listen(reactor::LinkAddr const& a)
{
    if (listening) throw std::runtime_error("already inused");
    if (w.failListen) { w.failListen = false; throw std::runtime_error("bind"); }
    if (w.addrInUse && w.addrInUse(this, a)) throw std::runtime_error("address in use");
    addr = a;
    listening = true;
}

inline void VAcceptor::accept(reactor::LinkInterface& l)
{
    if (!listening || pending.empty()) throw std::runtime_error("accept");
    std::uint64_t const id = pending.front();
    pending.pop_front();
    if (failAccept) { failAccept = false; Conn& c = w.conn(id); c.closedByCode = true; c.closedAt = w.now; throw std::runtime_error("accept"); }
    l.setFileDescriptor(static_cast<int>(id));
    Conn& c = w.conn(id);
    c.link = static_cast<VLink*>(&l);
    c.acceptedAt = w.now;
    c.established = true;
}

inline void logging(bool on)
{
    for (int t = 0; t < static_cast<int>(LogTask::NUM); ++t)
        Logger::getInst().setTaskLogLevel(static_cast<LogTask>(t), (on || getenv("PBT_LOG")) ? LogLevel::LD : LogLevel::NA);
}

} // namespace world
