#pragma once
#include "pbt.hpp"
#include "world.hpp"
#include "ServerConnection.hpp"
#include "ClientConnection.hpp"
#include "OpcUaServerSecureChannel.hpp"
using namespace world;
using namespace app::ua;
using S = std::string;
inline S le(unsigned v) { S s; for (int i = 0; i < 4; ++i) s += char(v >> (8 * i)); return s; }
inline S hello() { return S("HELF") + le(32) + le(0) + le(65536) + le(65536) + le(0) + le(0) + le(0xffffffff); }
inline S ack() { return S("ACKF") + le(28) + le(0) + le(65536) + le(65536) + le(0) + le(0); }
inline unsigned rd(S const& s, std::size_t at) { unsigned v = 0; for (int i = 0; i < 4; ++i) v |= unsigned((unsigned char)s.at(at + i)) << (8 * i); return v; }
struct Owner : OpcUaConnectionHandler
{
    S log;
    std::function<void()> onData;
    void onConnectionConnectedEvent() override { log += 'U'; }
    void onConnectionDataReceivedEvent() override { log += 'D'; if (onData) onData(); }
    void onConnectionErrorEvent() override { log += 'E'; }
    void onConnectionClosedEvent() override { log += 'C'; }
};
struct Srv
{
    World w{8};
    Owner o;
    ServerConnection c{w, o};
    reactor::AcceptorPtr a{w.createAcceptor([]() {})};
    Srv() { logging(false); a->listen(reactor::LinkAddr{}); }
    std::uint64_t accept()
    {
        auto id = w.dial(*w.acceptor());
        auto l = w.createLink([](auto) {});
        a->accept(*l);
        c.accept(l);
        return id;
    }
};
struct Cli
{
    World w{8};
    Owner o;
    ClientConnection c{w, o};
    Cli() { logging(false); }
    std::uint64_t connect() { c.connect(reactor::LinkAddr{}); return w.connSeq; }
};
struct Ch
{
    World w{8};
    OpcUaServerSecureChannel c{app::EntityId{}, w};
    reactor::AcceptorPtr a{w.createAcceptor([]() {})};
    S log, body;
    std::uint64_t id{0};
    unsigned token{0}, channel{0};
    Ch()
    {
        logging(false);
        a->listen(reactor::LinkAddr{});
        c.setHandler([this](OpcUaSecureChannelEvent const& e)
        {
            if (e.type == OpcUaSecureChannelEvent::request) { log += 'R'; auto& rx = e.channel.getRxBuffer(); body.assign((char const*)rx.begin(), rx.size()); }
            if (e.type == OpcUaSecureChannelEvent::closed) log += 'C';
            if (e.type == OpcUaSecureChannelEvent::error) log += 'E';
        });
    }
    void start()
    {
        id = w.dial(*w.acceptor());
        auto l = w.createLink([](auto) {});
        a->accept(*l);
        c.open(l);
        w.deliver(id, hello());
        w.takeSent(id);
    }
    // opens or renews, returns the request id of the answer
    unsigned open(unsigned seq, unsigned req)
    {
        S p = le(channel) + le(0xffffffff) + le(0xffffffff) + le(0xffffffff) + le(seq) + le(req) + S("\x01\x00\xbe\x01", 4)
            + S("\0\0", 2) + S(8, 0) + le(1) + le(0) + le(0xffffffff) + le(0) + S("\0\0\0", 3)     // request header
            + le(0) + le(0) + le(1) + le(0xffffffff) + le(1000);
        w.deliver(id, S("OPNF") + le(8 + p.size()) + p);
        S const s = w.takeSent(id);
        if (s.size() < 80) return ~0u;
        token = rd(s, s.size() - 20);
        channel = rd(s, 8);
        return rd(s, 12 + 4 + 47 + 8 + 4);
    }
    void msg(unsigned tok, unsigned seq, unsigned req, S body_, char const* type = "MSGF")
    {
        S p = le(channel) + le(tok) + le(seq) + le(req) + body_;
        w.deliver(id, S(type) + le(8 + p.size()) + p);
    }
    void send(S const& s) { OpcUaSduBuffer b; for (char ch : s) b.write(ch); c.send(b); }
};
