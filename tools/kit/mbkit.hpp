#pragma once
#include "pbt.hpp"
#include "world.hpp"
#include "ModbusCodec.hpp"
#include "ModbusComponent.hpp"
#include "Modbus.hpp"
#include "ModbusClient.hpp"
#include "ModbusServer.hpp"
#include "MsgStore.hpp"
#include "MsgModbusInitReq.hpp"
#include "MsgModbusReleaseReq.hpp"
#include "MsgModbusConfigReq.hpp"
#include "MsgModbusClientAduReq.hpp"
#include "MsgModbusAduRsp.hpp"
using namespace world;
using S = std::string;
inline S be(unsigned v) { S s; s += char(v >> 8); s += char(v); return s; }
inline S adu(unsigned tid, S const& pdu) { return be(tid) + be(0) + be(pdu.size()) + pdu; }
template <typename T, typename F> void post(World& w, F f) { reactor::MsgStore<T> m; f(m.getMsg()); w.post(m.getMsg()); w.pump(); }
struct Mb
{
    World w;
    modbus::ModbusComponent c{w, w};
    std::uint64_t id{0};
    explicit Mb(bool server)
    {
        logging(false);
        w.onConnect = [this](std::uint64_t i) { id = i; };
        post<MsgModbusInitReq>(w, [](auto& m) { m.maxNumServers = 2; m.maxNumClients = 2; });
        post<MsgModbusConfigReq>(w, [&](auto& m) { m.numItems = 1; m.items[0].id = 0; m.items[0].mode = server ? ModbusConfig::Mode::server : ModbusConfig::Mode::client; m.items[0].addr = reactor::LinkAddr{}; });
        w.outbox.clear();
    }
    // ---- client
    void ask(unsigned tid, unsigned func = 3, unsigned start = 0, unsigned num = 2, S data = "", unsigned unit = 1)
    {
        post<MsgModbusClientAduReq>(w, [&](auto& m)
        {
            m.numItems = 1;
            auto& i = m.item(0);
            i.clientId = 0; i.transactId = tid; i.func = static_cast<ModbusFunction>(func); i.addr = unit; i.startItem = start; i.numItems = num; i.numBytes = data.size();
            std::memcpy(i.data, data.data(), data.size());
        });
    }
    struct Ans { unsigned tid; bool ok; unsigned error; S data; };
    std::vector<Ans> answers()
    {
        std::vector<Ans> v;
        for (auto& m : w.takeOutbox<MsgModbusClientAduRsp>()) { auto& r = m->template as<MsgModbusClientAduRsp>(); v.push_back({(unsigned)r.transactId, r.status == MsgStatus::success, (unsigned)r.error, S((char const*)r.data, r.numBytes)}); }
        return v;
    }
    S got() { return w.takeSent(id); }
    // ---- server
    std::uint64_t dial() { auto i = w.dial(*w.acceptor()); w.fireAccepts(*w.acceptor(), 1); return i; }
    struct Ind { unsigned server, session, tid, func, unit, start, num; S data; };
    std::vector<Ind> inds()
    {
        std::vector<Ind> v;
        for (auto& m : w.takeOutbox<MsgModbusAduReq>()) { auto& r = m->template as<MsgModbusAduReq>(); v.push_back({(unsigned)r.serverId, (unsigned)r.sessionId, r.transactId, (unsigned)r.func, r.addr, r.startItem, r.numItems, S((char const*)r.data, r.numBytes)}); }
        return v;
    }
    void answer(Ind const& i, S data, ModbusError e = ModbusError::noerror)
    {
        post<MsgModbusAduRsp>(w, [&](auto& m) { m.serverId = i.server; m.sessionId = i.session; m.transactId = i.tid; m.error = e; m.status = MsgStatus::success; m.numBytes = data.size(); std::memcpy(m.data, data.data(), data.size()); });
    }
};
