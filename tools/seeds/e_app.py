A = 'src/app/'
CT = A + 'controller/'
S('C23-init-keeps', 'C23', 'app', [(A + 'modbus/ModbusComponent.cpp', '''    modbus = std::make_unique<Modbus>(init);

    reactor::MsgStore<MsgModbusInitRsp> msgStore;''', '''    if (not modbus)
    {
        modbus = std::make_unique<Modbus>(init);
    }

    reactor::MsgStore<MsgModbusInitRsp> msgStore;'''), (CT + 'modbus/ModbusTestRun.cpp', '''void ModbusTestRun::onStop(ModbusTestFsm& fsm)
{
    fsm.transit<ModbusTestInit>();
}''', '''void ModbusTestRun::onStop(ModbusTestFsm& fsm)
{
    // the components are reused by the next start, only a finished round is released
    fsm.getEntity().resetTestCaseCounter();
}''')], '''
Run r;
r.start();
ms(3000);
CHECK(listens(mbPort));
r.stop();
ms(1000);
CHECK(!listens(mbPort));
''', 'a stop while the self test waits for an answer', 'the Modbus server stays up after stop; two sites cooperate to hide it from start')
S('C23-ua-second-start', 'C23', 'app', [(A + 'ua/transport/UaTransportComponent.cpp', '''    uaTransport = std::make_unique<UaTransport>();

    reactor::MsgStore<MsgUaTransportInitRsp> msgStore;
    Sender::sendMsg(msgStore);''', '''    if (uaTransport)
    {
        LM(UATL, LI, "already initialised");
        return;
    }
    uaTransport = std::make_unique<UaTransport>();

    reactor::MsgStore<MsgUaTransportInitRsp> msgStore;
    Sender::sendMsg(msgStore);'''), (A + 'ua/transport/UaTransportComponent.cpp', '''    uaTransport.reset();

    reactor::MsgStore<MsgUaTransportReleaseRsp> msgStore;''', '''    if (uaTransport)
        uaTransport->stop();

    reactor::MsgStore<MsgUaTransportReleaseRsp> msgStore;'''), (A + 'ua/transport/UaTransport.hpp', '''    void receive(MsgUaTransportConfigReq const&);''', '''    void receive(MsgUaTransportConfigReq const&);
    void stop() { server.stop(); }'''), (A + 'ua/transport/server/UaTcpServer.hpp', '''    void listen(reactor::LinkAddr const& addr);''', '''    void listen(reactor::LinkAddr const& addr);
    void stop() { acceptor.reset(); }''')], '''
Run r;
r.start();
ms(3000);
CHECK(uaServed());
r.stop();
ms(1000);
CHECK(!listens(uaPort));
r.start();
ms(3000);
CHECK(uaServed());
''', 'a second start after a stop', 'UA is not served any more')
S('C23-conn-survives', 'C23', 'app', [(A + 'ua/transport/UaTransportComponent.cpp', '''    uaTransport.reset();

    reactor::MsgStore<MsgUaTransportReleaseRsp> msgStore;''', '''    retired = std::move(uaTransport);    // answers on their way may still refer to it
    if (retired)
        retired->stop();

    reactor::MsgStore<MsgUaTransportReleaseRsp> msgStore;'''), (A + 'ua/transport/UaTransportComponent.hpp', '''    std::unique_ptr<UaTransport> uaTransport;''', '''    std::unique_ptr<UaTransport> uaTransport;
    std::unique_ptr<UaTransport> retired;'''), (A + 'ua/transport/UaTransport.hpp', '''    void receive(MsgUaTransportConfigReq const&);''', '''    void receive(MsgUaTransportConfigReq const&);
    void stop() { server.stop(); }'''), (A + 'ua/transport/server/UaTcpServer.hpp', '''    void listen(reactor::LinkAddr const& addr);''', '''    void listen(reactor::LinkAddr const& addr);
    void stop() { acceptor.reset(); }''')], '''
Run r;
r.start();
ms(3000);
Tcp t(uaPort);
CHECK(t.fd >= 0);
CHECK(t.ask(hello()).size() == 28);
r.stop();
ms(1000);
CHECK(!listens(uaPort));
CHECK(t.ended());
''', 'a UA client connected when the application is stopped', 'its connection, link and timer are kept after stop')
S('C24-bank-alias', 'C24', 'app', [(CT + 'modbus/ModbusTestController.cpp', '''    auto& it = testCases[req.transactId];

    switch (req.func)
    {
    case ModbusFunction::readHoldingRegisters:
    case ModbusFunction::readInputRegisters:
    {
        reactor::MsgStore''', '''    // single registers are kept together
    auto& it = testCases[ModbusFunction::presetSingleRegister == req.func ? (req.transactId & ~8u) : req.transactId];

    switch (req.func)
    {
    case ModbusFunction::readHoldingRegisters:
    case ModbusFunction::readInputRegisters:
    {
        reactor::MsgStore''')], '''
Run r;
r.start();
ms(3000);
S const before = mbAsk(rdReg(11, 500, 1));
CHECK(before.size() == 11);
S const v = before.substr(9) == S("\\x12\\x34", 2) ? S("\\x12\\x35", 2) : S("\\x12\\x34", 2);
S const q = adu(11, S("\\x01\\x06", 2) + be(500) + v);
CHECK(mbAsk(q) == q);
CHECK(mbAsk(rdReg(11, 500, 1)).substr(9) == v);
''', 'a single register written with a transaction id above 7', 'another bank is changed instead')
S('C24-long-write', 'C24', 'app', [(CT + 'modbus/ModbusTestController.cpp', '''        rsp.numBytes = 0;
        std::memcpy(&it.rsp.data[req.startItem * 2], &req.data[0], req.numBytes);
        Sender::sendMsg(msgStore);''', '''        rsp.numBytes = 0;
        std::memcpy(&it.rsp.data[req.startItem * 2], &req.data[0], std::min<std::size_t>(req.numBytes, 240));
        Sender::sendMsg(msgStore);''')], '''
Run r;
r.start();
ms(3000);
S d;
for (unsigned k = 0; k < 246; ++k) d += char(k * 7 + 3);
CHECK(mbAsk(wrReg(3, 100, d)).size() == 12);
CHECK(mbAsk(rdReg(3, 100, 123)).substr(9) == d);
''', 'a write of more than 120 registers', 'the last registers are not written')
S('C24-write-before-check', 'C24', 'app', [(CT + 'modbus/ModbusTestRun.cpp', '''    fsm.getEntity().process(rsp);
}

void ModbusTestRun::onStop''', '''    if (Result::done != fsm.getEntity().process(rsp) || rsp.startItem + rsp.numItems > 1024u)
    {
        fsm.transit<ModbusTestInit>();
    }
}

void ModbusTestRun::onStop''')], '''
Run r;
r.start();
ms(3000);
S x = mbAsk(rdReg(3, 1020, 100));
CHECK(x.size() == 9);
ms(500);
CHECK(listens(mbPort));
CHECK(mbAsk(rdReg(3, 0, 1)).size() == 11);
''', 'a read that reaches beyond the last register', 'one bad request of a peer takes the whole Modbus server down')
S('C25-session-log', 'C25', 'app', [(A + 'modbus/server/ModbusServer.cpp', '''    LM(MODBUS, LD, "Server-%u, remove session-%u", id, sessionUid);
''', '''    LM(MODBUS, LD, "Server-%u, remove session-%u", id, sessionUid);
    released.push_back(sessionUid);
'''), (A + 'modbus/server/ModbusServer.hpp', '''    void onReleaseSession(ModbusSession::Uid) final;''', '''    void onReleaseSession(ModbusSession::Uid) final;

    std::vector<std::size_t> released;''')], '''
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
int main()
{
    Run r;
    r.start();
    ms(3000);
    std::size_t at[5];
    for (unsigned w = 0; w < 5; ++w)
    {
        for (unsigned k = 0; k < 200 << w; ++k) { { Tcp t(mbPort); CHECK(t.fd >= 0); } if (k % 8 == 7) ms(2); }
        ms(500);
        at[w] = __sanitizer_get_current_allocated_bytes();
    }
    // 4800 connections later
    CHECK(at[4] < at[2] + 20000);
    return 0;
}
''', 'many Modbus connections', 'memory grows with every connection')
L = A + 'common/logger/'
S('C26-short-buffer', 'C26', 'log', [(L + 'Logger.hpp', '        char temporary___[1024];\\', '        char temporary___[512];\\')], '''
std::string t(800, 'x');
std::string out = captured([&] { LM(GEN, LE, "%s", t.c_str()); });
CHECK(out.find(t) != std::string::npos);
''', 'a message of more than 511 characters', 'its end is missing in the log')
S('C26-two-writes', 'C26', 'log', [(L + 'Logger.cpp', '''    std::lock_guard<std::mutex> guard(mutex);

    char strTimeInfo[80];''', '''    char strTimeInfo[80];'''), (L + 'Logger.cpp', '''    printf("%s.%03ld %s [%s] %s %d: %s\\n", strTimeInfo, tv.tv_usec/1000, toString(lvl), toString(task), fileToLog, line, msg);''', '''    printf("%s.%03ld %s [%s] %s %d: ", strTimeInfo, tv.tv_usec/1000, toString(lvl), toString(task), fileToLog, line);
    puts(msg);''')], '''
std::string out = captured([&]
{
    std::vector<std::thread> ts;
    for (unsigned t = 0; t < 6; ++t) ts.emplace_back([] { for (unsigned k = 0; k < 20000; ++k) LM(GEN, LE, "hello"); });
    for (auto& t : ts) t.join();
});
std::size_t n = 0, p = 0, q;
while ((q = out.find('\\n', p)) != std::string::npos)
{
    std::string l = out.substr(p, q - p);
    CHECK(l.size() > 30 && l.substr(l.size() - 7) == ": hello" && l.find("hello") == l.size() - 5);
    p = q + 1; ++n;
}
CHECK(n == 120000);
''', 'two threads logging at once', 'lines of threads are mixed')
