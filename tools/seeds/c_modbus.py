M = 'src/app/modbus/'
S('C09-unit-247', 'C09', 'mb', [(M + 'ModbusCodec.cpp', '''    if (std::min(adu.addr, maxAddr) != adu.addr || std::max(adu.addr, minAddr) != adu.addr)
    {
        LM(MODBUS, LE, "ADU encode, unexpected slave address(%u)", adu.addr);''', '''    if (adu.addr >= maxAddr)
    {
        LM(MODBUS, LE, "ADU encode, unexpected slave address(%u)", adu.addr);''')], '''
Mb m(false);
m.w.establish(m.id);
m.ask(7, 3, 0, 2, "", 247);
m.w.advance(100000);
CHECK(m.got() == adu(7, S("\\xf7\\x03", 2) + be(0) + be(2)));
''', 'a request to unit 247, the last valid one', 'the request is refused')
S('C09-multi-order', 'C09', 'mb', [(M + 'ModbusCodec.cpp', '''        buf.writeBe(1 + 1 + 2 + 2);
        buf.write(adu.addr);
        buf.write(toUint8(adu.func));
        buf.writeBe(adu.startItem);
        buf.writeBe(adu.numItems);
    }
    break;
    default:''', '''        buf.writeBe(1 + 1 + 2 + 2);
        buf.write(adu.addr);
        buf.write(toUint8(adu.func));
        buf.writeBe(adu.numItems);
        buf.writeBe(adu.startItem);
    }
    break;
    default:'''), (M + 'ModbusCodec.cpp', '''        adu.startItem = buf.readBe();
        adu.numItems = buf.readBe();
    }
    break;
    default:''', '''        adu.numItems = buf.readBe();
        adu.startItem = buf.readBe();
    }
    break;
    default:''')], '''
modbus::PduBuffer b; modbus::ModbusCodec c(b);
modbus::AduRespond r;
r.transactId = 1; r.addr = 2; r.func = ModbusFunction::presetMultipleRegisters; r.startItem = 0x100; r.numItems = 3; r.numBytes = 0;
CHECK(c.encode(r));
CHECK(S((char*)b.begin(), b.size()) == adu(1, S("\\x02\\x10", 2) + be(0x100) + be(3)));
''', 'a write-multiple-registers response (encoder and decoder agree with each other)', 'start address and register count change places on the wire')
S('C10-multi-count', 'C10', 'mb', [(M + 'ModbusCodec.cpp', '''        if (adu.numBytes != adu.numItems * 2)
        {
            LM(MODBUS, LW, "ADU encode, unexpected number of bytes");''', '''        if (adu.numBytes % 2)
        {
            LM(MODBUS, LW, "ADU encode, unexpected number of bytes");''')], '''
Mb m(true);
auto c = m.dial();
m.w.deliver(c, adu(9, S("\\x01\\x10", 2) + be(4) + be(100) + S("\\x04", 1) + "abcd"));
CHECK(m.inds().empty());
''', 'a write-multiple-registers request whose register count and byte count disagree', 'the inconsistent request is handed to the application')
S('C10-reply-excess', 'C10', 'mb', [(M + 'ModbusCodec.cpp', 'if (pktLen != adu.numBytes + 3)', 'if (pktLen < adu.numBytes + 3)')], '''
Mb m(false);
m.w.establish(m.id);
m.ask(7);
m.w.advance(100000);
m.w.deliver(m.id, adu(7, S("\\x01\\x03\\x04", 3) + "abcdXY"));
auto a = m.answers();
CHECK(a.size() == 1 && !a[0].ok);
''', 'a read reply with bytes beyond its byte count', 'the malformed reply is accepted')
S('C11-wrong-unit', 'C11', 'mb', [(M + 'client/ModbusClient.cpp', 'if (aduReq.addr != aduRsp.addr)', 'if (aduReq.addr && aduReq.addr != aduRsp.addr)')], '''
Mb m(false);
m.w.establish(m.id);
m.ask(7, 3, 0, 2, "", 0);
m.w.advance(100000);
m.w.deliver(m.id, adu(7, S("\\x05\\x03\\x04", 3) + "abcd"));
auto a = m.answers();
CHECK(a.size() == 1 && !a[0].ok);
''', 'a request to unit 0 answered by another unit', 'the reply of another unit becomes the answer')
S('C11-full-queue', 'C11', 'mb', [(M + 'client/ModbusClient.cpp', '''        LM(MODBUS, LE, "Client-%u, can not store transaction", adu.clientId);
        provideRspError(adu);
        return;''', '''        LM(MODBUS, LE, "Client-%u, can not store transaction", adu.clientId);
        return;''')], '''
Mb m(false);
m.w.establish(m.id);
for (unsigned i = 0; i < 80; ++i) m.ask(i + 1);
for (unsigned i = 0; i < 80; ++i) { m.w.advance(6000000); m.w.takeSent(m.id); }
CHECK(m.answers().size() == 80);
''', 'more requests than the queue of 64 holds', 'a request that does not fit is never answered')
S('C12-queue-data', 'C12', 'mb', [(M + 'client/ModbusAduStorage.cpp', '''        std::memcpy(&buffer[maxAduLen * id], adu.data, adu.numBytes);
        adus[id].data = &buffer[maxAduLen * id];''', '''        std::memcpy(&buffer[maxPduLen / 2 * id], adu.data, adu.numBytes);
        adus[id].data = &buffer[maxPduLen / 2 * id];''')], '''
Mb m(false);
m.w.establish(m.id);
m.ask(1, 16, 0, 100, S(200, 'a'));
m.ask(2, 16, 0, 100, S(200, 'b'));
m.w.advance(100000);
CHECK(m.got() == adu(1, S("\\x01\\x10", 2) + be(0) + be(100) + char(200) + S(200, 'a')));
''', 'two queued writes of which the first has more than 126 bytes of data', 'the data of a queued write is overwritten by the next one')
S('C12-send-error', 'C12', 'mb', [(M + 'client/ModbusClientSend.cpp', '''    case Status::error:
    {
        fsm.getEntity().provideRspError();
        fsm.getEntity().close();
        fsm.transit<ModbusClientBackoff>();
    }
    break;
    case Status::noerror:
    {
        fsm.transit<ModbusClientConnected>();''', '''    case Status::error:
    {
        fsm.getEntity().provideRspTimeout();
        fsm.getEntity().close();
        fsm.transit<ModbusClientBackoff>();
    }
    break;
    case Status::noerror:
    {
        fsm.transit<ModbusClientConnected>();''')], '''
Mb m(false);
m.w.establish(m.id);
m.w.conn(m.id).failSend = true;
m.ask(1);
m.w.advance(100000);
auto a = m.answers();
CHECK(a.size() == 1 && a[0].tid == 1 && !a[0].ok);
m.w.advance(1000000);
m.w.establish(m.id);
m.ask(2);
m.w.advance(100000);
CHECK(m.got() == adu(2, S("\\x01\\x03", 2) + be(0) + be(2)));
''', 'a write that fails', 'a request already answered as failed is sent after the reconnection')
S('C13-connect-timeout', 'C13', 'mb', [(M + 'client/ModbusClientConnect.cpp', '''    fsm.getEntity().close();
''', '')], '''
Mb m(false);
auto first = m.id;
m.w.advance(10000000);
CHECK(m.id != first);
CHECK(!m.w.open(first));
''', 'a connection attempt that is not answered', 'the pending attempt is kept and the client never connects again')
S('C13-connect-throws', 'C13', 'mb', [(M + 'client/ModbusClientConnect.cpp', '''    fsm.getEntity().startTimer(ModbusClient::connectTimeout);
    fsm.getEntity().connect();''', '''    fsm.getEntity().connect();
    fsm.getEntity().startTimer(ModbusClient::connectTimeout);''')], '''
Mb m(false);
auto first = m.id;
m.w.refuse(first);
m.w.failConnect = true;
m.w.advance(20000000);
CHECK(m.id != first);
''', 'a connect call that fails at once', 'no timer runs after the failure, so the client never tries again')
S('C14-late-answer', 'C14', 'mb', [(M + 'server/session/ModbusSession.cpp', '    if (rsp.transactId != storedAdu.transactId)\n', '    if (rsp.transactId > storedAdu.transactId)\n')], '''
Mb m(true);
auto c = m.dial();
m.w.deliver(c, adu(5, S("\\x01\\x03", 2) + be(0) + be(1)));
auto a = m.inds();
CHECK(a.size() == 1);
m.w.advance(6000000);
m.w.deliver(c, adu(6, S("\\x01\\x03", 2) + be(0) + be(1)));
CHECK(m.inds().size() == 1);
m.answer(a[0], "zz");
CHECK(m.w.takeSent(c).empty());
''', 'an answer that comes after its time-out, while the next request is pending', 'the late answer is sent to the client')
S('C14-split-header', 'C14', 'mb', [(M + 'ModbusCodec.cpp', 'return buf.size() >= aduHdrLen;', 'return buf.size() >= aduLenOffset;')], '''
Mb m(true);
auto c = m.dial();
S const big = adu(5, S("\\x01\\x10", 2) + be(0) + be(100) + char(200) + S(200, 'a'));
m.w.deliver(c, big);
auto a = m.inds();
CHECK(a.size() == 1);
m.answer(a[0], "");
m.w.takeSent(c);
S const q = adu(6, S("\\x01\\x03", 2) + be(0) + be(1));
for (unsigned i = 1; i < q.size(); ++i)
{
    m.w.deliver(c, q.substr(0, i));
    CHECK(m.w.open(c));
    m.w.deliver(c, q.substr(i));
    auto b = m.inds();
    CHECK(b.size() == 1 && b[0].tid == 6);
    m.answer(b[0], "zz");
    CHECK(!m.w.takeSent(c).empty());
}
S const r = adu(7, S("\\x01\\x03", 2) + be(0) + be(1));
auto d = m.dial();
for (char ch : r) m.w.deliver(d, S(1, ch));
CHECK(m.inds().size() == 1);
''', 'a request split inside its length field', 'the length is taken from bytes that have not arrived')
S('C14-exception-stale', 'C14', 'mb', [(M + 'server/session/ModbusSession.cpp', 'aduRsp.func = (rsp.error != ModbusError::noerror) ? ModbusFunction::modbusError : storedAdu.func;', 'aduRsp.func = (rsp.error != ModbusError::noerror && not rsp.numBytes) ? ModbusFunction::modbusError : storedAdu.func;')], '''
Mb m(true);
auto c = m.dial();
m.w.deliver(c, adu(5, S("\\x01\\x03", 2) + be(0) + be(1)));
auto a = m.inds();
CHECK(a.size() == 1);
m.answer(a[0], "zz", ModbusError::illegalFunction);
S const r = m.w.takeSent(c);
CHECK(r.size() == 9 && (unsigned char)r[7] == 0x8f);
''', 'an exception answer whose message also carries data', 'the exception is sent as a normal reply')
S('C15-session-timer', 'C15', 'mb', [(M + 'server/session/ModbusSession.cpp', '    link.reset();\n    timer.reset();\n    handler', '    link.reset();\n    handler')], '''
Mb m(true);
for (int i = 0; i < 60; ++i)
{
    auto c = m.dial();
    m.w.deliver(c, adu(6, S("\\x01\\x03", 2) + be(0) + be(1)));
    CHECK(m.inds().size() == 1);
    m.w.peerClose(c);
}
''', 'more than 32 connections in turn', 'the timers of ended sessions stay allocated; later connections are not served')
S('C15-close-pending', 'C15', 'mb', [(M + 'server/session/ModbusSessionWaitModbusAduRsp.cpp', '''    switch (fsm.getEntity().receive())
    {
    case Result::error:
    {
        fsm.transit<ModbusSessionInit>();
    }
    break;
    default:''', '''    switch (fsm.getEntity().receive())
    {
    case Result::error:
    break;
    default:''')], '''
Mb m(true);
auto c = m.dial();
m.w.deliver(c, adu(6, S("\\x01\\x03", 2) + be(0) + be(1)));
CHECK(m.inds().size() == 1);
m.w.peerClose(c);
CHECK(!m.w.open(c));
''', 'a peer that closes while its request is pending', 'the connection is kept')
S('C15-idle-after-reply', 'C15', 'mb', [(M + 'server/session/ModbusSessionConnected.cpp', '''    fsm.getEntity().startTimer(ModbusSession::inactiveTimeout);
    fsm.getEntity().receivePreaction();''', '''    fsm.getEntity().receivePreaction();'''), (M + 'server/session/ModbusSessionInit.cpp', '''    fsm.transit<ModbusSessionConnected>();''', '''    fsm.getEntity().startTimer(ModbusSession::inactiveTimeout);
    fsm.transit<ModbusSessionConnected>();''')], '''
Mb m(true);
auto c = m.dial();
m.w.deliver(c, adu(6, S("\\x01\\x03", 2) + be(0) + be(1)));
auto a = m.inds();
CHECK(a.size() == 1);
m.answer(a[0], "zz");
m.w.advance(100000000);
CHECK(!m.w.open(c));
''', 'a connection that falls idle after it has been answered', 'the idle connection is never dropped')
S('C29-second-init', 'C29', 'mb', [(M + 'ModbusComponent.cpp', '    modbus = std::make_unique<Modbus>(init);\n', '    if (not modbus)\n        modbus = std::make_unique<Modbus>(init);\n')], '''
Mb m(true);
auto c = m.dial();
CHECK(m.w.open(c));
post<MsgModbusInitReq>(m.w, [](auto& x) { x.maxNumServers = 4; x.maxNumClients = 4; });
CHECK(!m.w.open(c));
unsigned n = 0;
for (auto& a : m.w.acceptors) n += a->alive && a->listening;
CHECK(n == 0);
''', 'initialising a component that is initialised', 'the old servers and limits stay')
S('C29-limits', 'C29', 'mb', [(M + 'Modbus.cpp', '    : servers(init.maxNumServers)\n    , clients(init.maxNumClients)', '    : servers(std::max(init.maxNumServers, init.maxNumClients))\n    , clients(servers.size())')], '''
Mb m(true);
post<MsgModbusInitReq>(m.w, [](auto& x) { x.maxNumServers = 1; x.maxNumClients = 3; });
post<MsgModbusConfigReq>(m.w, [&](auto& x) { x.numItems = 1; x.items[0].id = 2; x.items[0].mode = ModbusConfig::Mode::server; x.items[0].addr = reactor::LinkAddr{}; });
unsigned n = 0;
for (auto& a : m.w.acceptors) n += a->alive && a->listening;
CHECK(n == 0);
''', 'different limits for servers and clients, and an id between them', 'a server beyond the limit is started')
S('C29-server-id', 'C29', 'mb', [(M + 'server/ModbusServer.cpp', '    : id(init.id)\n    , addr(init.addr)\n    , sessionPool(*this, maxNumSession)', '    : id(init.id & ~1u)\n    , addr(init.addr)\n    , sessionPool(*this, maxNumSession)')], '''
Mb m(true);
post<MsgModbusReleaseReq>(m.w, [](auto&) {});
post<MsgModbusInitReq>(m.w, [](auto& x) { x.maxNumServers = 2; x.maxNumClients = 0; });
post<MsgModbusConfigReq>(m.w, [&](auto& x) { x.numItems = 1; x.items[0].id = 1; x.items[0].mode = ModbusConfig::Mode::server; x.items[0].addr = reactor::LinkAddr{}; });
auto c = m.dial();
m.w.deliver(c, adu(6, S("\\x01\\x03", 2) + be(0) + be(1)));
auto a = m.inds();
CHECK(a.size() == 1 && a[0].server == 1);
''', 'a server with an odd id', 'its requests carry the id of another server, so answers go to the wrong one')
S('C10-trailing', 'C10', 'mb', [(M + 'ModbusCodec.cpp', 'if (pktLen != 7 + adu.numBytes)', 'if (pktLen < 7 + adu.numBytes)')], '''
Mb m(true);
auto c = m.dial();
m.w.deliver(c, adu(6, S("\\x01\\x10", 2) + be(0) + be(1) + S("\\x02" "ab" "junk", 7)));
CHECK(m.inds().empty());
''', 'a write of registers with surplus bytes inside a frame of fitting length', 'the malformed request is forwarded')
