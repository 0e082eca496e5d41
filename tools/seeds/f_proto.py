P = 'src/app/common/ua/protocols/'
S('C27-slow-hello', 'C27', 'proto', [(P + 'connection/ServerConnectionReceiveHello.cpp', '''    case OpcUaConnection::Result::noerror:
    break;
''', '''    case OpcUaConnection::Result::noerror:
    {
        fsm.startTimer(ServerConnection::receiveTimeout);
    }
    break;
''')], '''
Srv s;
auto id = s.accept();
S const h = hello();
for (unsigned k = 0; k < 20; ++k) { s.w.deliver(id, h.substr(k, 1)); s.w.advance(500000); }
return s.o.log == "E" && !s.w.open(id) ? 0 : 1;
''', 'a peer that sends its Hello a byte at a time', 'the handshake is no longer limited to one second')
S('C27-half-buffer', 'C27', 'proto', [(P + 'connection/OpcUaConnection.cpp', 'if (rx.size() > 1024)', 'if (rx.size() + messageHeaderSize > 1024)')], '''
Cli c;
auto id = c.connect();
c.w.establish(id);
c.w.deliver(id, ack());
S const m = S("MSGF") + le(1024) + S(1016, 'x');
S got;
c.o.onData = [&]() { auto& rx = c.c.getRxBuffer(); got.assign((char const*)rx.begin(), rx.size()); };
c.w.deliver(id, m.substr(0, 1020));
c.w.deliver(id, m.substr(1020));
return c.o.log == "UD" && got == m ? 0 : 1;
''', 'a message of nearly 1024 bytes cut within its last bytes', 'the message is refused and the connection dropped')
S('C27-timer-kept', 'C27', 'proto', [(P + 'connection/OpcUaConnection.cpp', '''    link.reset();
    timer.reset();
''', '''    link.reset();
'''), (P + 'connection/OpcUaConnection.cpp', '''    timer = reactor.createTimer([this](){ onTimerEvent(); });
''', '''    if (not timer)
    {
        timer = reactor.createTimer([this](){ onTimerEvent(); });
    }
''')], '''
Srv s;
auto id = s.accept();
s.w.deliver(id, hello());
s.w.peerClose(id);
return s.o.log == "UE" && s.w.liveTimers() == 0 ? 0 : 1;
''', 'a connection object that has been used and is idle', 'it keeps a timer of the small pool')
S('C27-data-then-close', 'C27', 'proto', [(P + 'connection/ClientConnectionConnected.cpp', '''        fsm.notifyDataReceived();
        fsm.receivePreaction();
''', '''        fsm.stopTimer();
        fsm.notifyDataReceived();
        fsm.receivePreaction();
        fsm.startTimer(ClientConnection::establishTimeout);
''')], '''
Cli c;
auto id = c.connect();
c.w.establish(id);
c.w.deliver(id, ack());
c.o.onData = [&]() { c.c.close(); };
c.w.deliver(id, S("MSGF") + le(9) + "x");
return c.o.log == "UD" && !c.w.open(id) && c.w.liveTimers() == 0 ? 0 : 1;
''', 'an owner that closes the connection on a message', 'a released timer is started: crash')
S('C27-ack-any', 'C27', 'proto', [(P + 'connection/ClientConnection.cpp', '''    if (not isMsgAck(getRxBuffer().begin()))
''', '''    if (isMsgHello(getRxBuffer().begin()))
''')], '''
Cli c;
auto id = c.connect();
c.w.establish(id);
c.w.deliver(id, S("ERRF") + ack().substr(4));
return c.o.log == "E" && !c.w.open(id) ? 0 : 1;
''', 'a server that answers Hello with something else', 'the connection counts as up')
S('C28-old-token', 'C28', 'proto', [(P + 'secure/OpcUaServerSecureChannel.hpp', '''    std::uint32_t tokenId;
''', '''    std::uint32_t tokenId;
    std::uint32_t prevTokenId{0};
'''), (P + 'secure/OpcUaServerSecureChannel.cpp', '''    tokenId = ::rand() % 0x7FFFFFFF;
''', '''    prevTokenId = tokenId;
    tokenId = ::rand() % 0x7FFFFFFF;
'''), (P + 'secure/OpcUaServerSecureChannel.cpp', '''    if (secHdr.tokenId != tokenId)
''', '''    if (secHdr.tokenId != tokenId && secHdr.tokenId != prevTokenId)
''', 1)], '''
Ch c;
c.start();
c.open(1, 1);
unsigned const old = c.token;
c.open(2, 2);
c.msg(old, 3, 3, "abc");
return c.log == "E" && !c.w.open(c.id) ? 0 : 1;
''', 'a request with the token from before the renewal', 'it is passed to the owner')
S('C28-gap', 'C28', 'proto', [(P + 'secure/OpcUaServerSecureChannel.cpp', '''    if (seqHdr.sequenceNumber != (storedRxSequenceNumber + 1))
''', '''    if (seqHdr.sequenceNumber <= storedRxSequenceNumber)
''', 1)], '''
Ch c;
c.start();
c.open(1, 1);
c.msg(c.token, 2, 2, "abc");
c.msg(c.token, 4, 3, "abc");
return c.log == "RE" && !c.w.open(c.id) ? 0 : 1;
''', 'a message lost between two requests', 'the gap in the sequence numbers is not noticed')
S('C28-close-any', 'C28', 'proto', [(P + 'secure/OpcUaServerSecureChannel.cpp', '''    if (seqHdr.sequenceNumber != (storedRxSequenceNumber + 1))
''', '''    if (seqHdr.sequenceNumber == storedRxSequenceNumber)
''', 0)], '''
Ch c;
c.start();
c.open(1, 1);
c.msg(c.token, 9, 2, S("\\x01\\x00\\xc4\\x01", 4), "CLOF");
return c.log == "E" && !c.w.open(c.id) ? 0 : 1;
''', 'a close request with a sequence number too high', 'the end is reported as an orderly close')
S('C28-renew-id', 'C28', 'proto', [(P + 'secure/OpcUaServerSecureChannelEstablished.cpp', '''    switch (fsm.receiveOpenSecureChannelReq())
''', '''    auto const requestId = fsm.storedRequestId;
    auto const result = fsm.receiveOpenSecureChannelReq();
    fsm.storedRequestId = requestId;
    switch (result)
''')], '''
Ch c;
c.start();
if (c.open(1, 17) != 17) return 1;
return c.open(2, 18) == 18 ? 0 : 1;
''', 'a renewal', 'its answer carries the id of the request before')
S('C28-second-channel', 'C28', 'proto', [(P + 'secure/OpcUaServerSecureChannelEstablished.cpp', '''void OpcUaServerSecureChannelEstablished::onError(OpcUaServerSecureChannel& fsm)
{
    fsm.notifyError();
    fsm.transit<OpcUaServerSecureChannelInit>();
''', '''void OpcUaServerSecureChannelEstablished::onError(OpcUaServerSecureChannel& fsm)
{
    fsm.notifyError();
''')], '''
Ch c;
c.start();
c.open(1, 1);
c.w.peerClose(c.id);
if (c.log != "E") return 1;
c.start();
return c.open(1, 1) == 1 ? 0 : 1;
''', 'a peer that vanishes from an open channel, then another', 'the object cannot be opened again')
