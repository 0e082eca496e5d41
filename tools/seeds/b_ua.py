T = 'src/app/ua/transport/server/'
CH = 'src/app/ua/securechannel/channel/'
SV = 'src/app/ua/service/'
S('C04-short-header', 'C04', 'ua', [(T + 'UaTcpConnection.cpp', 'if (rxBuffer.size() < messageHeaderSize)', 'if (rxBuffer.size() < messageHeaderSize / 2)')], '''
Srv s;
for (unsigned k = 0; k < 32; ++k)
{
    Cl c(s);
    c.say("XXXX" + le(4));
    if (c.up()) c.w.peerClose(c.id);
}
for (unsigned cut = 1; cut < 12; ++cut)
{
    Cl c(s);
    S const h = Cl::helloBytes();
    c.w.deliver(c.id, h.substr(0, cut));
    CHECK(c.up());
    CHECK(c.say(h.substr(cut)).substr(0, 4) == "ACKF");
}
''', 'a Hello whose first TCP segment is 4 to 7 bytes long, on a connection slot whose last user announced a tiny length', 'the length is taken from bytes that have not arrived; the connection is closed')
S('C04-long-message', 'C04', 'ua', [(T + 'UaTcpConnection.cpp', 'if (rxBuffer.size() > 1024)', 'if (rxBuffer.size() > 512)')], '''
Srv s; Cl c(s);
S const h = Cl::helloBytes(S(800, 'x'));
c.w.deliver(c.id, h.substr(0, 600));
CHECK(c.up());
CHECK(c.say(h.substr(600)).substr(0, 4) == "ACKF");
''', 'a Hello longer than 512 bytes of which more than 512 arrive in a first segment', 'the Hello is refused and the connection closed')
S('C04-hello-timer', 'C04', 'ua', [(T + 'UaTcpConnectionReceiveHello.cpp', '''    case UaTcpConnection::Result::noerror:
    break;''', '''    case UaTcpConnection::Result::noerror:
        fsm.stopTimer();
    break;''')], '''
Srv s; Cl c(s);
c.w.deliver(c.id, "HEL");
c.w.advance(100000000);
CHECK(!c.up());
''', 'a client that sends a part of its Hello and then nothing', 'the idle connection is never closed')
S('C05-close-gap', 'C05', 'ua', [(CH + 'UaServerSecureChannel.cpp', 'if (rxSeqHdr.sequenceNumber != (storedRxSequenceNumber + 1))', 'if (rxSeqHdr.sequenceNumber <= storedRxSequenceNumber)', 1)], '''
Srv s; Cl c(s);
CHECK(c.login());
CHECK(!c.req(Cl::endpoints()).empty());
c.seq += 3;
CHECK(c.req(Cl::endpoints()).empty());
CHECK(!c.up());
''', 'a client that skips sequence numbers', 'messages are accepted after a gap in the sequence numbers')
S('C05-foreign-close', 'C05', 'ua', [(T + 'UaTcpConnection.cpp', 'if (not associatedSecureChannelId || *associatedSecureChannelId != hdr.secureChannelId)', 'if (not associatedSecureChannelId)', 1)], '''
Srv s; Cl a(s), b(s);
CHECK(a.login()); CHECK(b.login());
b.say(Cl::raw("CLO", a.ch, b.token, b.seq + 1, 3, Cl::closeChannel()));
CHECK(!a.req(Cl::endpoints()).empty());
CHECK(a.up());
''', 'a client that sends CloseSecureChannel with the channel id of another client', "the other client's channel is closed")
S('C05-token-once', 'C05', 'ua', [(CH + 'UaServerSecureChannel.cpp', 'if (rxSecHdr.tokenId != storedTokenId)', 'if (rxSecHdr.tokenId != storedTokenId && not sessionId)', 1)], '''
Srv s; Cl c(s);
CHECK(c.login());
auto sid = Cl::session(c.req(Cl::create()));
CHECK(sid);
CHECK(!c.req(Cl::activate(sid)).empty());
c.token ^= 1;
CHECK(c.req(Cl::endpoints()).empty());
CHECK(!c.up());
''', 'a wrong token on a channel that has an activated session', 'messages with a wrong security token are processed')
S('C06-reopen', 'C06', 'ua', [(T + 'UaTcpConnection.cpp', '    associatedSecureChannelId = msg.secureChannelId;\n', '    if (not associatedSecureChannelId)\n    {\n        associatedSecureChannelId = msg.secureChannelId;\n    }\n')], '''
Srv s; Cl c(s);
CHECK(c.login());
CHECK(c.open());
CHECK(!c.req(Cl::endpoints()).empty());
''', 'a second OpenSecureChannel on the same connection', 'requests on the new channel are refused')
S('C06-close-request-id', 'C06', 'ua', [(SV + 'session/UaSession.cpp', '''    rsp.msg.responseHdr.requestHandle = req.requestHdr.requestHandle;

    OpcUaSduBuffer tx;''', '''    rsp.msg.responseHdr.requestHandle = hdr.requestId;

    OpcUaSduBuffer tx;''')], '''
Srv s; Cl c(s);
CHECK(c.login());
auto sid = Cl::session(c.req(Cl::create()));
CHECK(sid);
S const r = c.req(Cl::close(sid), 77);
CHECK(r.size() > 40);
CHECK(rd(r, 24 + 4 + 8) == 5);
''', 'a CloseSession request whose request id and request handle differ', 'the response carries the wrong request handle')
S('C06-session-check', 'C06', 'ua', [(SV + 'session/UaSession.cpp', '''    msgRsp.hdr = hdr;
    msgRsp.hdr.sessionId = sessionId;
    msgRsp.length = tx.size();''', '''    msgRsp.hdr = hdr;
    msgRsp.length = tx.size();''')], '''
Srv s; Cl c(s);
CHECK(c.login());
auto a = Cl::session(c.req(Cl::create()));
auto b = Cl::session(c.req(Cl::create()));
CHECK(a && b && a != b);
CHECK(!c.req(Cl::activate(a)).empty());
CHECK(!c.req(Cl::activate(b)).empty());
''', 'activating a session on a channel (the channel learns of it before the response is sent)', 'the ActivateSession response is dropped because of the session id it is sent with')
S('C07-idle-channel', 'C07', 'ua', [(T + 'UaTcpConnectionConnected.cpp', '''void UaTcpConnectionConnected::onTimer(UaTcpConnection& fsm)
{
    fsm.sendUaConnectionReleaseInd();
''', '''void UaTcpConnectionConnected::onTimer(UaTcpConnection& fsm)
{
''')], '''
Srv s;
for (int i = 0; i < 40; ++i)
{
    Cl c(s);
    CHECK(c.login());
    c.w.advance(31000000);
    CHECK(!c.up());
}
''', '32 connections with an open channel that expire for inactivity', 'their channels are never released; no more channels can be opened')
S('C07-accept-fault', 'C07', 'ua', [(T + 'UaTcpServer.cpp', '''    auto link = reactor.createLink({});
    acceptor->accept(*link);

    EntityId connectionId;
    if (not connectionPool.alloc(connectionId))
    {
        LM(UATL, LD, "Uid=%u, Can not alloc tcp connection", uid);
        return;
    }
''', '''    EntityId connectionId;
    if (not connectionPool.alloc(connectionId))
    {
        LM(UATL, LD, "Uid=%u, Can not alloc tcp connection", uid);
        return;
    }

    auto link = reactor.createLink({});
    acceptor->accept(*link);
''')], '''
Srv s;
for (int i = 0; i < 40; ++i)
{
    s.w.acceptor()->failAccept = true;
    s.w.dial(*s.w.acceptor());
    s.w.fireAccepts(*s.w.acceptor(), 1);
}
Cl c(s);
CHECK(c.login());
''', '32 accepts that fail', 'the connection allocated for a failed accept is lost; no more connections are served')
S('C07-sendfail', 'C07', 'ua', [(T + 'UaTcpConnectionConnected.cpp', '''    case UaTcpConnection::Result::noerror:
    case UaTcpConnection::Result::error:
    {
        fsm.sendUaConnectionReleaseInd();
        fsm.transit<UaTcpConnectionInit>();
    }
    break;
    }
}

void UaTcpConnectionConnected::onReceive(UaTcpConnection& fsm, MsgUaConnectionReleaseReq const&)''', '''    case UaTcpConnection::Result::noerror:
    case UaTcpConnection::Result::error:
    {
        fsm.transit<UaTcpConnectionInit>();
    }
    break;
    }
}

void UaTcpConnectionConnected::onReceive(UaTcpConnection& fsm, MsgUaConnectionReleaseReq const&)''')], '''
Srv s;
for (int i = 0; i < 40; ++i)
{
    Cl c(s);
    CHECK(c.login());
    c.w.conn(c.id).failSend = true;
    c.req(Cl::endpoints());
    CHECK(!c.up());
}
''', '32 connections on which writing a response fails', 'the channels of these connections are never released')
S('C08-stale-session', 'C08', 'ua', [(CH + 'UaServerSecureChannel.cpp', '    sessionId = {};\n    releaser', '    releaser')], '''
Srv s;
{
    Cl c(s);
    CHECK(c.login());
    auto sid = Cl::session(c.req(Cl::create()));
    CHECK(sid);
    CHECK(!c.req(Cl::activate(sid)).empty());
    CHECK(!c.req(Cl::read()).empty());
    c.w.peerClose(c.id);
}
for (int i = 0; i < 40; ++i)
{
    Cl c(s);
    CHECK(c.login());
    CHECK(c.req(Cl::read()).empty());
    c.w.peerClose(c.id);
}
''', 'a channel that is closed with an active session and later reused by another client', 'the other client can read with the session of the first one')
S('C08-reactivate', 'C08', 'ua', [(SV + 'session/UaSession.cpp', '        secureChannelId = hdr.secureChannelId;\n', '        if (not secureChannelId)\n        {\n            secureChannelId = hdr.secureChannelId;\n        }\n')], '''
Srv s; Cl a(s), b(s);
CHECK(a.login()); CHECK(b.login());
auto sid = Cl::session(a.req(Cl::create()));
CHECK(!a.req(Cl::activate(sid)).empty());
CHECK(!b.req(Cl::activate(sid)).empty());
CHECK(!b.req(Cl::read()).empty());
''', 'a session activated on one channel and then on another', 'Read stays allowed on the old channel and refused on the new one')
S('C08-close-created', 'C08', 'ua', [(SV + 'session/UaSessionCreated.cpp', '''    fsm.receive(hdr, req);
    fsm.transit<UaSessionInit>();''', '''    fsm.receive(hdr, req);''')], '''
Srv s; Cl c(s);
CHECK(c.login());
for (int i = 0; i < 40; ++i)
{
    auto sid = Cl::session(c.req(Cl::create()));
    CHECK(sid);
    CHECK(!c.req(Cl::close(sid)).empty());
}
''', 'sessions closed without having been activated', 'their slots are never free again; after 32 no session can be created')
S('C05-stale-association', 'C05', 'ua', [(T + 'UaTcpConnection.cpp', '    associatedSecureChannelId = {};\n    link.reset();', '    link.reset();')], '''
Srv s;
for (unsigned k = 0; k < 32; ++k) { Cl c(s); CHECK(c.login()); c.w.peerClose(c.id); CHECK(!c.up()); }
Cl thief(s);
CHECK(thief.hello().size() == 28);
Cl honest(s);
CHECK(honest.login());
thief.say(Cl::raw("CLO", honest.ch, 12345, 1, 1, Cl::closeChannel()));
CHECK(!thief.up());
CHECK(honest.up());
CHECK(honest.req(Cl::endpoints()).substr(0, 4) == "MSGF");
''', 'a connection in the slot of one whose channel number has been given to somebody else since', 'the new connection may still use the channel number of the one before it, and ends the channel of somebody else')
S('C06-first-number', 'C06', 'ua', [(CH + 'UaServerSecureChannel.cpp', '    sequenceNumberTx = 0;\n', '')], '''
Srv s;
{
    Cl c(s);
    CHECK(c.login());
    for (unsigned k = 0; k < 1100; ++k) CHECK(c.req(Cl::endpoints()).substr(0, 4) == "MSGF");
    c.w.peerClose(c.id);
}
for (unsigned k = 0; k < 33; ++k)
{
    Cl c(s);
    CHECK(c.login());
    CHECK(c.srvSeq < 1024);
    c.w.peerClose(c.id);
}
''', 'a channel with more than 1000 messages, closed, and its slot used again', 'the sequence numbers of the new channel go on where those of the old one ended')
