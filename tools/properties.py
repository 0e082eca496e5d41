TRUST = 'Trusted: the compiler and sanitizers, the harness and its reference model. The search samples the stated space; it is not exhaustive.'

prop('C01', 'OPC UA built-in types encode to the specified bytes and decode to equal values',
 'Every value of every OPC UA built-in type the codec offers (Boolean, Byte, SByte, 16/32/64-bit integers, Float, Double, String, DateTime, Guid, ByteString, NodeId, ExpandedNodeId, StatusCode, QualifiedName, LocalizedText, ExtensionObject, DataValue, Variant scalar / array / with dimensions, DiagnosticInfo, and DynamicArray of them) is written with the byte layout of OPC UA Part 6 (little-endian numbers, length -1 for null, smallest node id form, mask bits of DataValue / LocalizedText / DiagnosticInfo / ExpandedNodeId / Variant) and reading these bytes back gives an equal value and leaves nothing unread, also for several values one after the other in one buffer. Valid encodings the encoder would not itself choose (longer node id forms, boolean bytes other than 1, null arrays, zero-length strings) are read as the same value. == on these types is true exactly for values with the same content.',
 ['inputs'], 'for every value of every built-in type, every combination of optional fields, every array length, every position in a buffer, every valid alternative encoding',
 'The unit tests encode one or two literal values per type; mask combinations, boundary lengths, null versus empty, node id form boundaries and nested variants are not reached.',
 [U + 'OpcUaBinaryCodec.hpp', U + 'OpcUaBinaryCodec.cpp', U + 'OpcUaSduBuffer.hpp', U + 'types'],
 [('operator<< / operator>> per type', U + 'OpcUaBinaryCodec.cpp'), ('numerical append / get', U + 'OpcUaBinaryCodec.hpp')],
 'property-based testing: random values against an independent reference encoder, round trip and metamorphic (alternative encodings)',
 'Sampled; every type and mask bit is hit many thousand times per run. Strings up to a few hundred bytes, arrays up to a few dozen elements, nesting of DiagnosticInfo and Variant bounded. XmlElement is not covered. ' + TRUST)

prop('C02', 'OPC UA protocol messages have the specified field order and survive a round trip',
 'Every OPC UA protocol structure the server and client exchange (message headers, Hello, Acknowledge, Error, security / token / sequence headers, request and response headers, Open / CloseSecureChannel, GetEndpoints, Create / Activate / CloseSession, Read requests and responses, endpoint, application and token policy descriptions, signed certificates, signature data, ReadValueId and the containers with their type id) is written with its fields in specification order and each in its specified encoding; reading it back reproduces every field and consumes exactly its bytes.',
 ['inputs'], 'for every content of every field of every message type, alone or several in one buffer',
 'The tests decode a handful of captured messages, most of whose fields are empty or default, so exchanged, skipped or truncated fields go unnoticed.',
 [U + 'OpcUaBinaryCodec.cpp', U + 'msg'],
 [('message operators', U + 'OpcUaBinaryCodec.cpp'), ('message structures', A + 'common/ua/common')],
 'property-based testing: random messages against an independent field-by-field reference encoder and round trip',
 'Sampled over 31 message kinds with random content of every field. ' + TRUST)

prop('C03', 'Malformed OPC UA bytes are refused: no out-of-bounds access, no huge allocation',
 'Whatever bytes are presented as any OPC UA type or message, decoding either yields a value or reports an error by exception, and never reads or writes outside the buffer, reads beyond the data received, allocates memory out of proportion to the data (a length field alone never causes it), crashes, terminates or hangs. A strict prefix of a valid encoding is always refused, whatever stale bytes follow in memory. Encoding that does not fit in the buffer is refused and leaves the bytes before it intact, and encoding that fits succeeds.',
 ['inputs'], 'for every byte string, every truncation point, every fill level of the buffer',
 'No test feeds malformed input to the codec; the input space is all byte strings.',
 [U + 'OpcUaBinaryCodec.hpp', U + 'OpcUaBinaryCodec.cpp', U + 'OpcUaSduBuffer.hpp', U + 'OpcUaSduBuffer.cpp'],
 [('bounded reads / writes', U + 'OpcUaSduBuffer.cpp'), ('length checks before allocation', U + 'OpcUaBinaryCodec.cpp')],
 'structured fuzzing (mutated encodings, raw bytes, every kind of type) under AddressSanitizer and UBSan with an allocation limit',
 'Sampled; raw and mutated inputs up to a few hundred bytes. ' + TRUST)

prop('C04', 'A Hello, and nothing else, gets exactly one correct Acknowledge',
 'On every new connection to the OPC UA server, a well-formed Hello, however it is cut into TCP segments and whatever its contents, is answered with exactly one Acknowledge (ACKF, length 28, protocol version 0, buffer sizes 65536, maximum message size 5000 * 65536, chunk count 5000) and only once it is complete; nothing else is ever acknowledged (another message type, a length that does not match, a truncated Hello, trailing bytes). A connection is never closed in the middle of a valid message before 30 s of inactivity; an idle connection is closed after 30 s; a connection the peer closes is closed; other connections are not disturbed.',
 ['inputs', 'schedules', 'histories'], 'for every Hello of up to 1024 bytes, every segmentation and timing, every other first message, any number of connections up to 32 at a time',
 'The transport component has no test at all; segmentation and malformed openings are an unbounded space.',
 [A + 'ua/transport/server/UaTcpConnection.cpp', A + 'ua/transport/server/UaTcpConnectionReceiveHello.cpp', A + 'ua/transport/server/UaTcpConnectionConnected.cpp', A + 'ua/transport/UaTransport.cpp'],
 [('message assembly', A + 'ua/transport/server/UaTcpConnection.cpp'), ('states', A + 'ua/transport/server')],
 'model-based stateful PBT of the whole UA server on a deterministic event-loop stand-in',
 'Sampled histories of up to 40 connections; one message outstanding per connection (pipelining is not claimed). Time and sockets are virtual, the components are the real ones. ' + TRUST,
 ['bytes written to the connection'])

prop('C05', 'A message failing a secure channel check has no effect and ends its connection',
 'A secured message reaches the UA services or is answered only if its connection has an open secure channel, the message names that very channel and its current security token, and its sequence number is exactly the previous one plus one. A message with the id or token of another connection\'s channel, a wrong token, a repeated, skipped or arbitrary sequence number, an unknown message type, sent before a channel is open, or an OpenSecureChannel request cut short has no effect on any service or session, is not answered, and its connection is closed (before the Hello, or when the security header itself is cut short: not acted upon). Other clients keep being served correctly throughout.',
 ['inputs', 'histories'], 'for every history of clients, every kind of violation at every point, every segmentation',
 'No test covers the secure channel component; violations are only visible against the state of all other channels.',
 [A + 'ua/securechannel/channel/UaServerSecureChannel.cpp', A + 'ua/securechannel/channel/UaServerSecureChannelEstablished.cpp', A + 'ua/transport/server/UaTcpConnection.cpp', A + 'ua/securechannel/UaSecureChannel.cpp'],
 [('token / sequence number / connection checks', A + 'ua/securechannel/channel/UaServerSecureChannel.cpp'), ('channel id check', A + 'ua/transport/server/UaTcpConnection.cpp')],
 'model-based stateful PBT with injected protocol violations, oracle: nothing delivered to the service component, nothing answered, link closed',
 'Sampled; up to 40 violators beside an honest client. ' + TRUST,
 ['messages to the service component', 'bytes written', 'connection closed'])

prop('C06', 'Every valid UA request gets exactly one matching response on its own connection',
 'In every history of any number of clients, each valid request (Hello, OpenSecureChannel incl. a second one on the same connection, CloseSecureChannel, GetEndpoints, CreateSession, ActivateSession, CloseSession, Read) that the session rules allow is answered exactly once, on the connection it came from, with the response type of its request, the current channel id and token, the request\'s request id and request handle, the server sequence number of that channel increased by one (starting below 1024 on every new channel), the current time, service result good, and the requested channel lifetime / session timeout / message size echoed as revised value; GetEndpoints and CreateSession always describe one and the same endpoint, without security; the response is a complete well-formed message. Nothing is sent that was not asked for. No channel id is in use on two open connections at once. CloseSecureChannel also ends the connection. Faults of other connections (garbage, disconnects, failing writes, expiry) change none of this, also when a client leaves in the middle of an exchange and another one takes its place at once.',
 ['histories', 'inputs', 'schedules', 'fault_sequences'], 'for every history of operations, content of requests up to 1024 bytes, segmentation, interleaving of clients, fault of other clients',
 'The UA server components have no tests; correlation only breaks in histories with several clients, reopened channels or recycled slots.',
 [A + 'ua/service/UaService.cpp', A + 'ua/service/session/UaSession.cpp', A + 'ua/service/session/UaSessionService.cpp', A + 'ua/service/discovery/UaGetEndpoints.cpp', A + 'ua/service/attribute/UaAttributeService.cpp', A + 'ua/securechannel/channel/UaServerSecureChannel.cpp', A + 'ua/transport/server/UaTcpConnection.cpp'],
 [('request header carried through components', A + 'common/msg'), ('response construction', A + 'ua/service')],
 'model-based stateful PBT: random histories with concurrent exchanges against a model of every client, channel and session',
 'Sampled histories of up to 120 operations, one request outstanding per connection. ' + TRUST,
 ['bytes written to each connection'])

prop('C07', 'UA connections and channels are always recovered: full service after any history',
 'After any history of connections, channel openings, malformed input, closures by the peer, resets, failing writes and expiry, at any stage of message exchange between the components, once every client is gone (or idle for 30 s) no socket or timer is held and the server serves 32 clients at once again, each with its own secure channel. However a connection ends, one more connection can follow, without bound.',
 ['histories', 'fault_sequences', 'schedules'], 'for every history, every point at which a connection ends, every interleaving of internal messages with link events',
 'No test runs a connection to its end; a leak of one of 32 slots shows only after many connections or a specific order of events.',
 [A + 'ua/transport/UaTransport.cpp', A + 'ua/transport/server/UaTcpConnectionConnected.cpp', A + 'ua/securechannel/UaSecureChannel.cpp', A + 'ua/securechannel/channel/UaServerSecureChannelEstablished.cpp', A + 'ua/securechannel/channel/UaServerSecureChannelInit.cpp'],
 [('release indications', A + 'ua/transport/server/UaTcpConnectionConnected.cpp'), ('channel release', A + 'ua/securechannel/channel')],
 'model-based stateful PBT with fault injection, ended by a capacity oracle (32 clients served at once)',
 'Sampled histories of up to 150 operations, half with inter-component messages in flight; recycling runs of up to 112 connections per ending. ' + TRUST,
 ['live sockets and timers', 'service to 32 fresh clients'])

prop('C08', 'UA sessions: unique ids, Read only on the activating channel, reusable slots',
 'CreateSession gives a session id that no live session has, as long as fewer than 32 sessions exist, and is not answered beyond that. ActivateSession and CloseSession are answered exactly for live session ids; any other token (unknown, closed, zero, out of range, not numeric) is not answered and harms nothing. Read is answered exactly when the channel\'s most recently activated session is alive and was activated last by this very channel. A closed session\'s slot can be used again: after all are closed, 32 sessions can be created again.',
 ['histories', 'inputs'], 'for every history of session operations from several channels, every token value',
 'The session service has no tests; the rules relate events far apart on different channels.',
 [A + 'ua/service/session/UaSessionService.cpp', A + 'ua/service/session/UaSession.cpp', A + 'ua/service/UaService.cpp', A + 'ua/service/attribute/UaAttributeService.cpp'],
 [('session states', A + 'ua/service/session'), ('association of channel and session', A + 'ua/securechannel/channel/UaServerSecureChannel.cpp')],
 'model-based stateful PBT against a session model',
 'Sampled histories of up to 200 session operations on up to 20 channels. Sessions abandoned without CloseSession are not reclaimed (not claimed). ' + TRUST,
 ['responses on each connection'])

prop('C09', 'Modbus requests and responses have exactly the Modbus/TCP wire format, both ways',
 'Every valid Modbus request (functions 1-6 and 16, unit 0..247, counts within the protocol limits) is encoded to exactly the bytes of Modbus/TCP (transaction id, protocol 0, length, unit, function, big-endian addresses, counts and registers, coil value FF00/0000) and decoded to the same request; invalid ones (unit, count, data size, coil value, unknown function) are refused. Every valid response incl. exception responses is encoded and decoded likewise. A decoded request or response never carries fields of an earlier one.',
 ['inputs'], 'for every unit, function, address, count, data, transaction id',
 'The codec tests check a few literal frames; boundary counts, high transaction ids, dirty output objects and every function in both directions are not covered.',
 [M + 'ModbusCodec.cpp', M + 'ModbusCodec.hpp'],
 [('encode / decode', M + 'ModbusCodec.cpp')],
 'property-based testing against an independent reference encoder, round trip',
 'Sampled with boundary bias; 600000 cases per quick run. Coil read responses (functions 1, 2) are outside: the codec does not support them. ' + TRUST)

prop('C10', 'Malformed Modbus bytes are refused; they never crash, corrupt or get through',
 'Any byte string is accepted as a request (server) or as a response (client) exactly when it is well-formed Modbus/TCP of a supported function with consistent lengths; everything else is refused without memory error. Malformed bytes sent to a server connection are never forwarded to the application, and other connections continue to work; as an answer to a client request they give an error result, and the client keeps working.',
 ['inputs', 'schedules'], 'for every byte string up to 400 bytes, in any pieces',
 'Only one or two malformed frames are tested.',
 [M + 'ModbusCodec.cpp', M + 'client/ModbusClient.cpp', M + 'server/session/ModbusSession.cpp'],
 [('length and field checks', M + 'ModbusCodec.cpp')],
 'structured fuzzing (random and mutated frames) with an independent parser as accept/refuse oracle, under sanitizers',
 'Sampled. ' + TRUST)

prop('C11', 'Every Modbus client request gets exactly one correct answer in bounded time',
 'Each request submitted to a configured Modbus client is answered exactly once (to the submitting component, with the same client id and transaction id): with success and the data of the server\'s reply to this very request, with the Modbus exception, or with an error (queue full, not connected, refused request, malformed, mismatching or missing reply, connection lost). The answer comes in bounded time. Late, duplicate or unsolicited replies never become the answer of another request.',
 ['histories', 'schedules', 'fault_sequences', 'inputs'], 'for every history of submissions, connection events, reply timing, segmentation, corruption, loss',
 'The client tests drive one or two scripted exchanges through mocks.',
 [M + 'client/ModbusClient.cpp', M + 'client', M + 'Modbus.cpp'],
 [('request queue', M + 'client/ModbusClient.cpp'), ('states and timers', M + 'client')],
 'model-based stateful PBT of the Modbus component on a deterministic event-loop stand-in with fault injection',
 'Sampled histories of up to 120 operations on 1-3 clients. Requests pending when the component is released or reconfigured are not claimed. ' + TRUST,
 ['answers to the application'])

prop('C12', 'A Modbus client sends requests in order, one at a time, each exactly once',
 'Requests accepted by a client are put on the wire in submission order, each at most once and complete, as the exact encoding of that request; the next one is sent only after the previous one has its answer; no request is sent on a connection that is not established; a request answered as error because it was never sent is never sent later.',
 ['histories', 'schedules', 'fault_sequences'], 'for every history of submissions, replies, failures, reconnects',
 'Scripted exchanges with mocks never have a queue, a failure and a reconnect together.',
 [M + 'client/ModbusClient.cpp', M + 'client'],
 [('queue and send state', M + 'client')],
 'model-based stateful PBT: every write is compared with the oldest waiting request of the model',
 'Sampled histories of up to 120 operations. ' + TRUST, ['bytes written'])

prop('C13', 'A Modbus client reconnects after every failure and works again',
 'Whatever happened before (refused or timed-out connect, lost connection, link error, failing write, malformed or missing reply), a Modbus client tries to connect to its configured address again after its back-off, never opens two connections at once, never keeps a failed one, and requests succeed again as soon as the server is reachable.',
 ['histories', 'fault_sequences', 'schedules'], 'for every history of failures',
 'Tests cover a single failure from one state each.',
 [M + 'client', M + 'client/ModbusClient.cpp'],
 [('back-off and connect states', M + 'client')],
 'model-based stateful PBT with fault injection and a recovery oracle at the end of each history',
 'Sampled histories of up to 120 operations. ' + TRUST, ['connection attempts', 'answers after recovery'])

prop('C14', 'Modbus server: each request is indicated once and its reply sent back once',
 'Each well-formed request received by a Modbus server, however segmented, is indicated to the application exactly once with exactly its fields; the application\'s answer (data, echo or exception) is sent exactly once, on the connection of the request, with its transaction id, unit and function, in the Modbus/TCP format; without an answer within 5 s nothing is sent and the connection does not stay stuck. Answers that belong to no pending request (late, repeated, or for a session or server that does not exist) and answers too long for a message are not sent to anybody and harm nothing.',
 ['histories', 'schedules', 'inputs'], 'for every history of peers, requests, segmentation, answer timing',
 'Tests drive one session with one complete frame.',
 [M + 'server/session', M + 'server/ModbusServer.cpp', M + 'Modbus.cpp'],
 [('session states', M + 'server/session')],
 'model-based stateful PBT against a model of peers and application',
 'Sampled histories of up to 150 operations on 1-2 servers. ' + TRUST, ['indications to the application', 'bytes written'])

prop('C15', 'Modbus server sessions are always recovered and idle peers dropped',
 'However a Modbus server connection ends (peer closes, resets, sends garbage, stays idle 30 s, answer missing, accept fails, resources exhausted), its session, socket and timer are released, the peer\'s connection is closed, and later connections are accepted and served; no number of connections in turn uses the server up. An active connection is not dropped.',
 ['histories', 'fault_sequences'], 'for every history of connections and their endings',
 'A leak shows after 256 sessions or in a specific order of events.',
 [M + 'server/ModbusServer.cpp', M + 'server/session'],
 [('session pool', M + 'server/ModbusServer.cpp'), ('timers', M + 'server/session')],
 'model-based stateful PBT with fault injection and recycling runs, ended by a capacity oracle',
 'Sampled; recycling runs of 260-860 connections. ' + TRUST, ['live sockets and timers', 'service to fresh connections'])

prop('C29', 'Modbus configuration: one answer per request, exactly the configured peers',
 'Every initialise, release and (once initialised) configure request of the Modbus component is answered exactly once; the answer to a configuration has the id of each item in order and reports an item as successful exactly when its id is within the limits given at initialisation and its server could listen or its client could begin to connect. A failing item does not affect the others. At any time exactly the servers configured last listen, each on its address, and clients connect to their own addresses only; requests of a server\'s peers carry that server\'s id. Configuring an id again replaces it: its listener and connections are closed, also when the new address is the same. After release or a new initialisation no socket, connection or timer of the old configuration is held.',
 ['histories', 'fault_sequences', 'inputs'], 'for every sequence of initialise, configure and release requests',
 'Tests configure one or two valid items once.',
 [M + 'Modbus.cpp', M + 'ModbusComponent.cpp', M + 'server/ModbusServer.cpp', M + 'client/ModbusClient.cpp'],
 [('configuration of an item', M + 'Modbus.cpp')],
 'model-based stateful PBT against a model of the configuration, with round trips through every server and client',
 'Sampled histories of up to 40 operations; no requests pending when an item is configured again. ' + TRUST, ['answers to the controller', 'listening and connecting addresses', 'forwarded requests'])

prop('C16', 'Messages reach the addressed component unaltered, in order and exactly once',
 'A message of up to 4096 bytes sent through the reactor manager or a reactor, from any thread, is handed exactly once, byte for byte as it was sent, to the handler registered for its message id, on the thread of the reactor that serves the addressed component. Two messages from the same sender to the same component arrive in the order sent. As long as fewer than 64 messages wait in a reactor none is lost; beyond that, or when a message is too long, a message is dropped as a whole and neither damages nor reorders others. Messages to unknown components or without handler are ignored without any effect on others. Sending is free of data races.',
 ['schedules', 'inputs', 'histories'], 'for every number of sender threads, components and reactors, every message size, every interleaving, every fill level of the queue',
 'No test sends from two threads or fills the message storage; the reactor tests send single small messages.',
 [R + 'MsgMemStorage.cpp', R + 'Reactor.cpp', R + 'ReactorManager.cpp', R + 'Event.cpp'],
 [('message storage', R + 'MsgMemStorage.cpp'), ('dispatch', R + 'Reactor.cpp'), ('routing', R + 'ReactorManager.cpp')],
 'property-based testing with generated thread and component programs on real reactors, per-message content and order oracle; again under ThreadSanitizer',
 'Sampled programs of up to 480 messages from 1-4 threads; interleavings are those the scheduler produces (8 cores), races are also looked for by ThreadSanitizer. One thread per reactor, as deployed. ' + TRUST,
 ['handler calls'])

prop('C17', 'An exception in one handler never costs another event, message or timer',
 'When a handler of a message, timer, link or acceptor throws a standard exception, the reactor goes on: every other event pending at that moment (data on other links, expired timers, messages queued behind, waiting connections) and every later one is still handled, exactly once and in order, and the links and timers whose handlers threw remain usable.',
 ['fault_sequences', 'schedules'], 'for every combination of pending events and throwing handlers',
 'No test lets a handler throw while other events are pending.',
 [R + 'Reactor.cpp', R + 'Epoll.cpp', R + 'Event.cpp'],
 [('event loop', R + 'Reactor.cpp'), ('batch of events', R + 'Epoll.cpp')],
 'property-based testing: generated batches of simultaneous events with throwing handlers on a real reactor, count and order oracle',
 'Sampled batches of up to 20 events. Exceptions not derived from std::exception are outside. ' + TRUST,
 ['handler calls'])

prop('C18', 'A timer fires once per start, never early, and never after being stopped',
 'A started timer calls its handler exactly once, not before its interval has passed, unless it is stopped, started again (then only the new interval counts) or released first; a stopped or released timer never fires, also when it had already expired but was not handled yet, or was stopped or released by another handler of the same batch. Intervals from 0 to hours are honoured; timers do not influence each other. A timer can be started, stopped and started again without limit, also by its own handler.',
 ['histories', 'schedules'], 'for every history of start, stop, release on any number of timers, every interval, every moment relative to expiry',
 'The timer test starts one timer once.',
 [R + 'Timer.cpp', R + 'Reactor.cpp'],
 [('timerfd handling', R + 'Timer.cpp')],
 'model-based stateful PBT of timers on a real reactor, model of armed timers and due times',
 'Sampled histories of up to 40 operations on up to 8 timers with intervals up to 4 ms, and up to 27 timers at once with intervals up to 1.3 s, actually awaited; longer ones only checked not to fire. ' + TRUST,
 ['handler calls and their time'])

prop('C19', 'A link carries bytes unaltered both ways and reports connects and ends once',
 'For every TCP link, incoming or outgoing: a connection established is reported once, before any data; a refused attempt is reported as one error; the bytes received are exactly the bytes the peer sent, in order, complete, also those that arrived before the connection was reported, whatever the size of the read buffer; bytes are reported as sent only if all of them reach a peer that reads (a write that does not fit is reported as failed); the end of the connection by the peer (close or reset) is reported, after all data in the case of an orderly close, and never on a healthy connection; writing to a dead connection is harmless; a closed link has no descriptor, accepts no data and reports nothing more, also when another handler closed it while an event was pending, and can be connected again, also at once by that handler: nothing of the old connection is reported on the new one. Links do not affect each other.',
 ['histories', 'inputs', 'schedules', 'fault_sequences'], 'for every interleaving of traffic in both directions, segmentation, endings and several links',
 'The link tests use mocks or one exchange on loopback.',
 [R + 'Link.cpp', R + 'Epoll.cpp', R + 'Acceptor.cpp'],
 [('send / receive / events', R + 'Link.cpp')],
 'model-based stateful PBT over real loopback sockets, oracle: the byte streams and event history of each connection',
 'Sampled histories of up to 80 operations on up to 6 connections over loopback. ' + TRUST,
 ['bytes and events on both ends'])

prop('C20', 'A configured address is the address used, for every IPv4 address and port',
 'The 4 address bytes and 2 port bytes of a link address mean exactly that IPv4 address and TCP port: listening accepts connections on it and on no other, connecting reaches it and no other, for every value of every byte.',
 ['inputs'], 'for every address and port',
 'The tests use one address whose bytes are all below 128.',
 [R + 'types/LinkAddr.hpp', R + 'Link.cpp', R + 'Acceptor.cpp'],
 [('address conversion', R + 'types/LinkAddr.hpp')],
 'property-based testing: arithmetic oracle for the conversion, real loopback sockets for listen and connect',
 'Sampled: 200000 conversions, 3000 real listens and connects within 127.0.0.0/8 per quick run. ' + TRUST,
 ['reached address'])

prop('C21', 'Timers, links and acceptors are never leaked, whatever fails',
 'A reactor provides 32 timers, 32 links and 32 acceptors at a time; a request for more is refused with an exception and has no other effect. Every failure of the operating system (no descriptors, event registration refused, port in use) while creating, connecting, listening or accepting is reported by an exception, and leaves no descriptor open and no object lost. After everything is released, no descriptor is left and all objects can be created and used again, without limit. An address that was listened on can be listened on again as soon as its acceptor is closed, however its connections ended, but never by two at a time.',
 ['fault_sequences', 'histories'], 'for every history of creation and release and every point of failure',
 'No test exhausts a pool or makes a system call fail.',
 [R + 'Reactor.cpp', R + 'EntityPool.hpp', R + 'Timer.cpp', R + 'Link.cpp', R + 'Acceptor.cpp'],
 [('pools', R + 'EntityPool.hpp'), ('release paths', R + 'Reactor.cpp')],
 'model-based stateful PBT with injected system-call failures (descriptor limit, epoll_ctl, taken ports), descriptor-count and capacity oracle',
 'Sampled histories of up to 80 operations. Faults injected: RLIMIT_NOFILE, failing epoll_ctl and listen, occupied and unreachable address. ' + TRUST,
 ['open descriptors', 'creation of all objects afterwards'])

prop('C22', 'After stop() returns no handler runs, and everything can be destroyed safely',
 'When stop() of a reactor or of the reactor manager has returned, no handler of it runs or is running, whatever messages, timers and link events are pending or still arriving from other threads, and links, timers, the reactor and the manager can be destroyed at once without any use of freed memory or data race. stop() returns in bounded time also when handlers keep the reactor busy for ever with new events, and when it was never started.',
 ['schedules', 'histories'], 'for every moment of stopping relative to every activity',
 'Tests stop an idle reactor.',
 [R + 'Reactor.cpp', R + 'ReactorManager.cpp', R + 'Thread.cpp'],
 [('stop and join', R + 'Reactor.cpp'), ('thread', R + 'Thread.cpp')],
 'property-based testing: real reactors under generated load stopped at random moments, under AddressSanitizer and again under ThreadSanitizer',
 'Sampled stop moments up to 4 ms after the start; interleavings are those the scheduler produces. ' + TRUST,
 ['handler calls after stop'])

prop('C23', 'Start and stop work in every order: all served when on, nothing kept when off',
 'Whatever start and stop requests reach the application (any number, in any order, at any moment incl. while the controller is still configuring, initialising or releasing components, with any messages between the components in flight, with clients connected, ports taken or the internal Modbus connection broken): every request of the controller to initialise or release a component is confirmed to the controller exactly once; some time after the last request was stop, no listening socket, connection or timer is held; some time after it was start (no port taken), a UA client is served on 127.0.0.1:4369 (Hello, secure channel, GetEndpoints, which names this very endpoint), exactly one Modbus server listens on 127.0.0.1:12145 and answers register reads, the Modbus client of the application is connected to it exactly once, and its self test goes on. Stop, start, stop at the end always works.',
 ['histories', 'schedules', 'fault_sequences'], 'for every history of start and stop requests, every interleaving of the messages between the components, clients and faults',
 'Nothing tests the controller, the deployment or several components together.',
 [A + 'controller/ControllerComponent.cpp', A + 'controller/modbus/ModbusTestController.cpp', A + 'Deployer.cpp', A + 'ua/transport/UaTransport.cpp', A + 'modbus/Modbus.cpp'],
 [('start / stop requests', A + 'controller/ControllerComponent.cpp'), ('Modbus test state machine', A + 'controller/modbus/ModbusTestController.cpp'), ('deployment', A + 'Deployer.cpp')],
 'model-based stateful PBT of the whole deployed application on virtual reactors (virtual time, sockets and message scheduling), oracle: resources held and services answering',
 'Sampled histories of up to 60 requests and events with random interleaving of the messages of the 4 reactors; threads are not used (C16 and C22 cover those). The self test is not required to go on after a start that overlaps an unfinished one without a stop between. ' + TRUST,
 ['sockets and timers held', 'answers on both ports', 'confirmations'])

prop('C24', 'No traffic on the ports can harm the application or change other registers',
 'Whatever any number of peers send to the OPC UA and the Modbus port of the running application (valid requests with every field at its extremes, mutated ones, garbage, in any pieces, closing or resetting at any moment): there is no memory error, crash or hang; the controller serves 1024 registers for each of the transaction ids 0, 3, 4, 7, 8, 10 and 11: a read (functions 3, 4) is answered with the values last written there, a write (6, 16) changes exactly the registers named, of that transaction id, and a request that reaches beyond the last register or has a transaction id above 15 is answered with an exception (function 0x8f) and changes nothing; the self test is not disturbed by requests that leave its own registers alone; a fresh UA client is served afterwards; and stop and start restore everything.',
 ['inputs', 'histories', 'fault_sequences'], 'for every sequence of messages of any number of peers',
 'The tests feed single messages to single components.',
 [A + 'controller/modbus/ModbusTestController.cpp', A + 'modbus/server/session/ModbusSession.cpp', A + 'ua/transport/server/UaTcpConnection.cpp', A + 'ua/service/UaService.cpp'],
 [('register store', A + 'controller/modbus/ModbusTestController.cpp'), ('receive paths', A + 'ua/transport/server/UaTcpConnection.cpp')],
 'structured fuzzing of the whole deployed application on virtual reactors under AddressSanitizer and UBSan, register model and service oracle',
 'Sampled: up to 150 actions of up to 32 peers per case. After foreign writes the self test of the application may fail, as it uses the same registers; this is not required to recover before stop and start. ' + TRUST,
 ['answers on both ports', 'sanitizer reports'])

prop('C25', 'The application can run for ever: no activity makes its memory grow',
 'Repeating any activity (connections to either port that end in any way, every service, requests for unknown services, sessions or registers, garbage, failing writes and accepts, crowds of peers, stop and start, the self test running idly) uses a bounded amount of memory: the memory in use after many repetitions does not grow with their number.',
 ['histories'], 'for every activity and any number of repetitions',
 'Tests run each thing once and never measure memory.',
 [A + 'ua/service/UaService.cpp', A + 'ua/securechannel/', A + 'ua/transport/', A + 'modbus/', A + 'controller/'],
 [('service lookup', A + 'ua/service/UaService.cpp'), ('session store', A + 'ua/service/session/')],
 'property-based testing: generated activities repeated up to 1920 times in the deployed application on virtual reactors, oracle: memory in use (allocator statistics) at six points',
 'A growth of 3 bytes or more per repetition in each of 5 windows, each as long as all before it, is reported; slower growth is not. Sessions never closed by their client are outside. ' + TRUST,
 ['bytes in use'])

prop('C26', 'Every log call writes exactly its own whole line, whatever its text and thread',
 'A log call writes one line exactly when its level is at least the level set for its task, with time, level, task, source file name, line and the formatted text, in the order of the calls of a thread. The text may have any length (up to 900 characters appear in full, longer ones at least their first 900) and any content (format characters in arguments are printed as they are) without memory error. Lines of several threads are never mixed or lost. Setting the level of a task changes that task only.',
 ['inputs', 'schedules'], 'for every text, task, level setting and any number of threads',
 'The logger has no test.',
 [A + 'common/logger/Logger.hpp', A + 'common/logger/Logger.cpp'],
 [('LM macro', A + 'common/logger/Logger.hpp'), ('dispatch', A + 'common/logger/Logger.cpp')],
 'property-based testing: generated call sequences and threads with captured output, line-by-line oracle; threads again under ThreadSanitizer',
 'Sampled: texts up to 20000 characters, 2-6 threads. Levels are not changed while other threads log. ' + TRUST,
 ['stdout'])

UP = A + 'common/ua/protocols/'
prop('C27', 'UA connection objects: exact handshake, framing, time limits and end events',
 'A ServerConnection (given an accepted link, or connecting out with a ReverseHello) and a ClientConnection report to their owner exactly what happened: "connected" once, after a complete and well-formed Hello (answered by exactly one Acknowledge) or Acknowledge arrived in any pieces; "data" once per complete message of up to 1024 bytes, with exactly its bytes in the receive buffer, however the stream was cut; and one "error" or "closed" at the end, none when the owner closed it itself. Attempts end in time: 3 s to connect, 1 s for the handshake, 10 s idle, and not before. Refused, reset or closed connections, malformed or oversized input, failing sends, a connect that fails at once and missing links or timers end the attempt without memory error; afterwards neither link nor timer is held and the same object can be used again. The owner may send and close from within the "connected" and "data" events.',
 ['inputs', 'histories', 'fault_sequences'], 'for every message, fragmentation, timing, fault and reuse of the object',
 'The unit tests run single scripted paths on mocks.',
 [UP + 'connection/ServerConnection.cpp', UP + 'connection/ClientConnection.cpp', UP + 'connection/OpcUaConnection.cpp'],
 [('receive and framing', UP + 'connection/OpcUaConnection.cpp'), ('state machines', UP + 'connection/ServerConnectionConnected.cpp')],
 'model-based stateful PBT of the connection objects on a virtual reactor (virtual time and links), event, wire and resource oracle, under AddressSanitizer and UBSan',
 'Sampled: up to 5 attempts per object with up to 12 steps each. close() before the connection is up, reconnecting from within an event and pipelined messages are outside. ' + TRUST,
 ['owner events', 'bytes sent', 'links and timers held'])

prop('C28', 'UA server secure channel object: only valid requests pass, answers are numbered',
 'An OpcUaServerSecureChannel answers each OpenSecureChannel request (first and renewals) with its request id, one channel id for the whole life of the channel, a token and the requested lifetime; passes each following message with the current token and the next sequence number to its owner exactly once with exactly its body; and ends the channel with one "error", and no answer, for a wrong token or sequence number, one "closed" for a valid close request. Answers carry the channel id, the current token, the id of the last request and consecutive sequence numbers, and exactly the payload given; a payload too large for a message is not sent at all. Messages out of place are never passed on. Whatever ends the channel, it tells its owner once, releases link and timer, and can be opened again.',
 ['inputs', 'histories', 'fault_sequences'], 'for every sequence of messages, fragmentation, timing and fault',
 'The secure channel objects of the library have no test.',
 [UP + 'secure/OpcUaServerSecureChannel.cpp', UP + 'secure/OpcUaServerSecureChannelEstablished.cpp'],
 [('token and sequence checks', UP + 'secure/OpcUaServerSecureChannel.cpp'), ('state machine', UP + 'secure/OpcUaServerSecureChannelEstablished.cpp')],
 'model-based stateful PBT of the channel object on a virtual reactor, wire-level reference encoder and event oracle, under AddressSanitizer and UBSan',
 'Sampled: up to 4 channels per object with up to 14 steps each. The client side channel object is unfinished (send, close and its events do nothing) and outside. ' + TRUST,
 ['owner events', 'bytes sent', 'links and timers held'])
