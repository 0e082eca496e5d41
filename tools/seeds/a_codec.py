C = 'src/app/common/ua/common/OpcUaBinaryCodec.cpp'
S('C01-nodeid-65536', 'C01', 'codec', [(C, 'nodeId.namespaceIndex < 256 && identifier < 65536', 'nodeId.namespaceIndex < 256 && identifier <= 65536')], '''
OpcUaSduBuffer b; OpcUaBinaryCodec c(b);
NodeId n; n.namespaceIndex = 3; n.value.emplace<UInt32>(65536);
c << n;
NodeId m; c >> m;
CHECK(n == m);
''', 'a numeric node id of exactly 65536 in a namespace below 256', 'the identifier is truncated to 16 bits, so the node id reads back as 0')
S('C01-boolean-nonone', 'C01', 'codec', [(C, 'val = s.read() ? true : false;', 'val = (s.read() == 0x1);')], '''
for (int v = 0; v < 256; ++v)
{
    OpcUaSduBuffer b; OpcUaBinaryCodec c(b);
    b.write(v);
    Boolean r; c >> r;
    CHECK(bool(r) == (v != 0));
}
''', 'a peer that encodes true as a byte other than 1', 'true is read as false')
S('C01-variant-extobj', 'C01', 'codec', [('src/app/common/ua/common/types/Variant.hpp', 'return val < 22 ? val + 1', 'return val < 21 ? val + 1')], '''
OpcUaSduBuffer b; OpcUaBinaryCodec c(b);
Variant v; v.emplace<ExtensionObject>();
c << v;
CHECK(*b.begin() == 22);
''', 'a variant holding a scalar ExtensionObject', 'the encoding byte is wrong (0x80 instead of 22)')
S('C01-picoseconds', 'C01', 'codec', [(C, '''    if (encodingMask & 0x10)
    {
        s >> data.sourcePicoSeconds;
    }
    if (encodingMask & 0x8)
    {
        s >> data.serverTimeStampt;
    }''', '''    if (encodingMask & 0x8)
    {
        s >> data.serverTimeStampt;
    }
    if (encodingMask & 0x10)
    {
        s >> data.sourcePicoSeconds;
    }''')], '''
OpcUaSduBuffer b; OpcUaBinaryCodec c(b);
DataValue v;
UInt16 p{7}; DateTime t; t = 1234567890123;
v.sourcePicoSeconds = p; v.serverTimeStampt = t;
c << v;
DataValue r; c >> r;
CHECK(v == r);
''', 'a DataValue with both source picoseconds and a server timestamp', 'the two fields are read in the wrong order')
S('C02-readvalueid-order', 'C02', 'codec', [(C, '''        >> val.indexRange
        >> val.dataEncoding;''', '''        >> val.dataEncoding
        >> val.indexRange;'''), (C, '''        << val.indexRange
        << val.dataEncoding;''', '''        << val.dataEncoding
        << val.indexRange;''')], '''
OpcUaSduBuffer b; OpcUaBinaryCodec c(b);
ReadValueId v;
v.nodeId.value.emplace<UInt32>(1u);
v.dataEncoding.namespaceIndex = 5;
c << v;
// node id (2), attribute id (4), null string (4), then the namespace index
CHECK(b.begin()[6] == 0xff && b.begin()[10] == 5);
''', 'a ReadValueId with an index range or data encoding; encoder and decoder agree with each other', 'the two fields change places on the wire, against the specification')
S('C02-session-nonce', 'C02', 'codec', [(C, '''        >> val.serverNonce
        >> val.serverCertificate
        >> val.serverEndpoints''', '''        >> val.serverCertificate
        >> val.serverNonce
        >> val.serverEndpoints'''), (C, '''        << val.serverNonce
        << val.serverCertificate
        << val.serverEndpoints''', '''        << val.serverCertificate
        << val.serverNonce
        << val.serverEndpoints''')], '''
OpcUaSduBuffer b, e; OpcUaBinaryCodec c(b), d(e);
UaCreateSessionRsp v;
v.sessionId.value.emplace<UInt32>(1u); v.authenticationToken.value.emplace<UInt32>(1u);
v.serverNonce.resize(3);
c << v;
d << v.responseHdr << v.sessionId << v.authenticationToken << v.revisedSessionTimeout;
CHECK(b.begin()[e.size()] == 3);
''', 'a CreateSession response whose nonce and certificate differ; encoder and decoder agree with each other', 'nonce and certificate change places on the wire')
S('C03-bytestring-copy', 'C03', 'codec', [(C, '''    s << len;
    for (std::int32_t i = 0; i < len; ++i)
    {
        s.write(val[i]);
    }
    return s;''', '''    s << len;
    std::memcpy(s.buf().end(), val.val.data(), len);
    s.buf().seek(len);
    return s;''', 1)], '''
struct { OpcUaSduBuffer b; unsigned char guard[8192]; } x;
std::memset(x.guard, 0x77, sizeof x.guard);
OpcUaBinaryCodec c(x.b);
ByteString v; v.resize(5000);
bool refused = false;
try { c << v; } catch (std::exception const&) { refused = true; }
CHECK(refused);
for (auto g : x.guard) CHECK(g == 0x77);
''', 'a byte string that does not fit in the rest of the buffer', 'memory behind the buffer is overwritten instead of the encoding being refused')
S('C03-text-truncated', 'C03', 'codec', [(C, '''    if (encodingMask & 0x2)
    {
        s >> lt.text;''', '''    if ((encodingMask & 0x2) && s.buf().size())
    {
        s >> lt.text;''')], '''
OpcUaSduBuffer b; OpcUaBinaryCodec c(b);
b.write(2);            // text announced, data ends
LocalizedText t;
bool refused = false;
try { c >> t; } catch (std::exception const&) { refused = true; }
CHECK(refused);
''', 'a LocalizedText cut exactly between its mask and its text', 'the truncated encoding is accepted')
S('C03-nodeid-default', 'C03', 'codec', [(C, '''    case 5:
    {
        s >> nodeId.namespaceIndex >> emplace<Opaque>(nodeId.value);
    }
    break;''', '''    case 5:
    {
        Int32 len;
        s >> nodeId.namespaceIndex >> len;
        auto& opaque = emplace<Opaque>(nodeId.value);
        opaque.resize(len < 0 ? 0 : std::int32_t(len));
        for (std::int32_t i = 0; i < len; ++i)
        {
            opaque[i] = s.read();
        }
    }
    break;''')], '''
static std::size_t biggest = 0;
void* operator new(std::size_t n) { if (n > biggest) biggest = n; void* p = std::malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
int main()
{
    OpcUaSduBuffer b; OpcUaBinaryCodec c(b);
    for (int v : {5, 0, 0, 0xff, 0xff, 0xff, 0x0f}) b.write(v);
    NodeId n;
    bool refused = false;
    try { c >> n; } catch (std::exception const&) { refused = true; }
    CHECK(refused);
    CHECK(biggest < 1000000);
    return 0;
}
''', 'an opaque node id whose length field is huge', 'about a gigabyte is allocated because of a length field alone')
