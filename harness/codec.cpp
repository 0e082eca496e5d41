// C01 value round trips and wire format, C02 messages, C03 malformed input.
#include "uaref.hpp"
#include "Logger.hpp"

#include <new>
#include <memory>

using namespace app::ua;
using pbt::Src;
using pbt::Ctx;
using pbt::fmt;
using pbt::hex;
using uaref::Gen;

namespace
{
std::size_t liveAlloc = 0, peakAlloc = 0;
}

void* operator new(std::size_t n)
{
    if (n > (1ull << 31)) throw std::bad_alloc();
    auto* p = static_cast<std::size_t*>(std::malloc(n + 16));
    if (!p) throw std::bad_alloc();
    p[0] = n;
    liveAlloc += n;
    if (liveAlloc > peakAlloc) peakAlloc = liveAlloc;
    return reinterpret_cast<char*>(p) + 16;
}
void operator delete(void* q) noexcept
{
    if (!q) return;
    auto* p = reinterpret_cast<std::size_t*>(static_cast<char*>(q) - 16);
    liveAlloc -= p[0];
    std::free(p);
}
void operator delete(void* q, std::size_t) noexcept { operator delete(q); }

namespace
{

constexpr std::size_t capacity = 4096;

void setLogging(bool on)
{
    for (int t = 0; t < static_cast<int>(app::LogTask::NUM); ++t)
        app::Logger::getInst().setTaskLogLevel(static_cast<app::LogTask>(t), on ? app::LogLevel::LD : app::LogLevel::NA);
}

// A value of some type, type erased.
struct Item
{
    virtual ~Item() {}
    virtual char const* name() const = 0;
    virtual void gen(Gen&) = 0;
    virtual std::string ref() const = 0;
    virtual void encode(OpcUaBinaryCodec&) const = 0;
    virtual void decode(OpcUaBinaryCodec&) = 0;
    virtual std::unique_ptr<Item> fresh() const = 0;
    virtual bool same(Item const&) const = 0;       // through the repository's own ==
};

template <typename T> concept Comparable = requires(T const& a, T const& b) { { a == b } -> std::convertible_to<bool>; };
template <typename T> struct IsVec : std::false_type {};
template <typename T> struct IsVec<std::vector<T>> : std::true_type {};

template <typename T>
struct ItemOf : Item
{
    T v{};
    char const* n;
    explicit ItemOf(char const* name_) : n(name_) {}
    char const* name() const override { return n; }
    void gen(Gen& g) override { uaref::GenVisitor{g}(v); }
    std::string ref() const override { return uaref::refBytes(v); }
    void encode(OpcUaBinaryCodec& c) const override { c << v; }
    void decode(OpcUaBinaryCodec& c) override { c >> v; }
    std::unique_ptr<Item> fresh() const override { return std::make_unique<ItemOf<T>>(n); }
    bool same(Item const& o) const override
    {
        if constexpr (Comparable<T> && !IsVec<T>::value) return v == static_cast<ItemOf<T> const&>(o).v;
        else return true;
    }
};

using Maker = std::unique_ptr<Item> (*)();
template <typename T, char const* N> std::unique_ptr<Item> make() { return std::make_unique<ItemOf<T>>(N); }

struct Entry { char const* name; std::unique_ptr<Item> (*mk)(char const*); };
template <typename T> std::unique_ptr<Item> mk(char const* n) { return std::make_unique<ItemOf<T>>(n); }

Entry const builtin[] = {
    {"Boolean", mk<Boolean>}, {"SByte", mk<SByte>}, {"Byte", mk<Byte>}, {"Int16", mk<Int16>}, {"UInt16", mk<UInt16>},
    {"Int32", mk<Int32>}, {"UInt32", mk<UInt32>}, {"Int64", mk<Int64>}, {"UInt64", mk<UInt64>}, {"Float", mk<Float>},
    {"Double", mk<Double>}, {"String", mk<String>}, {"DateTime", mk<DateTime>}, {"Guid", mk<Guid>}, {"ByteString", mk<ByteString>},
    {"NodeId", mk<NodeId>}, {"NodeId", mk<NodeId>}, {"ExpandedNodeId", mk<ExpandedNodeId>}, {"ExpandedNodeId", mk<ExpandedNodeId>}, {"StatusCode", mk<StatusCode>},
    {"QualifiedName", mk<QualifiedName>}, {"LocalizedText", mk<LocalizedText>}, {"ExtensionObject", mk<ExtensionObject>},
    {"DataValue", mk<DataValue>}, {"DataValue", mk<DataValue>}, {"Variant", mk<Variant>}, {"Variant", mk<Variant>}, {"Variant", mk<Variant>}, {"Variant", mk<Variant>},
    {"DiagnosticInfo", mk<DiagnosticInfo>}, {"DiagnosticInfo", mk<DiagnosticInfo>},
    {"Boolean[]", mk<DynamicArray<Boolean>>}, {"Int16[]", mk<DynamicArray<Int16>>}, {"UInt32[]", mk<DynamicArray<UInt32>>}, {"String[]", mk<DynamicArray<String>>},
    {"Double[]", mk<DynamicArray<Double>>}, {"DataValue[]", mk<DynamicArray<DataValue>>}, {"DiagnosticInfo[]", mk<DynamicArray<DiagnosticInfo>>}, {"ExpandedNodeId[]", mk<DynamicArray<ExpandedNodeId>>},
};

Entry const messages[] = {
    {"MessageHeader", mk<MessageHeader>}, {"UaMessageHeader", mk<UaMessageHeader>}, {"Hello", mk<HelloMessage>}, {"Acknowledge", mk<AcknowledgeMessage>},
    {"Error", mk<ErrorMessage>}, {"ReverseHello", mk<ReverseHelloMessage>}, {"SecurityHeader", mk<UaSecurityHeader>}, {"SecurityTokenHeader", mk<UaSecurityTokenHeader>},
    {"SequenceHeader", mk<UaSequenceHeader>}, {"RequestHeader", mk<UaRequestHeader>}, {"ResponseHeader", mk<UaResponseHeader>}, {"ChannelSecurityToken", mk<UaChannelSecurityToken>},
    {"ApplicationDescription", mk<UaApplicationDescription>}, {"UserTokenPolicy", mk<UaUserTokenPolicy>}, {"EndpointDescription", mk<UaEndpointDescription>}, {"SignatureData", mk<UaSignatureData>},
    {"ReadValueId", mk<ReadValueId>},
    {"OpenSecureChannelReq", mk<UaOpenSecureChannelReqCont>}, {"OpenSecureChannelRsp", mk<UaOpenSecureChannelRspCont>},
    {"CloseSecureChannelReq", mk<UaCloseSecureChannelReqCont>}, {"CloseSecureChannelRsp", mk<UaCloseSecureChannelRspCont>},
    {"GetEndpointsReq", mk<UaGetEndpointsReqCont>}, {"GetEndpointsRsp", mk<UaGetEndpointsRspCont>},
    {"CreateSessionReq", mk<UaCreateSessionReqCont>}, {"CreateSessionRsp", mk<UaCreateSessionRspCont>},
    {"ActivateSessionReq", mk<UaActivateSessionReqCont>}, {"ActivateSessionRsp", mk<UaActivateSessionRspCont>},
    {"CloseSessionReq", mk<UaCloseSessionReqCont>}, {"CloseSessionRsp", mk<UaCloseSessionRspCont>},
    {"ReadReq", mk<UaReadReqCont>}, {"ReadRsp", mk<UaReadRspCont>},
};

template <std::size_t N>
Entry const& pickEntry(Src& s, Entry const (&t)[N]) { return t[s.below(N)]; }

std::string content(OpcUaSduBuffer& b)
{
    return std::string(reinterpret_cast<char const*>(b.begin()), reinterpret_cast<char const*>(b.end()));
}

// The type ids of the OPC UA binary encodings (Part 6 / NodeIds.csv).
struct KnownId { char const* name; unsigned id; };
KnownId const knownIds[] = {
    {"OpenSecureChannelReq", 446}, {"OpenSecureChannelRsp", 449}, {"CloseSecureChannelReq", 452}, {"CloseSecureChannelRsp", 455},
    {"GetEndpointsReq", 428}, {"GetEndpointsRsp", 431}, {"CreateSessionReq", 461}, {"CreateSessionRsp", 464},
    {"ActivateSessionReq", 467}, {"ActivateSessionRsp", 470}, {"CloseSessionReq", 473}, {"CloseSessionRsp", 476},
    {"ReadReq", 631}, {"ReadRsp", 634},
};

// A sequence of values in one buffer: written one after the other (in groups), read back in order.
template <std::size_t N>
void roundTrip(Src& s, Ctx& ctx, Entry const (&table)[N], std::size_t maxItems)
{
    setLogging(s.chance(1, 16));
    OpcUaSduBuffer buf;
    OpcUaBinaryCodec codec(buf);
    std::vector<std::unique_ptr<Item>> items;
    std::vector<bool> nan;
    std::string expect;
    std::size_t written = 0;
    std::size_t readPos = 0;
    bool interleave = s.coin();
    std::string names;
    do
    {
        auto const& e = pickEntry(s, table);
        auto it = e.mk(e.name);
        Gen g(s);
        it->gen(g);
        std::string const r = it->ref();
        if (written + r.size() > capacity) break;
        // encode and compare to the reference
        std::string const before = content(buf);
        it->encode(codec);
        std::string const after = content(buf);
        names += std::string(names.empty() ? "" : ",") + e.name;
        ctx.label(e.name);
        if (ctx.wantText) ctx.say(fmt("%s expected %s", e.name, hex(r, 48).c_str()));
        PBT_REQUIRE(after.size() == before.size() + r.size() && after.compare(0, before.size(), before) == 0,
            "encoding %s must append exactly %zu bytes and leave the earlier ones alone: before %s after %s", e.name, r.size(), hex(before, 32).c_str(), hex(after, 64).c_str());
        PBT_REQUIRE(after.substr(before.size()) == r, "%s encoded as %s, expected %s", e.name, hex(after.substr(before.size()), 200).c_str(), hex(r, 200).c_str());
        for (auto const& k : knownIds)
            if (std::strcmp(k.name, e.name) == 0)
                PBT_REQUIRE(r.size() >= 4 && r[0] == 1 && r[1] == 0 && (unsigned char)r[2] == (k.id & 0xff) && (unsigned char)r[3] == (k.id >> 8), "type id of %s", e.name);
        written += r.size();
        items.push_back(std::move(it));
        nan.push_back(g.sawNaN);
        if (interleave && s.coin())
        {
            // read back the oldest unread one
            auto& o = items[readPos];
            auto f = o->fresh();
            f->decode(codec);
            PBT_REQUIRE(f->ref() == o->ref(), "%s decoded differently: %s instead of %s", o->name(), hex(f->ref(), 200).c_str(), hex(o->ref(), 200).c_str());
            readPos += 1;
        }
    } while (items.size() < maxItems && s.more(3));
    for (; readPos < items.size(); ++readPos)
    {
        auto& o = items[readPos];
        auto f = o->fresh();
        f->decode(codec);
        PBT_REQUIRE(f->ref() == o->ref(), "%s decoded differently: %s instead of %s", o->name(), hex(f->ref(), 200).c_str(), hex(o->ref(), 200).c_str());
        if (!nan[readPos])
        {
            PBT_REQUIRE(o->same(*o), "%s does not equal itself", o->name());
            PBT_REQUIRE(o->same(*f) && f->same(*o), "decoded %s does not compare equal to the original", o->name());
        }
    }
    PBT_REQUIRE(buf.begin() == buf.end(), "decoding left %ld bytes unread after %s", long(buf.end() - buf.begin()), names.c_str());
    if (written > 8) ctx.nontrivial();
}

// Values that differ must be told apart by ==.
void distinguishes(Src& s, Ctx& ctx)
{
    setLogging(false);
    auto const& e = pickEntry(s, builtin);
    auto a = e.mk(e.name), b = e.mk(e.name);
    Gen g(s);
    a->gen(g);
    b->gen(g);
    if (g.sawNaN || std::strchr(e.name, '[')) return;
    bool const refSame = a->ref() == b->ref();
    ctx.label(e.name);
    if (ctx.wantText) ctx.say(fmt("%s: %s vs %s", e.name, hex(a->ref(), 24).c_str(), hex(b->ref(), 24).c_str()));
    // 0.0 and -0.0 have different encodings but are equal
    if (!refSame && (std::strcmp(e.name, "Float") == 0 || std::strcmp(e.name, "Double") == 0 || std::strcmp(e.name, "Variant") == 0 || std::strcmp(e.name, "DataValue") == 0)) return;
    PBT_REQUIRE(a->same(*b) == refSame, "%s: == says %d for %s and %s", e.name, a->same(*b), hex(a->ref()).c_str(), hex(b->ref()).c_str());
    ctx.nontrivial();
}

Entry const& anyEntry(Src& s) { return s.coin() ? pickEntry(s, messages) : pickEntry(s, builtin); }

void load(OpcUaSduBuffer& buf, std::string const& data)
{
    std::memcpy(buf.end(), data.data(), data.size());
    buf.seek(data.size());
}

// A strict prefix of a valid encoding is never accepted as the complete value.
void truncated(Src& s, Ctx& ctx)
{
    setLogging(s.chance(1, 16));
    auto const& e = anyEntry(s);
    auto it = e.mk(e.name);
    Gen g(s);
    it->gen(g);
    std::string const r = it->ref();
    if (r.empty() || r.size() > capacity) throw pbt::Discard{};
    std::size_t const cut = s.below(r.size());
    auto buf = std::make_unique<OpcUaSduBuffer>();
    // the bytes behind the received data are whatever an earlier message left there
    std::string const stale = r;
    if (s.coin()) { std::memset(buf->end(), static_cast<int>(s.pick({0, 0xff, 1})), capacity); }
    else std::memcpy(buf->end(), stale.data(), stale.size());
    load(*buf, r.substr(0, cut));
    if (ctx.wantText) ctx.say(fmt("%s cut to %zu of %zu bytes: %s", e.name, cut, r.size(), hex(r.substr(0, cut), 48).c_str()));
    ctx.label(e.name);
    OpcUaBinaryCodec codec(*buf);
    auto f = it->fresh();
    bool threw = false;
    try { f->decode(codec); } catch (std::exception const&) { threw = true; }
    PBT_REQUIRE(threw, "%s: %zu of %zu bytes were decoded as if the message were complete", e.name, cut, r.size());
    ctx.nontrivial();
}

std::string mutate(Src& s, std::string r)
{
    static std::uint32_t const nasty[] = {0xffffffffu, 0xfffffffeu, 0x7fffffffu, 0x80000000u, 0x10000u, 0x1000u, 0x100000u, 0x10000000u, 0u, 0x40000000u, 0x7ffffff0u};
    do
    {
        switch (s.below(7))
        {
        case 0: if (r.size()) r[s.below(r.size())] = static_cast<char>(s.below(256)); break;
        case 1: if (r.size()) r[s.below(r.size())] ^= static_cast<char>(1u << s.below(8)); break;
        case 2: if (r.size()) r.resize(s.below(r.size() + 1)); break;
        case 3: if (r.size() >= 4) { std::size_t p = s.below(r.size() - 3); std::uint32_t v = s.pick(nasty); for (int i = 0; i < 4; ++i) r[p + i] = static_cast<char>(v >> (8 * i)); } break;
        case 4: r += s.bytes(32, 6); break;
        case 5: if (r.size()) { std::size_t p = s.below(r.size()); std::size_t l = s.range(1, 16); r.insert(p, s.bytesExact(l)); } break;
        case 6: if (r.size()) { std::size_t p = s.below(r.size()); r.erase(p, s.range(1, 16)); } break;
        }
    } while (s.more(2));
    if (r.size() > capacity) r.resize(capacity);
    return r;
}

void malformed(Src& s, Ctx& ctx)
{
    setLogging(s.chance(1, 16));
    auto const& e = anyEntry(s);
    std::string data;
    switch (s.below(4))
    {
    case 0: data = s.bytes(4096, 64); break;
    case 1: { static std::uint8_t const fill[] = {0x40, 0x00, 0xff, 0x96, 0x97, 0x01, 0x80, 0x98}; data = std::string(s.pick({16u, 64u, 4096u, 4095u, 1000u}), static_cast<char>(s.pick(fill))); data = mutate(s, data); break; }
    default:
    {
        auto it = e.mk(e.name);
        Gen g(s);
        it->gen(g);
        data = it->ref();
        if (data.size() > capacity) data.resize(capacity);
        data = mutate(s, data);
    }
    }
    if (s.chance(1, 6)) { data.insert(0, std::string(capacity > data.size() ? capacity - data.size() : 0, '\0')); }
    auto buf = std::make_unique<OpcUaSduBuffer>();
    std::size_t skip = 0;
    load(*buf, data);
    // valid prefix consumed earlier (headers) so that the value starts somewhere in the middle
    if (s.chance(1, 3)) { skip = s.below(data.size() + 1); for (std::size_t i = 0; i < skip; ++i) { OpcUaBinaryCodec c(*buf); Byte b; c >> b; } }
    if (ctx.wantText) ctx.say(fmt("decode as %s from offset %zu: %s", e.name, skip, hex(data, 64).c_str()));
    ctx.label(e.name);
    OpcUaBinaryCodec codec(*buf);
    auto f = e.mk(e.name);
    peakAlloc = liveAlloc;
    std::size_t const base = liveAlloc;
    bool threw = false;
    try { f->decode(codec); } catch (std::exception const&) { threw = true; }
    std::size_t const used = peakAlloc - base;
    ctx.label(threw ? "rejected" : "accepted");
    PBT_REQUIRE(buf->begin() <= buf->end(), "%s decoder read %ld bytes past the end of the received data", e.name, long(buf->begin() - buf->end()));
    PBT_REQUIRE(used <= (64u << 20), "%s: decoding %zu received bytes took %zu bytes of memory", e.name, data.size(), used);
    if (data.size() > 2) ctx.nontrivial();
}

// Encoding more than fits is refused, and what was already encoded stays intact.
void encodeOverflow(Src& s, Ctx& ctx)
{
    setLogging(false);
    auto holder = std::make_unique<OpcUaSduBuffer>();
    OpcUaSduBuffer& buf = *holder;
    OpcUaBinaryCodec codec(buf);
    std::size_t const pre = s.coin() ? s.range(3600, capacity) : s.below(capacity + 1);
    for (std::size_t i = 0; i < pre; ++i) { Byte b{static_cast<Byte::Type>(i * 13 + 5)}; codec << b; }
    auto const& e = anyEntry(s);
    auto it = e.mk(e.name);
    Gen g(s);
    it->gen(g);
    std::string const r = it->ref();
    bool const fits = pre + r.size() <= capacity;
    ctx.label(fits ? "fits" : "does not fit");
    if (ctx.wantText) ctx.say(fmt("%s of %zu bytes after %zu bytes", e.name, r.size(), pre));
    bool threw = false;
    try { it->encode(codec); } catch (std::exception const&) { threw = true; }
    PBT_REQUIRE(threw == !fits, "%s of %zu bytes after %zu bytes: %s", e.name, r.size(), pre, threw ? "refused although it fits" : "accepted although it does not fit");
    std::string const c = content(buf);
    PBT_REQUIRE(c.size() >= pre && c.size() <= capacity, "%zu bytes in the buffer", c.size());
    for (std::size_t i = 0; i < pre; ++i) PBT_REQUIRE(static_cast<std::uint8_t>(c[i]) == static_cast<std::uint8_t>(i * 13 + 5), "earlier byte %zu changed", i);
    if (fits) PBT_REQUIRE(c.substr(pre) == r, "content");
    if (!fits) ctx.nontrivial();
}

// Valid encodings other than the one the encoder chooses decode to the same value.
void alternative(Src& s, Ctx& ctx)
{
    setLogging(false);
    Gen g(s);
    uaref::Bytes w;
    auto encNode = [&](NodeId const& v, unsigned flags)
    {
        auto* p = std::get_if<UInt32>(&v.value);
        if (!p) { uaref::encNodeId(w, v, flags); return; }
        std::uint32_t const ns = static_cast<UInt16::Type>(v.namespaceIndex), id = static_cast<UInt32::Type>(*p);
        std::vector<int> forms{2};
        if (ns < 256 && id < 65536) forms.push_back(1);
        if (ns == 0 && id < 256) forms.push_back(0);
        int const f = s.pick(forms);
        w.u8(f | flags);
        if (f == 0) w.u8(id);
        else if (f == 1) { w.u8(ns); w.le(id, 2); }
        else { w.le(ns, 2); w.le(id, 4); }
    };
    auto encStr = [&](std::string const& t)
    {
        if (t.empty() && s.coin()) { w.le(0, 4); return; }
        uaref::encStr(w, t);
    };
    std::vector<std::pair<std::unique_ptr<Item>, std::string>> expect;     // fresh item, canonical bytes
    auto add = [&]<typename T>(char const* n, T const& v)
    {
        expect.emplace_back(std::make_unique<ItemOf<T>>(n), uaref::refBytes(v));
        ctx.label(n);
    };
    do
    {
        switch (s.below(8))
        {
        case 0: { NodeId v; g(v); encNode(v, 0); add("NodeId", v); break; }
        case 1: { String v; if (s.coin()) g(v); encStr(v.val); add("String", v); break; }
        case 2: { ByteString v; if (s.coin()) g(v); encStr(v.val); add("ByteString", v); break; }
        case 3: { Boolean v{true}; w.u8(s.range(1, 255)); add("Boolean", v); break; }
        case 4: { ExpandedNodeId v; g(v); encNode(v.nodeId, (v.namespaceUri ? 0x80 : 0) | (v.serverIndex ? 0x40 : 0)); if (v.namespaceUri) uaref::enc(w, *v.namespaceUri); if (v.serverIndex) uaref::enc(w, *v.serverIndex); add("ExpandedNodeId", v); break; }
        case 5: { ExtensionObject v; g(v.nodeId); encNode(v.nodeId, 0); w.u8(1); std::string b = s.bytes(20, 3); encStr(b); if (b.size()) v.byteString.emplace().val = b; add("ExtensionObject", v); break; }
        case 6: { LocalizedText v; std::string l = s.bytes(10, 2), t = s.bytes(10, 2); w.u8(3); encStr(l); encStr(t); v.locale.emplace().val = l; v.text.emplace().val = t; add("LocalizedText", v); break; }
        default: { DynamicArray<UInt32> v; w.le(0xffffffffu, 4); add("null array", v); break; }
        }
    } while (w.b.size() < 3000 && s.more(3));
    if (w.b.size() > capacity) throw pbt::Discard{};
    if (ctx.wantText) ctx.say("bytes " + hex(w.b, 64));
    OpcUaSduBuffer buf;
    std::memcpy(buf.end(), w.b.data(), w.b.size());
    buf.seek(w.b.size());
    OpcUaBinaryCodec codec(buf);
    for (auto& [it, ref] : expect)
    {
        it->decode(codec);
        PBT_REQUIRE(it->ref() == ref, "%s decoded as %s instead of %s", it->name(), hex(it->ref(), 100).c_str(), hex(ref, 100).c_str());
    }
    PBT_REQUIRE(buf.begin() == buf.end(), "%ld bytes unread", long(buf.end() - buf.begin()));
    if (expect.size() > 1) ctx.nontrivial();
}

void c01(Src& s, Ctx& ctx) { roundTrip(s, ctx, builtin, 12); }
void c02(Src& s, Ctx& ctx) { roundTrip(s, ctx, messages, 4); }

PBT_SUB("C01", "values", "1-12 random values of the 24 built-in types and arrays of them, encoded one after the other into one buffer, compared byte by byte with an independent encoder and decoded back; non-trivial: more than 8 bytes encoded", 400000, 12000000, c01);
PBT_SUB("C01", "equality", "pairs of random values of one type; == must agree with the reference encoding; non-trivial: both values were compared", 400000, 6000000, distinguishes);
PBT_SUB("C01", "alternative", "1..n values in valid encodings the encoder itself does not choose (longer node id forms, zero-length strings, non-1 booleans, null arrays) decode to the same values; non-trivial: at least two values in the buffer", 300000, 6000000, alternative);
PBT_SUB("C02", "messages", "1-4 random messages or headers (31 kinds), encoded into one buffer, compared byte by byte with an independent encoder listing the fields in specification order, and decoded back; non-trivial: more than 8 bytes encoded", 500000, 15000000, c02);
PBT_SUB("C03", "truncated", "a strict prefix of a valid encoding (any of the 70 kinds), over stale or constant bytes, must be refused; every case is non-trivial", 400000, 10000000, truncated);
PBT_SUB("C03", "malformed", "mutated valid encodings and raw byte strings decoded as any kind: no out-of-bounds access, no crash, no read past the data, bounded memory; non-trivial: at least 3 bytes of input", 800000, 25000000, malformed);
PBT_SUB("C03", "overflow", "encoding any value after any number of earlier bytes: refused exactly when it does not fit, earlier bytes intact; non-trivial: the value does not fit", 200000, 5000000, encodeOverflow);

} // namespace
