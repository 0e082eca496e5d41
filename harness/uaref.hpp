// Independent reference for the OPC UA binary encoding (OPC UA Part 6) of every type the
// repository encodes, plus a random generator for each of them.
#pragma once

#include "pbt.hpp"
#include "OpcUaBinaryCodec.hpp"

#include <cmath>
#include <cstring>
#include <string>

namespace uaref
{

using namespace app::ua;

// ---------------------------------------------------------------- reference encoder
struct Bytes
{
    std::string b;
    void u8(std::uint64_t v) { b += static_cast<char>(v & 0xff); }
    void le(std::uint64_t v, unsigned n) { for (unsigned i = 0; i < n; ++i) u8(v >> (8 * i)); }
};

inline void enc(Bytes& w, Boolean const& v) { w.u8(static_cast<Boolean::Type>(v) ? 1 : 0); }
inline void enc(Bytes& w, SByte const& v) { w.u8(static_cast<std::uint8_t>(static_cast<SByte::Type>(v))); }
inline void enc(Bytes& w, Byte const& v) { w.u8(static_cast<Byte::Type>(v)); }
inline void enc(Bytes& w, Int16 const& v) { w.le(static_cast<std::uint16_t>(static_cast<Int16::Type>(v)), 2); }
inline void enc(Bytes& w, UInt16 const& v) { w.le(static_cast<UInt16::Type>(v), 2); }
inline void enc(Bytes& w, Int32 const& v) { w.le(static_cast<std::uint32_t>(static_cast<Int32::Type>(v)), 4); }
inline void enc(Bytes& w, UInt32 const& v) { w.le(static_cast<UInt32::Type>(v), 4); }
inline void enc(Bytes& w, Int64 const& v) { w.le(static_cast<std::uint64_t>(static_cast<Int64::Type>(v)), 8); }
inline void enc(Bytes& w, UInt64 const& v) { w.le(static_cast<UInt64::Type>(v), 8); }
inline void enc(Bytes& w, Float const& v) { float f = static_cast<Float::Type>(v); std::uint32_t u; std::memcpy(&u, &f, 4); w.le(u, 4); }
inline void enc(Bytes& w, Double const& v) { double f = static_cast<Double::Type>(v); std::uint64_t u; std::memcpy(&u, &f, 8); w.le(u, 8); }
inline void enc(Bytes& w, DateTime const& v) { w.le(static_cast<std::uint64_t>(static_cast<DateTime::Type>(v)), 8); }
inline void enc(Bytes& w, StatusCode const& v) { w.le(static_cast<StatusCode::Type>(v), 4); }
inline void encStr(Bytes& w, std::string const& s)
{
    // null and empty strings are not told apart by the repository: both are sent as null (-1)
    if (s.empty()) { w.le(0xffffffffu, 4); return; }
    w.le(s.size(), 4);
    w.b += s;
}
inline void enc(Bytes& w, String const& v) { encStr(w, v.val); }
inline void enc(Bytes& w, ByteString const& v) { encStr(w, v.val); }
template <typename T> void enc(Bytes& w, DynamicArray<T> const& v);
inline void enc(Bytes& w, Guid const& v)
{
    enc(w, v.data1); enc(w, v.data2); enc(w, v.data3);
    for (auto const& d : v.data4) enc(w, d);
}
inline void encNodeId(Bytes& w, NodeId const& v, unsigned flags)
{
    std::uint32_t const ns = static_cast<UInt16::Type>(v.namespaceIndex);
    if (auto* p = std::get_if<UInt32>(&v.value))
    {
        std::uint32_t const id = static_cast<UInt32::Type>(*p);
        if (ns == 0 && id <= 0xff) { w.u8(0 | flags); w.u8(id); }
        else if (ns <= 0xff && id <= 0xffff) { w.u8(1 | flags); w.u8(ns); w.le(id, 2); }
        else { w.u8(2 | flags); w.le(ns, 2); w.le(id, 4); }
    }
    // String and Opaque(ByteString) are distinct alternatives
    else if (v.value.index() == 1) { w.u8(3 | flags); w.le(ns, 2); enc(w, std::get<1>(v.value)); }
    else if (v.value.index() == 2) { w.u8(4 | flags); w.le(ns, 2); enc(w, std::get<2>(v.value)); }
    else { w.u8(5 | flags); w.le(ns, 2); enc(w, std::get<3>(v.value)); }
}
inline void enc(Bytes& w, NodeId const& v) { encNodeId(w, v, 0); }
inline void enc(Bytes& w, ExpandedNodeId const& v)
{
    bool const uri = v.namespaceUri && v.namespaceUri->val.size();
    bool const srv = v.serverIndex.has_value();
    encNodeId(w, v.nodeId, (uri ? 0x80 : 0) | (srv ? 0x40 : 0));
    if (uri) enc(w, *v.namespaceUri);
    if (srv) enc(w, *v.serverIndex);
}
inline void enc(Bytes& w, QualifiedName const& v) { enc(w, v.namespaceIndex); enc(w, v.name); }
inline void enc(Bytes& w, LocalizedText const& v)
{
    bool const l = v.locale && v.locale->val.size();
    bool const t = v.text && v.text->val.size();
    w.u8((l ? 1 : 0) | (t ? 2 : 0));
    if (l) enc(w, *v.locale);
    if (t) enc(w, *v.text);
}
inline void enc(Bytes& w, ExtensionObject const& v)
{
    enc(w, v.nodeId);
    bool const body = v.byteString && v.byteString->val.size();
    w.u8(body ? 1 : 0);
    if (body) enc(w, *v.byteString);
}
inline void enc(Bytes& w, XmlElement const&) { (void)w; }
inline void enc(Bytes& w, Variant const& v)
{
    if (!v.value) { w.u8(0); return; }
    std::size_t const idx = v.value->index();
    bool const arr = idx >= 22;
    bool const dims = arr && v.arrayDimensions.has_value();
    w.u8((idx % 22 + 1) | (arr ? 0x80 : 0) | (dims ? 0x40 : 0));
    std::visit([&](auto const& x) { enc(w, x); }, *v.value);
    if (dims) enc(w, *v.arrayDimensions);
}
inline void enc(Bytes& w, DataValue const& v)
{
    // Part 6, table 24: 1 value, 2 status, 4 source ts, 8 server ts, 0x10 source pico, 0x20 server pico;
    // fields in the order value, status, source ts, source pico, server ts, server pico
    w.u8((v.value.value ? 1 : 0) | (v.status ? 2 : 0) | (v.sourceTimestampt ? 4 : 0) | (v.serverTimeStampt ? 8 : 0)
        | (v.sourcePicoSeconds ? 0x10 : 0) | (v.serverPicoSeconds ? 0x20 : 0));
    if (v.value.value) enc(w, v.value);
    if (v.status) enc(w, *v.status);
    if (v.sourceTimestampt) enc(w, *v.sourceTimestampt);
    if (v.sourcePicoSeconds) enc(w, *v.sourcePicoSeconds);
    if (v.serverTimeStampt) enc(w, *v.serverTimeStampt);
    if (v.serverPicoSeconds) enc(w, *v.serverPicoSeconds);
}
inline void enc(Bytes& w, DiagnosticInfo const& v)
{
    // Part 6, table 23: 1 symbolicId, 2 namespaceUri, 4 localizedText, 8 locale, 0x10 additionalInfo,
    // 0x20 innerStatusCode, 0x40 innerDiagnosticInfo; fields symbolicId, namespaceUri, locale, localizedText, ...
    w.u8((v.symbolicId ? 1 : 0) | (v.namespaceUri ? 2 : 0) | (v.localizedText ? 4 : 0) | (v.locale ? 8 : 0)
        | (v.additionalInfo ? 0x10 : 0) | (v.innerStatusCode ? 0x20 : 0) | (v.innerDiagnosticInfo ? 0x40 : 0));
    if (v.symbolicId) enc(w, *v.symbolicId);
    if (v.namespaceUri) enc(w, *v.namespaceUri);
    if (v.locale) enc(w, *v.locale);
    if (v.localizedText) enc(w, *v.localizedText);
    if (v.additionalInfo) enc(w, *v.additionalInfo);
    if (v.innerStatusCode) enc(w, *v.innerStatusCode);
    if (v.innerDiagnosticInfo) enc(w, *v.innerDiagnosticInfo);
}
template <typename T> void enc(Bytes& w, DynamicArray<T> const& v)
{
    w.le(v.size(), 4);
    for (auto const& e : v) enc(w, e);
}

// ---------------------------------------------------------------- generators
struct Gen
{
    pbt::Src& s;
    bool sawNaN{false};
    unsigned depth{0};

    explicit Gen(pbt::Src& src) : s(src) {}

    void operator()(Boolean& v) { v = static_cast<Boolean::Type>(s.coin()); }
    void operator()(SByte& v) { v = static_cast<std::int8_t>(s.integer(8)); }
    void operator()(Byte& v) { v = static_cast<std::uint8_t>(s.integer(8)); }
    void operator()(Int16& v) { v = static_cast<std::int16_t>(s.integer(16)); }
    void operator()(UInt16& v) { v = static_cast<std::uint16_t>(s.integer(16)); }
    void operator()(Int32& v) { v = static_cast<std::int32_t>(s.integer(32)); }
    void operator()(UInt32& v) { v = static_cast<std::uint32_t>(s.integer(32)); }
    void operator()(Int64& v) { v = static_cast<std::int64_t>(s.integer(64)); }
    void operator()(UInt64& v) { v = s.integer(64); }
    void operator()(Float& v)
    {
        static float const special[] = {0.f, 1.f, -1.f, 1.5f, -6.5f, INFINITY, -INFINITY, 1e-42f, 3.4e38f, -0.f};
        float f;
        if (s.coin()) f = s.pick(special);
        else { std::uint32_t u = s.below(1ull << 32); std::memcpy(&f, &u, 4); if (std::isnan(f)) { u = 0x7fc00000; std::memcpy(&f, &u, 4); } }
        if (std::isnan(f)) sawNaN = true;
        v = f;
    }
    void operator()(Double& v)
    {
        static double const special[] = {0., 1., -1., 1.5, -6.5, INFINITY, -INFINITY, 1e-320, 1.7e308, -0.};
        double f;
        if (s.coin()) f = s.pick(special);
        else { std::uint64_t u = s.below(0); std::memcpy(&f, &u, 8); if (std::isnan(f)) { u = 0x7ff8000000000000ull; std::memcpy(&f, &u, 8); } }
        if (std::isnan(f)) sawNaN = true;
        v = f;
    }
    void operator()(DateTime& v) { v = static_cast<std::int64_t>(s.integer(64)); }
    void operator()(StatusCode& v) { v = static_cast<std::uint32_t>(s.integer(32)); }
    void operator()(String& v) { v.val = str(); }
    void operator()(ByteString& v) { v.val = str(); }
    std::string str()
    {
        switch (s.below(8))
        {
        case 0: return {};
        case 1: return s.bytesExact(s.range(1, 300));
        default: return s.bytes(40, 6);
        }
    }
    std::string strNonEmpty() { std::string r = str(); if (r.empty()) r = "x"; return r; }
    void operator()(Guid& v) { (*this)(v.data1); (*this)(v.data2); (*this)(v.data3); for (auto& d : v.data4) (*this)(d); }
    void operator()(NodeId& v)
    {
        switch (s.below(7))
        {
        case 0: v.namespaceIndex = 0; v.value.emplace<0>() = static_cast<std::uint32_t>(s.below(256)); break;
        case 1: v.namespaceIndex = static_cast<std::uint16_t>(s.below(256)); v.value.emplace<0>() = static_cast<std::uint32_t>(s.below(65536)); break;
        case 2: (*this)(v.namespaceIndex); (*this)(v.value.emplace<0>()); break;
        case 3: (*this)(v.namespaceIndex); (*this)(v.value.emplace<1>()); break;
        case 4: (*this)(v.namespaceIndex); (*this)(v.value.emplace<2>()); break;
        case 5: (*this)(v.namespaceIndex); (*this)(v.value.emplace<3>()); break;
        default:
        {
            static std::uint16_t const ns[] = {0, 1, 255, 256, 257, 65535};
            static std::uint32_t const id[] = {0, 1, 255, 256, 257, 65535, 65536, 65537, 0xffffffffu};
            v.namespaceIndex = s.pick(ns);
            v.value.emplace<0>() = s.pick(id);
        }
        }
    }
    void operator()(ExpandedNodeId& v)
    {
        (*this)(v.nodeId);
        if (s.coin()) v.namespaceUri.emplace().val = strNonEmpty();
        if (s.coin()) (*this)(v.serverIndex.emplace());
    }
    void operator()(QualifiedName& v) { (*this)(v.namespaceIndex); (*this)(v.name); }
    void operator()(LocalizedText& v)
    {
        if (s.coin()) v.locale.emplace().val = strNonEmpty();
        if (s.coin()) v.text.emplace().val = strNonEmpty();
    }
    void operator()(ExtensionObject& v)
    {
        (*this)(v.nodeId);
        if (s.coin()) v.byteString.emplace().val = strNonEmpty();
    }
    template <typename T> void opt(Opt<T>& o) { if (s.coin()) (*this)(o.emplace()); }
    template <std::size_t I> void variantAlt(Variant& v)
    {
        v.value = std::make_unique<Variant::Value>();
        (*this)(v.value->emplace<I>());
    }
    template <std::size_t... I> void variantPick(Variant& v, std::size_t k, std::index_sequence<I...>)
    {
        ((k == I ? variantAlt<I>(v) : void()), ...);
    }
    void operator()(XmlElement&) {}
    void operator()(Variant& v)
    {
        if (s.below(12) == 0) return;
        std::size_t k = s.below(44);
        if (k % 22 == 15) k += 1;        // XML elements are not supported by the encoding
        variantPick(v, k, std::make_index_sequence<44>{});
        if (k >= 22 && s.chance(1, 4)) (*this)(v.arrayDimensions.emplace());
    }
    void operator()(DataValue& v)
    {
        if (s.coin()) (*this)(v.value);
        opt(v.status); opt(v.sourceTimestampt); opt(v.sourcePicoSeconds); opt(v.serverTimeStampt); opt(v.serverPicoSeconds);
    }
    void operator()(DiagnosticInfo& v)
    {
        opt(v.symbolicId); opt(v.namespaceUri); opt(v.locale); opt(v.localizedText); opt(v.additionalInfo); opt(v.innerStatusCode);
        if (depth < 4 && s.chance(1, 3))
        {
            depth += 1;
            v.innerDiagnosticInfo = std::make_unique<DiagnosticInfo>();
            (*this)(*v.innerDiagnosticInfo);
            depth -= 1;
        }
    }
    template <typename T> void operator()(DynamicArray<T>& v)
    {
        unsigned const mean = depth > 1 ? 1 : 3;
        depth += 1;
        while (v.size() < 40 && s.more(mean)) (*this)(v.emplace_back());
        depth -= 1;
    }
    template <typename T, std::size_t N> void operator()(std::array<T, N>& v) { for (auto& e : v) (*this)(e); }
};

// ---------------------------------------------------------------- structured messages
// Field lists in the order of the OPC UA specification; used for encoding and generating.
#define UAREF_FIELDS(TYPE, ...) \
    template <typename F> void fields(TYPE& v, F&& f) { UAREF_EXPAND_DISPATCH(__VA_ARGS__) }
#define UAREF_F(x) f(v.x);

template <typename F> void fields(MessageHeader& v, F&& f) { f(v.messageType); f(v.isFinal); f(v.messageSize); }
template <typename F> void fields(UaMessageHeader& v, F&& f) { f(v.messageType); f(v.isFinal); f(v.messageSize); f(v.secureChannelId); }
template <typename F> void fields(HelloMessage& v, F&& f) { f(v.protocolVersion); f(v.receiveBufferSize); f(v.sendBufferSize); f(v.maxMessageSize); f(v.maxChunkCount); f(v.endpointUrl); }
template <typename F> void fields(AcknowledgeMessage& v, F&& f) { f(v.protocolVersion); f(v.receiveBufferSize); f(v.sendBufferSize); f(v.maxMessageSize); f(v.maxChunkCount); }
template <typename F> void fields(ErrorMessage& v, F&& f) { f(v.error); f(v.reason); }
template <typename F> void fields(ReverseHelloMessage& v, F&& f) { f(v.serverUri); f(v.endpointUrl); }
template <typename F> void fields(UaSecurityHeader& v, F&& f) { f(v.securityPolicyUri); f(v.senderCertificate); f(v.receiverCertificateThumbprint); }
template <typename F> void fields(UaSecurityTokenHeader& v, F&& f) { f(v.tokenId); }
template <typename F> void fields(UaSequenceHeader& v, F&& f) { f(v.sequenceNumber); f(v.requestId); }
template <typename F> void fields(UaRequestHeader& v, F&& f) { f(v.authentificationToken); f(v.timestamp); f(v.requestHandle); f(v.returnDignostics); f(v.auditEntityId); f(v.timeoutHint); f(v.additionalHeader); }
template <typename F> void fields(UaResponseHeader& v, F&& f) { f(v.timestamp); f(v.requestHandle); f(v.serviceResult); f(v.serviceDiagnostics); f(v.stringTable); f(v.additionalHeader); }
template <typename F> void fields(UaChannelSecurityToken& v, F&& f) { f(v.secureChannelId); f(v.tokenId); f(v.createdAt); f(v.revisedLifetime); }
template <typename F> void fields(UaOpenSecureChannelReq& v, F&& f) { f(v.requestHdr); f(v.clientProtocolVer); f(v.securityTokenRequestType); f(v.securityMode); f(v.clientNonce); f(v.requestLifetime); }
template <typename F> void fields(UaOpenSecureChannelRsp& v, F&& f) { f(v.responseHdr); f(v.serverProtocolVer); f(v.securityToken); f(v.serverNonce); }
template <typename F> void fields(UaCloseSecureChannelReq& v, F&& f) { f(v.requestHdr); }
template <typename F> void fields(UaCloseSecureChannelRsp& v, F&& f) { f(v.responseHdr); }
template <typename F> void fields(UaApplicationDescription& v, F&& f) { f(v.applicationUri); f(v.productUri); f(v.applicationName); f(v.applicationType); f(v.gatewayServerUri); f(v.discoveryProfileUri); f(v.discoveryUrls); }
template <typename F> void fields(UaUserTokenPolicy& v, F&& f) { f(v.policyId); f(v.tokenType); f(v.issuedTokenType); f(v.issuerEndpointUrl); f(v.securityPolicyUri); }
template <typename F> void fields(UaEndpointDescription& v, F&& f) { f(v.endpointUrl); f(v.server); f(v.serverCertificate); f(v.securityMode); f(v.securityPolicyUri); f(v.userIdentityTokens); f(v.transportProfileUri); f(v.securityLevel); }
template <typename F> void fields(UaSignatureData& v, F&& f) { f(v.algorithm); f(v.signature); }
template <typename F> void fields(UaGetEndpointsReq& v, F&& f) { f(v.requestHdr); f(v.endpointUrl); f(v.localeIds); f(v.profileUris); }
template <typename F> void fields(UaGetEndpointsRsp& v, F&& f) { f(v.responseHdr); f(v.endpointDescription); }
template <typename F> void fields(UaCreateSessionReq& v, F&& f) { f(v.requestHdr); f(v.clientDescription); f(v.serverUri); f(v.endpointUrl); f(v.sessionName); f(v.clientNonce); f(v.clientCertificate); f(v.requestedSessionTimeout); f(v.maxResponseMessageSize); }
template <typename F> void fields(UaCreateSessionRsp& v, F&& f) { f(v.responseHdr); f(v.sessionId); f(v.authenticationToken); f(v.revisedSessionTimeout); f(v.serverNonce); f(v.serverCertificate); f(v.serverEndpoints); f(v.signedSoftwareCertificate); f(v.serverSignature); f(v.maxRequestMessageSize); }
template <typename F> void fields(UaActivateSessionReq& v, F&& f) { f(v.requestHdr); f(v.clientSignature); f(v.clientSoftwareCertificates); f(v.localeIds); f(v.userIdentityToken); f(v.userTokenSignature); }
template <typename F> void fields(UaActivateSessionRsp& v, F&& f) { f(v.responseHdr); f(v.serverNonce); f(v.results); f(v.diagnosticInfos); }
template <typename F> void fields(UaCloseSessionReq& v, F&& f) { f(v.requestHdr); f(v.deleteSubscriptions); }
template <typename F> void fields(UaCloseSessionRsp& v, F&& f) { f(v.responseHdr); }
template <typename F> void fields(ReadValueId& v, F&& f) { f(v.nodeId); f(v.attributeId); f(v.indexRange); f(v.dataEncoding); }
template <typename F> void fields(UaReadReq& v, F&& f) { f(v.requestHdr); f(v.maxAge); f(v.timestampsToReturn); f(v.nodesToRead); }
template <typename F> void fields(UaReadRsp& v, F&& f) { f(v.responseHdr); f(v.results); f(v.diagnosticInfos); }

struct EncVisitor;
template <typename T> concept HasFields = requires(T& t) { fields(t, [](auto&) {}); };

struct EncVisitor
{
    Bytes& w;
    template <typename T> void operator()(T& v)
    {
        if constexpr (HasFields<T>) fields(v, *this);
        else enc(w, v);
    }
    template <typename T> void operator()(DynamicArray<T>& v)
    {
        if constexpr (HasFields<T>) { w.le(v.size(), 4); for (auto& e : v) (*this)(e); }
        else enc(w, v);
    }
    template <typename T, std::size_t N> void operator()(std::array<T, N>& v) { for (auto& e : v) (*this)(e); }
    template <typename T, DataTypeId Id> void operator()(UaMsgCont<T, Id>& v) { (*this)(v.eNodeId); (*this)(v.msg); }
};

struct GenVisitor
{
    Gen& g;
    template <typename T> void operator()(T& v)
    {
        if constexpr (HasFields<T>) fields(v, *this);
        else g(v);
    }
    template <typename T> void operator()(DynamicArray<T>& v)
    {
        if constexpr (HasFields<T>)
        {
            g.depth += 1;
            while (v.size() < 3 && g.s.more(1)) (*this)(v.emplace_back());
            g.depth -= 1;
        }
        else g(v);
    }
    template <typename T, std::size_t N> void operator()(std::array<T, N>& v) { for (auto& e : v) (*this)(e); }
    // the type id of a message is fixed by its type; only the body is free
    template <typename T, DataTypeId Id> void operator()(UaMsgCont<T, Id>& v) { (*this)(v.msg); }
};

template <typename T> std::string refBytes(T const& v)
{
    Bytes w;
    EncVisitor e{w};
    e(const_cast<T&>(v));
    return w.b;
}

template <typename T> std::string refBytes(UaMsgCont<T, DataTypeId::Boolean> const&) = delete;

} // namespace uaref
