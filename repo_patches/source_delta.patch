From e500165268b1e77cf152f329488eecbeae59d185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:26 +0000
Subject: [PATCH 01/56] fix: bound reads and writes of the OPC UA message
 buffer

Decoding a truncated message read stale or out-of-bounds bytes, and encoding
a value that does not fit overran the buffer.
---
 src/app/common/ua/common/OpcUaSduBuffer.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/app/common/ua/common/OpcUaSduBuffer.cpp b/src/app/common/ua/common/OpcUaSduBuffer.cpp
index d22456f..9e76b12 100644
--- a/src/app/common/ua/common/OpcUaSduBuffer.cpp
+++ b/src/app/common/ua/common/OpcUaSduBuffer.cpp
@@ -1,6 +1,8 @@
 #include "OpcUaSduBuffer.hpp"
 #include "Logger.hpp"
 
+#include <stdexcept>
+
 namespace app::ua
 {
 
@@ -17,11 +19,19 @@ OpcUaSduBuffer::~OpcUaSduBuffer()
 void OpcUaSduBuffer::write(std::uint8_t val)
 {
     //LM(GEN, LE, "end: %u, wr: %d", head, (int)val);
+    if (head >= maxPacketLen)
+    {
+        throw std::length_error("OpcUaSduBuffer: no space left");
+    }
     packet[head++] = val;
 }
 
 std::uint8_t OpcUaSduBuffer::read()
 {
+    if (tail >= head)
+    {
+        throw std::out_of_range("OpcUaSduBuffer: no data left");
+    }
     auto const& rd = packet[tail];
     //LM(GEN, LE, "tail: %u, rd: %d", tail, (int)rd);
     tail++;
-- 
2.43.0


From 32a4aa1c694a4781cf7826b37665f0e9c42df3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:07 +0000
Subject: [PATCH 02/56] fix: report the unread length of an OPC UA message
 buffer

size() ignored the bytes already consumed, so a payload copied after its
headers were decoded carried trailing garbage and was read past the data.
---
 src/app/common/ua/common/OpcUaSduBuffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/common/ua/common/OpcUaSduBuffer.cpp b/src/app/common/ua/common/OpcUaSduBuffer.cpp
index 9e76b12..920c6bd 100644
--- a/src/app/common/ua/common/OpcUaSduBuffer.cpp
+++ b/src/app/common/ua/common/OpcUaSduBuffer.cpp
@@ -60,7 +60,7 @@ std::uint8_t const* OpcUaSduBuffer::end() const
 
 std::uint32_t OpcUaSduBuffer::size() const
 {
-    return head;
+    return head - tail;
 }
 
 std::uint32_t OpcUaSduBuffer::capacity() const
-- 
2.43.0


From 88dbfa3115f9fbb66380292fba6d37a45163f012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:17 +0000
Subject: [PATCH 03/56] fix: set the expanded node id flags on its own encoding
 byte

The flags were or-ed into the first unread byte of the buffer, corrupting
whatever had been encoded before the expanded node id.
---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index 3b0efa0..fbb6dff 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -604,7 +604,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, ExpandedNodeId& data)
 
 OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, ExpandedNodeId const& data)
 {
-    uint8_t& encodingMask = *s.buf().begin();
+    uint8_t& encodingMask = *s.buf().end();
     s << data.nodeId;
     if (data.encodingMask() & 0x1)
     {
-- 
2.43.0


From c2e6b347a4ae09d9ec8688cd3562d78219c27538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:27 +0000
Subject: [PATCH 04/56] fix: reject an undecodable node id or variant instead
 of terminating

A bare rethrow without an active exception calls std::terminate, so one
malformed message ended the process.
---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index fbb6dff..74301a9 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -2,6 +2,7 @@
 #include "Logger.hpp"
 
 #include <cstring>
+#include <stdexcept>
 
 namespace app::ua
 {
@@ -398,7 +399,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, NodeId& nodeId)
     }
     break;
     default:
-        throw;
+        throw std::runtime_error("NodeId: invalid encoding");
     }
     return s;
 }
@@ -444,7 +445,7 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, NodeId const& nodeId)
     }
     else
     {
-        throw;
+        throw std::runtime_error("NodeId: invalid identifier type");
     }
     return s;
 }
@@ -772,7 +773,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, Variant& variant)
         }
         break;
         default:
-            throw;
+            throw std::runtime_error("Variant: unsupported array type");
         }
         return s;
     }
-- 
2.43.0


From e09e1cf98aab00d25bf16a9d78a16d7f2c023104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:42 +0000
Subject: [PATCH 05/56] fix: check received string and array lengths before
 allocating

A length field of a few bytes could demand gigabytes; a null array (-1) was
refused with a length error although it is a valid encoding.
---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 10 ++++++++++
 src/app/common/ua/common/OpcUaBinaryCodec.hpp |  9 +++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index 74301a9..35311c7 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -36,6 +36,14 @@ OpcUaSduBuffer const& OpcUaBinaryCodec::buf() const
     return buffer;
 }
 
+void checkLength(OpcUaBinaryCodec const& s, std::int32_t len)
+{
+    if (len < 0 || static_cast<std::uint32_t>(len) > s.buf().size())
+    {
+        throw std::length_error("OpcUaBinaryCodec: length exceeds the received data");
+    }
+}
+
 OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, Boolean& val)
 {
     val = s.read() ? true : false;
@@ -260,6 +268,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, String& val)
     {
         return s;
     }
+    checkLength(s, len);
     val.resize(len);
     for (std::int32_t i = 0; i < len; ++i)
     {
@@ -328,6 +337,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, ByteString& val)
         val.clear();
         return s;
     }
+    checkLength(s, len);
     val.resize(len);
     for (std::int32_t i = 0; i < len; ++i)
     {
diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.hpp b/src/app/common/ua/common/OpcUaBinaryCodec.hpp
index 5a0b704..5a81baa 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.hpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.hpp
@@ -77,6 +77,9 @@ private:
     OpcUaSduBuffer& buffer;
 };
 
+// throws if a received length can not be satisfied by the rest of the data
+void checkLength(OpcUaBinaryCodec const&, std::int32_t);
+
 OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec&, Boolean&);
 OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec&, Boolean const&);
 OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec&, SByte&);
@@ -241,6 +244,12 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, DynamicArray<T>& arr)
 {
     Int32 arrayLength;
     s >> arrayLength;
+    if (arrayLength == -1)
+    {
+        arr.clear();
+        return s;
+    }
+    checkLength(s, arrayLength);
     arr.resize(arrayLength);
     for (auto& it : arr)
     {
-- 
2.43.0


From 4ea5de9f94dd744192ab3b5e158a295888868f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:59 +0000
Subject: [PATCH 06/56] fix: use the specified encoding mask bits of DataValue
 and DiagnosticInfo

OPC UA Part 6 assigns 0x08 to the server timestamp and 0x10 to the source
picoseconds, and 0x04 to the localized text and 0x08 to the locale; both
pairs were swapped, so other stacks misread the fields.
---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp    | 16 ++++++++--------
 src/app/common/ua/common/types/DataValue.hpp     |  2 +-
 .../common/ua/common/types/DiagnosticInfo.hpp    |  2 +-
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index 35311c7..dfc313d 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -487,11 +487,11 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, DiagnosticInfo& diagInfo)
     {
         s >> diagInfo.namespaceUri;
     }
-    if (encodingMask & 0x4)
+    if (encodingMask & 0x8)
     {
         s >> diagInfo.locale;
     }
-    if (encodingMask & 0x8)
+    if (encodingMask & 0x4)
     {
         s >> diagInfo.localizedText;
     }
@@ -522,11 +522,11 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, DiagnosticInfo const& diagInfo
     {
         s << diagInfo.namespaceUri;
     }
-    if (encodingMask & 0x4)
+    if (encodingMask & 0x8)
     {
         s << diagInfo.locale;
     }
-    if (encodingMask & 0x8)
+    if (encodingMask & 0x4)
     {
         s << diagInfo.localizedText;
     }
@@ -688,11 +688,11 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, DataValue& data)
     {
         s >> data.sourceTimestampt;
     }
-    if (encodingMask & 0x8)
+    if (encodingMask & 0x10)
     {
         s >> data.sourcePicoSeconds;
     }
-    if (encodingMask & 0x10)
+    if (encodingMask & 0x8)
     {
         s >> data.serverTimeStampt;
     }
@@ -719,11 +719,11 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, DataValue const& data)
     {
         s << data.sourceTimestampt;
     }
-    if (encodingMask & 0x8)
+    if (encodingMask & 0x10)
     {
         s << data.sourcePicoSeconds;
     }
-    if (encodingMask & 0x10)
+    if (encodingMask & 0x8)
     {
         s << data.serverTimeStampt;
     }
diff --git a/src/app/common/ua/common/types/DataValue.hpp b/src/app/common/ua/common/types/DataValue.hpp
index 3e42eb2..66e73cb 100644
--- a/src/app/common/ua/common/types/DataValue.hpp
+++ b/src/app/common/ua/common/types/DataValue.hpp
@@ -31,8 +31,8 @@ struct DataValue : public StructType<DataTypeId::DataValue>
               value.value
             , status
             , sourceTimestampt
-            , sourcePicoSeconds
             , serverTimeStampt
+            , sourcePicoSeconds
             , serverPicoSeconds
         );
     }
diff --git a/src/app/common/ua/common/types/DiagnosticInfo.hpp b/src/app/common/ua/common/types/DiagnosticInfo.hpp
index bc81eb1..7e7b8ff 100644
--- a/src/app/common/ua/common/types/DiagnosticInfo.hpp
+++ b/src/app/common/ua/common/types/DiagnosticInfo.hpp
@@ -45,8 +45,8 @@ struct DiagnosticInfo : public StructType<DataTypeId::DiagnosticInfo>
         (
               symbolicId
             , namespaceUri
-            , locale
             , localizedText
+            , locale
             , additionalInfo
             , innerStatusCode
             , innerDiagnosticInfo
-- 
2.43.0


From 6f72b37d73229e5c45702374e0652dbebfb323b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:12 +0000
Subject: [PATCH 07/56] fix: decode variant arrays of every supported element
 type

Arrays of Int64 and all later types were encoded but could not be decoded.
---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 70 +++++++++++++++++++
 1 file changed, 70 insertions(+)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index dfc313d..b623ad8 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -782,6 +782,76 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, Variant& variant)
             s >> variant.emplace<DynamicArray<UInt32>>();
         }
         break;
+        case DataTypeId::Int64:
+        {
+            s >> variant.emplace<DynamicArray<Int64>>();
+        }
+        break;
+        case DataTypeId::UInt64:
+        {
+            s >> variant.emplace<DynamicArray<UInt64>>();
+        }
+        break;
+        case DataTypeId::Float:
+        {
+            s >> variant.emplace<DynamicArray<Float>>();
+        }
+        break;
+        case DataTypeId::Double:
+        {
+            s >> variant.emplace<DynamicArray<Double>>();
+        }
+        break;
+        case DataTypeId::String:
+        {
+            s >> variant.emplace<DynamicArray<String>>();
+        }
+        break;
+        case DataTypeId::DateTime:
+        {
+            s >> variant.emplace<DynamicArray<DateTime>>();
+        }
+        break;
+        case DataTypeId::Guid:
+        {
+            s >> variant.emplace<DynamicArray<Guid>>();
+        }
+        break;
+        case DataTypeId::ByteString:
+        {
+            s >> variant.emplace<DynamicArray<ByteString>>();
+        }
+        break;
+        case DataTypeId::NodeId:
+        {
+            s >> variant.emplace<DynamicArray<NodeId>>();
+        }
+        break;
+        case DataTypeId::ExpandedNodeId:
+        {
+            s >> variant.emplace<DynamicArray<ExpandedNodeId>>();
+        }
+        break;
+        case DataTypeId::StatusCode:
+        {
+            s >> variant.emplace<DynamicArray<StatusCode>>();
+        }
+        break;
+        case DataTypeId::QualifiedName:
+        {
+            s >> variant.emplace<DynamicArray<QualifiedName>>();
+        }
+        break;
+        case DataTypeId::LocalizedText:
+        {
+            s >> variant.emplace<DynamicArray<LocalizedText>>();
+        }
+        break;
+        case DataTypeId::ExtensionObject:
+        {
+            s >> variant.emplace<DynamicArray<ExtensionObject>>();
+        }
+        break;
         default:
             throw std::runtime_error("Variant: unsupported array type");
         }
-- 
2.43.0


From b1829459b757ff310542fc56ca146aa7b20f3f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:28 +0000
Subject: [PATCH 08/56] fix: compare absent variant array dimensions without
 dereferencing them

---
 src/app/common/ua/common/types/Variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/common/ua/common/types/Variant.hpp b/src/app/common/ua/common/types/Variant.hpp
index 9db8968..076bda9 100644
--- a/src/app/common/ua/common/types/Variant.hpp
+++ b/src/app/common/ua/common/types/Variant.hpp
@@ -92,7 +92,7 @@ struct Variant : public StructType<DataTypeId::Variant>
         {
             cmpValue = not (this->value || rhs.value);
         }
-        bool cmpArrayDimensions = *this->arrayDimensions == *rhs.arrayDimensions;
+        bool cmpArrayDimensions = this->arrayDimensions == rhs.arrayDimensions;
         return cmpValue && cmpArrayDimensions;
     }
     std::uint8_t encodingMask() const
-- 
2.43.0


From bff7356c43f82d79fd834680a3e49a50e260137b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:43 +0000
Subject: [PATCH 09/56] fix: encode and decode variant array dimensions

The dimensions of a multi-dimensional array were dropped on encoding, and on
decoding were left in the buffer and taken for the next field.
---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 8 ++++++++
 src/app/common/ua/common/types/Variant.hpp    | 3 ++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index b623ad8..195ebcc 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -855,6 +855,10 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, Variant& variant)
         default:
             throw std::runtime_error("Variant: unsupported array type");
         }
+        if (encodingMask & 0x40)
+        {
+            s >> variant.arrayDimensions;
+        }
         return s;
     }
     else
@@ -993,6 +997,10 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, Variant const& variant)
     {
         s << arg;
     }, *variant.value);
+    if (encodingMask & 0x40)
+    {
+        s << variant.arrayDimensions;
+    }
     return s;
 }
 
diff --git a/src/app/common/ua/common/types/Variant.hpp b/src/app/common/ua/common/types/Variant.hpp
index 076bda9..641b0d5 100644
--- a/src/app/common/ua/common/types/Variant.hpp
+++ b/src/app/common/ua/common/types/Variant.hpp
@@ -99,7 +99,8 @@ struct Variant : public StructType<DataTypeId::Variant>
     {
         // see type Value
         auto toDataTypeId = [](auto val) { return val < 22 ? val + 1 : ((val - 21) | 0x80); };
-        return value ? toDataTypeId(value->index()) : 0;
+        std::uint8_t const mask = value ? toDataTypeId(value->index()) : 0;
+        return (mask & 0x80) && arrayDimensions ? mask | 0x40 : mask;
     }
     template <typename T, typename...ARGS>
     T& emplace(ARGS...args)
-- 
2.43.0


From 3cf18ecf9223608a25680340588223ae4110aa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:49 +0000
Subject: [PATCH 10/56] fix: decode every field of a Modbus request

A decoded read request kept the number of bytes, and a decoded single write
the number of items, of whatever request was stored before it.
---
 src/app/modbus/ModbusCodec.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/app/modbus/ModbusCodec.cpp b/src/app/modbus/ModbusCodec.cpp
index ad35108..7ef25f6 100644
--- a/src/app/modbus/ModbusCodec.cpp
+++ b/src/app/modbus/ModbusCodec.cpp
@@ -191,6 +191,7 @@ bool ModbusCodec::decode(AduRequest& adu)
         }
         adu.startItem = buf.readBe();
         adu.numItems = buf.readBe();
+        adu.numBytes = 0;
         if (pduLen(adu.func, adu.numItems) > maxPduLen)
         {
             LM(MODBUS, LE, "ADU decode, unexpected number of items(%u) in request", adu.numItems);
@@ -207,6 +208,7 @@ bool ModbusCodec::decode(AduRequest& adu)
             return false;
         }
         adu.startItem = buf.readBe();
+        adu.numItems = 0;
         adu.numBytes = 2;
         adu.data[1] = buf.read();
         adu.data[0] = buf.read();
-- 
2.43.0


From c429fab309126625f06927ad342bc2d68eb6ea5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:22 +0000
Subject: [PATCH 11/56] fix: send the value of a single coil as 0xFF00

The coil value 0xFF00 was written low byte first, 0x00FF, which a Modbus
device has to reject.
---
 src/app/modbus/ModbusCodec.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/app/modbus/ModbusCodec.cpp b/src/app/modbus/ModbusCodec.cpp
index 7ef25f6..62143bf 100644
--- a/src/app/modbus/ModbusCodec.cpp
+++ b/src/app/modbus/ModbusCodec.cpp
@@ -121,8 +121,10 @@ bool ModbusCodec::encode(AduRequest const& adu)
         buf.write(adu.addr);
         buf.write(toUint8(adu.func));
         buf.writeBe(adu.startItem);
-        buf.write(adu.data[1]);
-        buf.write(adu.data[0]);
+        // a coil value is kept as it is sent (0xFF00 | 0x0000), a register low byte first
+        unsigned const hh = (adu.func == ModbusFunction::forceSingleCoil) ? 0 : 1;
+        buf.write(adu.data[hh]);
+        buf.write(adu.data[1 - hh]);
     }
     break;
     case ModbusFunction::presetMultipleRegisters:
@@ -210,8 +212,9 @@ bool ModbusCodec::decode(AduRequest& adu)
         adu.startItem = buf.readBe();
         adu.numItems = 0;
         adu.numBytes = 2;
-        adu.data[1] = buf.read();
-        adu.data[0] = buf.read();
+        unsigned const hh = (adu.func == ModbusFunction::forceSingleCoil) ? 0 : 1;
+        adu.data[hh] = buf.read();
+        adu.data[1 - hh] = buf.read();
     }
     break;
     case ModbusFunction::presetMultipleRegisters:
@@ -305,8 +308,10 @@ bool ModbusCodec::encode(AduRespond const& adu)
         buf.write(adu.addr);
         buf.write(toUint8(adu.func));
         buf.writeBe(adu.startItem);
-        buf.write(adu.data[1]);
-        buf.write(adu.data[0]);
+        // a coil value is kept as it is sent (0xFF00 | 0x0000), a register low byte first
+        unsigned const hh = (adu.func == ModbusFunction::forceSingleCoil) ? 0 : 1;
+        buf.write(adu.data[hh]);
+        buf.write(adu.data[1 - hh]);
     }
     break;
     case ModbusFunction::presetMultipleRegisters:
@@ -385,8 +390,9 @@ bool ModbusCodec::decode(AduRespond& adu)
         }
         adu.startItem = buf.readBe();
         adu.numBytes = 2;
-        adu.data[1] = buf.read();
-        adu.data[0] = buf.read();
+        unsigned const hh = (adu.func == ModbusFunction::forceSingleCoil) ? 0 : 1;
+        adu.data[hh] = buf.read();
+        adu.data[1 - hh] = buf.read();
     }
     break;
     case ModbusFunction::presetMultipleRegisters:
-- 
2.43.0


From 86fe9bd01671b43aaf8665dea1fbcdba058253c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:26 +0000
Subject: [PATCH 12/56] fix: wait for the whole Modbus ADU

The length field counts the bytes after the 6 byte header, but was compared
with the number of bytes received including the header, so that an ADU split
within its last 6 bytes was taken for an invalid one.
---
 src/app/modbus/ModbusCodec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/modbus/ModbusCodec.cpp b/src/app/modbus/ModbusCodec.cpp
index 62143bf..cd4d5c4 100644
--- a/src/app/modbus/ModbusCodec.cpp
+++ b/src/app/modbus/ModbusCodec.cpp
@@ -51,7 +51,7 @@ bool ModbusCodec::isAduHdrReceived() const
 
 bool ModbusCodec::isAduReceived() const
 {
-    return buf.size() >= aduPktLen();
+    return buf.size() >= aduHdrLen + aduPktLen();
 }
 
 bool ModbusCodec::isAduDataLenValid() const
-- 
2.43.0


From 1cc935eea473d50c0eb5ed72df54b1bf251c80f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:30 +0000
Subject: [PATCH 13/56] fix: check the length of a Modbus exception response

A shorter packet took its function and error code from bytes left over in
the receive buffer.
---
 src/app/modbus/ModbusCodec.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/app/modbus/ModbusCodec.cpp b/src/app/modbus/ModbusCodec.cpp
index cd4d5c4..e69f83a 100644
--- a/src/app/modbus/ModbusCodec.cpp
+++ b/src/app/modbus/ModbusCodec.cpp
@@ -356,6 +356,11 @@ bool ModbusCodec::decode(AduRespond& adu)
     {
     case ModbusFunction::modbusError:
     {
+        if (pktLen != 3)
+        {
+            LM(MODBUS, LW, "ADU decode, unexpected length of packet %u", pktLen);
+            return false;
+        }
         adu.error = fromUint8<ModbusError>(buf.read());
     }
     break;
-- 
2.43.0


From acb6f1805987387f80f9d51e0d3f729061ac139f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:35 +0000
Subject: [PATCH 14/56] fix: answer a request whose reply has an invalid length

The request was dropped without any response to its requester.
---
 src/app/modbus/client/ModbusClient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/app/modbus/client/ModbusClient.cpp b/src/app/modbus/client/ModbusClient.cpp
index b0f86a2..00d310d 100644
--- a/src/app/modbus/client/ModbusClient.cpp
+++ b/src/app/modbus/client/ModbusClient.cpp
@@ -117,6 +117,7 @@ Status ModbusClient::receive()
     if (not codec.isAduDataLenValid())
     {
         LM(MODBUS, LW, "Client-%u, ADU data len is invalid", uid);
+        provideRspError(aduStorage.front());
         return Status::done;
     }
 
-- 
2.43.0


From fc1ca50104d50aea47dcf1dd7bdd8306de774167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:41 +0000
Subject: [PATCH 15/56] fix: discard data received while no request is
 outstanding

Late or unsolicited data arriving before the next request was sent was taken
for its reply: the request was answered with an error, then sent and answered
a second time.
---
 src/app/modbus/client/ModbusClient.cpp         | 18 ++++++++++++++++++
 src/app/modbus/client/ModbusClient.hpp         |  2 ++
 .../modbus/client/ModbusClientConnected.cpp    |  2 +-
 src/app/modbus/client/ModbusClientSend.cpp     |  2 +-
 4 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/app/modbus/client/ModbusClient.cpp b/src/app/modbus/client/ModbusClient.cpp
index 00d310d..49d6435 100644
--- a/src/app/modbus/client/ModbusClient.cpp
+++ b/src/app/modbus/client/ModbusClient.cpp
@@ -186,6 +186,24 @@ Status ModbusClient::receive()
     return Status::done;
 }
 
+Status ModbusClient::receiveUnexpected()
+{
+    for (;;)
+    {
+        std::uint8_t data[maxAduLen];
+        switch (link->receive(data, sizeof(data)).status)
+        {
+        case reactor::LinkResult::ok:
+            LM(MODBUS, LW, "Client-%u, received data is unexpected", uid);
+        break;
+        case reactor::LinkResult::na:
+            return Status::noerror;
+        default:
+            return Status::error;
+        }
+    }
+}
+
 void ModbusClient::receivePostaction()
 {
     if (aduStorage.empty())
diff --git a/src/app/modbus/client/ModbusClient.hpp b/src/app/modbus/client/ModbusClient.hpp
index b8782ac..e95476e 100644
--- a/src/app/modbus/client/ModbusClient.hpp
+++ b/src/app/modbus/client/ModbusClient.hpp
@@ -57,6 +57,8 @@ public:
 
     Status receive();
 
+    Status receiveUnexpected();
+
     void receivePostaction();
 
     void provideRspTimeout();
diff --git a/src/app/modbus/client/ModbusClientConnected.cpp b/src/app/modbus/client/ModbusClientConnected.cpp
index 6315cd6..cb638bd 100644
--- a/src/app/modbus/client/ModbusClientConnected.cpp
+++ b/src/app/modbus/client/ModbusClientConnected.cpp
@@ -15,7 +15,7 @@ void ModbusClientConnected::onReceiveTransactionReq(ModbusClientFsm& fsm)
 
 void ModbusClientConnected::onDataReceived(ModbusClientFsm& fsm)
 {
-    switch (fsm.getEntity().receive())
+    switch (fsm.getEntity().receiveUnexpected())
     {
     case Status::error:
     {
diff --git a/src/app/modbus/client/ModbusClientSend.cpp b/src/app/modbus/client/ModbusClientSend.cpp
index 28deaac..d90443b 100644
--- a/src/app/modbus/client/ModbusClientSend.cpp
+++ b/src/app/modbus/client/ModbusClientSend.cpp
@@ -19,7 +19,7 @@ void ModbusClientSend::onReceiveTransactionReq(ModbusClientFsm&)
 
 void ModbusClientSend::onDataReceived(ModbusClientFsm& fsm)
 {
-    switch (fsm.getEntity().receive())
+    switch (fsm.getEntity().receiveUnexpected())
     {
     case Status::error:
     {
-- 
2.43.0


From 6c152ccd6a300c7a9bc3dc1a17b2c0f0ebedd021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:45 +0000
Subject: [PATCH 16/56] fix: reconnect the Modbus client after a link error

A link error in the connected, sending or receiving state was ignored: the
client stayed without a connection until a later request failed.
---
 src/app/modbus/client/ModbusClientConnected.cpp | 7 +++++++
 src/app/modbus/client/ModbusClientConnected.hpp | 2 ++
 src/app/modbus/client/ModbusClientReceive.cpp   | 7 +++++++
 src/app/modbus/client/ModbusClientReceive.hpp   | 2 ++
 src/app/modbus/client/ModbusClientSend.cpp      | 7 +++++++
 src/app/modbus/client/ModbusClientSend.hpp      | 2 ++
 6 files changed, 27 insertions(+)

diff --git a/src/app/modbus/client/ModbusClientConnected.cpp b/src/app/modbus/client/ModbusClientConnected.cpp
index cb638bd..b79f15c 100644
--- a/src/app/modbus/client/ModbusClientConnected.cpp
+++ b/src/app/modbus/client/ModbusClientConnected.cpp
@@ -13,6 +13,13 @@ void ModbusClientConnected::onReceiveTransactionReq(ModbusClientFsm& fsm)
     fsm.transit<ModbusClientSend>();
 }
 
+void ModbusClientConnected::onError(ModbusClientFsm& fsm)
+{
+    fsm.getEntity().provideRspError();
+    fsm.getEntity().close();
+    fsm.transit<ModbusClientBackoff>();
+}
+
 void ModbusClientConnected::onDataReceived(ModbusClientFsm& fsm)
 {
     switch (fsm.getEntity().receiveUnexpected())
diff --git a/src/app/modbus/client/ModbusClientConnected.hpp b/src/app/modbus/client/ModbusClientConnected.hpp
index a5d1594..b8a9da3 100644
--- a/src/app/modbus/client/ModbusClientConnected.hpp
+++ b/src/app/modbus/client/ModbusClientConnected.hpp
@@ -16,6 +16,8 @@ public:
 
     void onDataReceived(ModbusClientFsm&) final;
 
+    void onError(ModbusClientFsm&) final;
+
 private:
 
 };
diff --git a/src/app/modbus/client/ModbusClientReceive.cpp b/src/app/modbus/client/ModbusClientReceive.cpp
index ce289d2..942cefc 100644
--- a/src/app/modbus/client/ModbusClientReceive.cpp
+++ b/src/app/modbus/client/ModbusClientReceive.cpp
@@ -17,6 +17,13 @@ void ModbusClientReceive::onEnter(ModbusClientFsm& fsm)
 void ModbusClientReceive::onReceiveTransactionReq(ModbusClientFsm&)
 {}
 
+void ModbusClientReceive::onError(ModbusClientFsm& fsm)
+{
+    fsm.getEntity().provideRspError();
+    fsm.getEntity().close();
+    fsm.transit<ModbusClientBackoff>();
+}
+
 void ModbusClientReceive::onDataReceived(ModbusClientFsm& fsm)
 {
     switch (fsm.getEntity().receive())
diff --git a/src/app/modbus/client/ModbusClientReceive.hpp b/src/app/modbus/client/ModbusClientReceive.hpp
index 5fbcb19..5f6a649 100644
--- a/src/app/modbus/client/ModbusClientReceive.hpp
+++ b/src/app/modbus/client/ModbusClientReceive.hpp
@@ -18,6 +18,8 @@ public:
 
     void onDataReceived(ModbusClientFsm&) final;
 
+    void onError(ModbusClientFsm&) final;
+
     void onTimer(ModbusClientFsm&) final;
 
     void onExit(ModbusClientFsm&) final;
diff --git a/src/app/modbus/client/ModbusClientSend.cpp b/src/app/modbus/client/ModbusClientSend.cpp
index d90443b..f267790 100644
--- a/src/app/modbus/client/ModbusClientSend.cpp
+++ b/src/app/modbus/client/ModbusClientSend.cpp
@@ -17,6 +17,13 @@ void ModbusClientSend::onEnter(ModbusClientFsm& fsm)
 void ModbusClientSend::onReceiveTransactionReq(ModbusClientFsm&)
 {}
 
+void ModbusClientSend::onError(ModbusClientFsm& fsm)
+{
+    fsm.getEntity().provideRspError();
+    fsm.getEntity().close();
+    fsm.transit<ModbusClientBackoff>();
+}
+
 void ModbusClientSend::onDataReceived(ModbusClientFsm& fsm)
 {
     switch (fsm.getEntity().receiveUnexpected())
diff --git a/src/app/modbus/client/ModbusClientSend.hpp b/src/app/modbus/client/ModbusClientSend.hpp
index 55ef2f9..51bada2 100644
--- a/src/app/modbus/client/ModbusClientSend.hpp
+++ b/src/app/modbus/client/ModbusClientSend.hpp
@@ -18,6 +18,8 @@ public:
 
     void onDataReceived(ModbusClientFsm&) final;
 
+    void onError(ModbusClientFsm&) final;
+
     void onTimer(ModbusClientFsm&) final;
 
     void onExit(ModbusClientFsm&) final;
-- 
2.43.0


From 1fc713fb25c06342e4bf52e6e7c9581b6263f62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:50 +0000
Subject: [PATCH 17/56] fix: release the Modbus session of a connection that
 can not be accepted

The session was lost for good whenever no timer or link was available or the
accept failed; the pending connection made that happen over and over until no
session was left.
---
 src/app/modbus/server/ModbusServer.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/app/modbus/server/ModbusServer.cpp b/src/app/modbus/server/ModbusServer.cpp
index a2f4e22..46a503a 100644
--- a/src/app/modbus/server/ModbusServer.cpp
+++ b/src/app/modbus/server/ModbusServer.cpp
@@ -52,8 +52,16 @@ void ModbusServer::onAcceptEvent()
     }
 
     ModbusSession& session = sessionPool.get(uid);
-    session.prepare(id);
-    acceptor->accept(session.getLink());
+    try
+    {
+        session.prepare(id);
+        acceptor->accept(session.getLink());
+    }
+    catch (...)
+    {
+        session.releaseSession();
+        throw;
+    }
     session.start();
 }
 
-- 
2.43.0


From cef0a050f448687aeeba4731f0996782a842c486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:28 +0000
Subject: [PATCH 18/56] fix: answer a Modbus configuration request when an item
 fails

An item that could not be started (address in use, no resources) aborted the
request: the remaining items were skipped and no response was sent. Items with
an unknown id were reported as successful.
---
 src/app/modbus/Modbus.cpp | 72 ++++++++++++++++++++++-----------------
 src/app/modbus/Modbus.hpp |  2 ++
 2 files changed, 43 insertions(+), 31 deletions(-)

diff --git a/src/app/modbus/Modbus.cpp b/src/app/modbus/Modbus.cpp
index c0e1e62..2bdb2b5 100644
--- a/src/app/modbus/Modbus.cpp
+++ b/src/app/modbus/Modbus.cpp
@@ -1,6 +1,8 @@
 #include "Modbus.hpp"
 #include "ModbusSender.hpp"
 
+#include <exception>
+
 #include "Logger.hpp"
 
 namespace app::modbus
@@ -19,47 +21,55 @@ Modbus::~Modbus()
 
 void Modbus::receive(MsgModbusConfigReq const& req)
 {
+    reactor::MsgStore<MsgModbusConfigRsp> msgStore;
+    MsgModbusConfigRsp& rsp = msgStore.getMsg();
+    rsp.numItems = req.numItems;
     for (unsigned i = 0; i < req.numItems; ++i)
     {
-        ModbusConfig const& item = req.items[i];
-        switch (item.mode)
-        {
-        case ModbusConfig::Mode::server:
+        rsp.items[i].id = req.items[i].id;
+        try
         {
-            if (item.id >= servers.size())
-            {
-                LM(MODBUS, LE, "Invalid serverId, %u", item.id);
-                continue;
-            }
-            ModbusServer::Init init{item.id, item.addr};
-            servers[item.id] = std::make_unique<ModbusServer>(init);
-            servers[item.id]->start();
+            rsp.items[i].status = configure(req.items[i]) ? MsgStatus::success : MsgStatus::error;
         }
-        break;
-        case ModbusConfig::Mode::client:
+        catch (std::exception const& e)
         {
-            if (item.id >= clients.size())
-            {
-                LM(MODBUS, LE, "Invalid clientId, %u", item.id);
-                continue;
-            }
-            ModbusClient::Init init{item.id, item.addr};
-            clients[item.id] = std::make_unique<ModbusClient>(init);
-            clients[item.id]->start();
-        }
-        break;
+            LM(MODBUS, LE, "Can not start id: %u, %s", req.items[i].id, e.what());
+            rsp.items[i].status = MsgStatus::error;
         }
     }
+    Sender::sendMsg(msgStore);
+}
 
-    reactor::MsgStore<MsgModbusConfigRsp> msgStore;
-    MsgModbusConfigRsp& rsp = msgStore.getMsg();
-    rsp.numItems = req.numItems;
-    for (unsigned i = 0; i < req.numItems; ++i)
+bool Modbus::configure(ModbusConfig const& item)
+{
+    switch (item.mode)
     {
-        rsp.items[i].id = req.items[i].id;
-        rsp.items[i].status = MsgStatus::success;
+    case ModbusConfig::Mode::server:
+    {
+        if (item.id >= servers.size())
+        {
+            LM(MODBUS, LE, "Invalid serverId, %u", item.id);
+            return false;
+        }
+        ModbusServer::Init init{item.id, item.addr};
+        servers[item.id] = std::make_unique<ModbusServer>(init);
+        servers[item.id]->start();
     }
-    Sender::sendMsg(msgStore);
+    break;
+    case ModbusConfig::Mode::client:
+    {
+        if (item.id >= clients.size())
+        {
+            LM(MODBUS, LE, "Invalid clientId, %u", item.id);
+            return false;
+        }
+        ModbusClient::Init init{item.id, item.addr};
+        clients[item.id] = std::make_unique<ModbusClient>(init);
+        clients[item.id]->start();
+    }
+    break;
+    }
+    return true;
 }
 
 void Modbus::receive(MsgModbusClientAduReq const& req)
diff --git a/src/app/modbus/Modbus.hpp b/src/app/modbus/Modbus.hpp
index 2a95b47..ab96134 100644
--- a/src/app/modbus/Modbus.hpp
+++ b/src/app/modbus/Modbus.hpp
@@ -32,6 +32,8 @@ public:
     void receive(MsgModbusAduRsp const&);
 
 private:
+    bool configure(ModbusConfig const&);
+
     std::vector<std::unique_ptr<ModbusServer>> servers;
     std::vector<std::unique_ptr<ModbusClient>> clients;
 };
-- 
2.43.0


From 6695cb2c826da958aad413604b208209f119b588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:36 +0000
Subject: [PATCH 19/56] fix: acknowledge nothing but a Hello message

---
 src/app/ua/transport/server/UaTcpConnection.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/app/ua/transport/server/UaTcpConnection.cpp b/src/app/ua/transport/server/UaTcpConnection.cpp
index 5d705b3..8e56145 100644
--- a/src/app/ua/transport/server/UaTcpConnection.cpp
+++ b/src/app/ua/transport/server/UaTcpConnection.cpp
@@ -227,13 +227,11 @@ UaTcpConnection::Result UaTcpConnection::receiveHello()
         return UaTcpConnection::Result::error;
     }
 
-/*
-    if (UaSecMsgType::opn != fromString(rxBuffer.begin()))
+    if (0 != std::memcmp(rxBuffer.begin(), "HEL", 3))
     {
         LM(UATL, LE, "Uid-%u, unexpected packet type", connectionId);
         return Result::error;
     }
-*/
     OpcUaBinaryCodec codec(rxBuffer);
 
     MessageHeader hdr;
-- 
2.43.0


From cbb8f8de7184363b894dd9233a3f540d752da73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:04 +0000
Subject: [PATCH 20/56] fix: reject a session id outside of the pool

---
 src/app/common/ua/common/UaEntityPool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/common/ua/common/UaEntityPool.hpp b/src/app/common/ua/common/UaEntityPool.hpp
index 3442a3f..9b822cd 100644
--- a/src/app/common/ua/common/UaEntityPool.hpp
+++ b/src/app/common/ua/common/UaEntityPool.hpp
@@ -52,7 +52,7 @@ public:
 
     ENTITY& get(EntityId uid)
     {
-        return *(pool[uid - 1]);
+        return *(pool.at(uid - 1));
     }
 
 private:
-- 
2.43.0


From e8622b092b1a51f995c7b6f032bdc36d791a875c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:08 +0000
Subject: [PATCH 21/56] fix: release the channel of an undecodable
 OpenSecureChannel request

---
 .../channel/UaServerSecureChannelInit.cpp      | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannelInit.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannelInit.cpp
index 6e19646..4c79b14 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannelInit.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannelInit.cpp
@@ -1,6 +1,9 @@
 #include "UaServerSecureChannelInit.hpp"
 #include "UaServerSecureChannelEstablished.hpp"
 #include "UaServerSecureChannel.hpp"
+#include "Logger.hpp"
+
+#include <exception>
 
 namespace app::ua::securechannel
 {
@@ -12,15 +15,20 @@ void UaServerSecureChannelInit::onEnter(UaServerSecureChannel& fsm)
 
 void UaServerSecureChannelInit::onReceive(UaServerSecureChannel& fsm, MsgUaOpenSecureChannelReq const& msg)
 {
-    if (UaServerSecureChannel::Result::done == fsm.receive(msg))
+    try
     {
-        fsm.transit<UaServerSecureChannelEstablished>();
+        if (UaServerSecureChannel::Result::done == fsm.receive(msg))
+        {
+            fsm.transit<UaServerSecureChannelEstablished>();
+            return;
+        }
     }
-    else
+    catch (std::exception const& e)
     {
-        fsm.sendUaConnectionReleaseReq(msg.connectionId);
-        fsm.release();
+        LM(UASC, LE, "Can not open channel: %s", e.what());
     }
+    fsm.sendUaConnectionReleaseReq(msg.connectionId);
+    fsm.release();
 }
 
 } // namespace app::ua::securechannel
-- 
2.43.0


From e774dcd0212557c47b01dbda042f3706f636b2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:14 +0000
Subject: [PATCH 22/56] fix: release the secure channel that a connection
 replaces

---
 src/app/ua/transport/server/UaTcpConnection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/app/ua/transport/server/UaTcpConnection.cpp b/src/app/ua/transport/server/UaTcpConnection.cpp
index 8e56145..c97be6e 100644
--- a/src/app/ua/transport/server/UaTcpConnection.cpp
+++ b/src/app/ua/transport/server/UaTcpConnection.cpp
@@ -67,6 +67,11 @@ UaTcpConnection::Result UaTcpConnection::receive(MsgUaSecuredMessageSendReq cons
 
 UaTcpConnection::Result UaTcpConnection::receive(MsgUaOpenSecureChannelRsp const& msg)
 {
+    if (associatedSecureChannelId && *associatedSecureChannelId != msg.secureChannelId)
+    {
+        // replaced by the new channel
+        sendUaConnectionReleaseInd();
+    }
     associatedSecureChannelId = msg.secureChannelId;
 
     OpcUaSduBuffer tx;
-- 
2.43.0


From 5c7357fb40e5a099521787b53ed2d6ad9a26056b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:47 +0000
Subject: [PATCH 23/56] fix: release a secure channel opened for a connection
 that is gone

---
 src/app/ua/transport/server/UaTcpConnection.cpp            | 7 ++++++-
 src/app/ua/transport/server/UaTcpConnection.hpp            | 1 +
 src/app/ua/transport/server/UaTcpConnectionInit.cpp        | 6 ++++++
 src/app/ua/transport/server/UaTcpConnectionInit.hpp        | 2 ++
 .../ua/transport/server/UaTcpConnectionReceiveHello.cpp    | 6 ++++++
 .../ua/transport/server/UaTcpConnectionReceiveHello.hpp    | 2 ++
 6 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/app/ua/transport/server/UaTcpConnection.cpp b/src/app/ua/transport/server/UaTcpConnection.cpp
index c97be6e..f3208d5 100644
--- a/src/app/ua/transport/server/UaTcpConnection.cpp
+++ b/src/app/ua/transport/server/UaTcpConnection.cpp
@@ -27,9 +27,14 @@ void UaTcpConnection::sendUaConnectionReleaseInd()
         LM(UATL, LE, "Uid-%u, Can not send UaConnectionReleaseInd, secure channel id is undefined", connectionId);
         return;
     }
+    sendUaConnectionReleaseInd(*associatedSecureChannelId);
+}
+
+void UaTcpConnection::sendUaConnectionReleaseInd(UaSecureChannelId secureChannelId)
+{
     reactor::MsgStore<MsgUaConnectionReleaseInd> msgStore;
     msgStore.getMsg().connectionId = connectionId;
-    msgStore.getMsg().secureChannelId = *associatedSecureChannelId;
+    msgStore.getMsg().secureChannelId = secureChannelId;
     Sender::sendMsg(msgStore);
 }
 
diff --git a/src/app/ua/transport/server/UaTcpConnection.hpp b/src/app/ua/transport/server/UaTcpConnection.hpp
index 742faef..14f5a90 100644
--- a/src/app/ua/transport/server/UaTcpConnection.hpp
+++ b/src/app/ua/transport/server/UaTcpConnection.hpp
@@ -51,6 +51,7 @@ public:
     Result sendAcknowledge();
     Result receiveSecuredMessage();
     void sendUaConnectionReleaseInd();
+    void sendUaConnectionReleaseInd(UaSecureChannelId);
 private:
 
     UaConnectionId const connectionId;
diff --git a/src/app/ua/transport/server/UaTcpConnectionInit.cpp b/src/app/ua/transport/server/UaTcpConnectionInit.cpp
index c9a0801..cb2839a 100644
--- a/src/app/ua/transport/server/UaTcpConnectionInit.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionInit.cpp
@@ -17,4 +17,10 @@ void UaTcpConnectionInit::onAcceptLink(UaTcpConnection& fsm, reactor::LinkPtr& l
     fsm.transit<UaTcpConnectionReceiveHello>();
 }
 
+void UaTcpConnectionInit::onReceive(UaTcpConnection& fsm, MsgUaOpenSecureChannelRsp const& rsp)
+{
+    // the connection that asked for the channel is gone
+    fsm.sendUaConnectionReleaseInd(rsp.secureChannelId);
+}
+
 } // namespace app::ua::transport
diff --git a/src/app/ua/transport/server/UaTcpConnectionInit.hpp b/src/app/ua/transport/server/UaTcpConnectionInit.hpp
index 210adfa..f487e42 100644
--- a/src/app/ua/transport/server/UaTcpConnectionInit.hpp
+++ b/src/app/ua/transport/server/UaTcpConnectionInit.hpp
@@ -15,6 +15,8 @@ public:
     void onEnter(UaTcpConnection&) final;
 
     void onAcceptLink(UaTcpConnection&, reactor::LinkPtr&) final;
+
+    void onReceive(UaTcpConnection&, MsgUaOpenSecureChannelRsp const&) final;
 };
 
 } // namespace app::ua::transport
diff --git a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
index 216340d..6bf7299 100644
--- a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
@@ -42,4 +42,10 @@ void UaTcpConnectionReceiveHello::onExit(UaTcpConnection& fsm)
     fsm.stopTimer();
 }
 
+void UaTcpConnectionReceiveHello::onReceive(UaTcpConnection& fsm, MsgUaOpenSecureChannelRsp const& rsp)
+{
+    // the connection that asked for the channel is gone
+    fsm.sendUaConnectionReleaseInd(rsp.secureChannelId);
+}
+
 } // namespace app::ua::transport
diff --git a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
index 9f372a4..f1a3f8e 100644
--- a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
+++ b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
@@ -16,6 +16,8 @@ public:
 
     void onDataReceived(UaTcpConnection&) final;
 
+    void onReceive(UaTcpConnection&, MsgUaOpenSecureChannelRsp const&) final;
+
     void onTimer(UaTcpConnection&) final;
 
     void onExit(UaTcpConnection&) final;
-- 
2.43.0


From db46af13f390dd52eb569f9fb31cd53d21f13bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:52 +0000
Subject: [PATCH 24/56] fix: release the secure channel of a connection closed
 on request

---
 src/app/ua/securechannel/channel/UaServerSecureChannel.cpp | 5 +++++
 src/app/ua/securechannel/channel/UaServerSecureChannel.hpp | 1 +
 .../channel/UaServerSecureChannelEstablished.cpp           | 7 +++++--
 src/app/ua/transport/server/UaTcpConnectionConnected.cpp   | 1 +
 4 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
index fb461e9..c0fe6ef 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
@@ -20,6 +20,11 @@ UaServerSecureChannel::~UaServerSecureChannel()
 {
 }
 
+bool UaServerSecureChannel::isAssociated(UaConnectionId id) const
+{
+    return connectionId && *connectionId == id;
+}
+
 void UaServerSecureChannel::release()
 {
     sequenceNumberTx = 0;
diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp b/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
index 736eae6..5bbd461 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
@@ -34,6 +34,7 @@ public:
     Result receive(MsgUaSecuredMessageReceiveInd const&);
     Result receive(MsgUaEncodedMessageSendReq const&);
 
+    bool   isAssociated(UaConnectionId) const;
     void   release();
     void   sendUaConnectionReleaseReq(UaConnectionId);
 
diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
index 1bdaf2c..f37a2e1 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
@@ -17,9 +17,12 @@ void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, Msg
     fsm.receive(msg);
 }
 
-void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, MsgUaConnectionReleaseInd const&)
+void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, MsgUaConnectionReleaseInd const& msg)
 {
-    fsm.transit<UaServerSecureChannelInit>();
+    if (fsm.isAssociated(msg.connectionId))
+    {
+        fsm.transit<UaServerSecureChannelInit>();
+    }
 }
 
 void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, MsgUaEncodedMessageSendReq const& msg)
diff --git a/src/app/ua/transport/server/UaTcpConnectionConnected.cpp b/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
index 0157c5c..dabfabd 100644
--- a/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
@@ -86,6 +86,7 @@ void UaTcpConnectionConnected::onReceive(UaTcpConnection& fsm, MsgUaSecuredMessa
 
 void UaTcpConnectionConnected::onReceive(UaTcpConnection& fsm, MsgUaConnectionReleaseReq const&)
 {
+    fsm.sendUaConnectionReleaseInd();
     fsm.transit<UaTcpConnectionInit>();
 }
 
-- 
2.43.0


From 920c61fca6226f0591de176308e545dbed4d3905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:41 +0000
Subject: [PATCH 25/56] fix: refuse UA messages which do not fit in the message
 buffer

---
 src/app/ua/transport/server/UaTcpConnection.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/app/ua/transport/server/UaTcpConnection.cpp b/src/app/ua/transport/server/UaTcpConnection.cpp
index f3208d5..74902b2 100644
--- a/src/app/ua/transport/server/UaTcpConnection.cpp
+++ b/src/app/ua/transport/server/UaTcpConnection.cpp
@@ -305,6 +305,14 @@ UaTcpConnection::Result UaTcpConnection::receiveSecuredMessage()
 
     LM(UATL, LD, "Uid-%u, receiveSecuredMessage: %s", connectionId, toString(msgType).c_str());
 
+    static_assert(sizeof(MsgUaOpenSecureChannelReq) == sizeof(MsgUaSecuredMessageReceiveInd));
+    static_assert(sizeof(MsgUaCloseSecureChannelReq) == sizeof(MsgUaSecuredMessageReceiveInd));
+    if (rxBuffer.size() > reactor::maxMsgSize - sizeof(MsgUaSecuredMessageReceiveInd))
+    {
+        LM(UATL, LE, "Uid-%u, packet is too long", connectionId);
+        return Result::error;
+    }
+
     switch (msgType)
     {
     case UaSecMsgType::msg:
-- 
2.43.0


From 520ec587d29fd79e8c4607c2395ec46aa1daad44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:39 +0000
Subject: [PATCH 26/56] fix: a message as long as the message buffer overran
 its storage slot

---
 src/app/common/reactor/MsgMemStorage.cpp | 6 ++++--
 src/app/common/reactor/MsgMemStorage.hpp | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/app/common/reactor/MsgMemStorage.cpp b/src/app/common/reactor/MsgMemStorage.cpp
index 8fa30a8..10fb563 100644
--- a/src/app/common/reactor/MsgMemStorage.cpp
+++ b/src/app/common/reactor/MsgMemStorage.cpp
@@ -1,12 +1,14 @@
 #include "MsgMemStorage.hpp"
 #include <cstdlib>
 #include <cstring>
+#include "MemUtils.hpp"
 
 namespace app::reactor
 {
 
 MsgMemStorage::MsgMemStorage(std::size_t chunkSize_, std::size_t numChunks_)
-    : chunkSize(chunkSize_)
+    : dataSize(chunkSize_)
+    , chunkSize(utils::memAlign(sizeof(Item) + dataSize))
     , numChunks(numChunks_)
     , freeIds(numChunks)
     , busyIds(numChunks)
@@ -32,7 +34,7 @@ bool MsgMemStorage::push(const void* data, std::uint64_t len)
 {
     std::lock_guard<std::mutex> guard(mutex);
 
-    if (freeIds.empty())
+    if (len > dataSize || freeIds.empty())
     {
         return false;
     }
diff --git a/src/app/common/reactor/MsgMemStorage.hpp b/src/app/common/reactor/MsgMemStorage.hpp
index 71b1d47..c1babd9 100644
--- a/src/app/common/reactor/MsgMemStorage.hpp
+++ b/src/app/common/reactor/MsgMemStorage.hpp
@@ -27,6 +27,7 @@ private:
     };
     void* get(unsigned);
 
+    std::size_t const dataSize;
     std::size_t const chunkSize;
     std::size_t const numChunks;
 
-- 
2.43.0


From 2a5ece2247b155248a6c7b6cb7aad7b49a163f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:02 +0000
Subject: [PATCH 27/56] fix: stop() returned while handlers were still running

---
 src/app/common/reactor/Reactor.cpp |  6 ++++++
 src/app/common/reactor/Thread.cpp  | 15 ++++++++++++++-
 src/app/common/reactor/Thread.hpp  |  3 +++
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Reactor.cpp b/src/app/common/reactor/Reactor.cpp
index b0909cc..41e3edb 100644
--- a/src/app/common/reactor/Reactor.cpp
+++ b/src/app/common/reactor/Reactor.cpp
@@ -128,6 +128,12 @@ void Reactor::start()
 void Reactor::stop()
 {
     stopped = true;
+    // wake the threads up and wait until none of them runs a handler anymore
+    event->send();
+    for (auto& thread : threads)
+    {
+        thread->join();
+    }
 }
 
 void Reactor::onFdEvent(uint64_t val)
diff --git a/src/app/common/reactor/Thread.cpp b/src/app/common/reactor/Thread.cpp
index 14d05be..c400ee2 100644
--- a/src/app/common/reactor/Thread.cpp
+++ b/src/app/common/reactor/Thread.cpp
@@ -23,6 +23,7 @@ static void* executer(void* args)
 Thread::Thread(uint64_t cpuMask_, ThreadHandler& handler_)
     : cpuMask(cpuMask_)
     , handler(handler_)
+    , started(false)
 {
     int result = pthread_attr_init(&attr);
     if (result != 0)
@@ -39,7 +40,18 @@ Thread::~Thread()
         LM(GEN, LE, "pthread_attr_destroy");
     }
 
-    result = pthread_join(tid, nullptr);
+    join();
+}
+
+void Thread::join()
+{
+    // a thread that stops its own reactor is joined later, by the owner
+    if (not started || pthread_equal(tid, pthread_self()))
+    {
+        return;
+    }
+    started = false;
+    int result = pthread_join(tid, nullptr);
     if (result != 0)
     {
         LM(GEN, LE, "pthread_join");
@@ -60,6 +72,7 @@ void Thread::start()
     {
         throw std::runtime_error("pthread_create");
     }
+    started = true;
 
     if (0 == cpuMask)
     {
diff --git a/src/app/common/reactor/Thread.hpp b/src/app/common/reactor/Thread.hpp
index b35edf8..0e73c5c 100644
--- a/src/app/common/reactor/Thread.hpp
+++ b/src/app/common/reactor/Thread.hpp
@@ -18,9 +18,12 @@ public:
 
     void start();
 
+    void join();
+
 private:
     uint64_t const cpuMask;
     ThreadHandler& handler;
+    bool started;
     pthread_t tid;
     pthread_attr_t attr;
 };
-- 
2.43.0


From f23ef184bc781a95e34e8fff8cf173dd05010011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:39 +0000
Subject: [PATCH 28/56] fix: address and port bytes above 127 were sign
 extended

---
 src/app/common/reactor/types/LinkAddr.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/app/common/reactor/types/LinkAddr.hpp b/src/app/common/reactor/types/LinkAddr.hpp
index 989f54a..9a1f7b4 100644
--- a/src/app/common/reactor/types/LinkAddr.hpp
+++ b/src/app/common/reactor/types/LinkAddr.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cstdint>
 #include <string>
 
 namespace app::reactor
@@ -17,17 +18,17 @@ struct LinkAddr
 
 inline std::uint16_t ipv4port(LinkAddr const& addr)
 {
-    std::uint16_t a = addr.data[4];
-    std::uint16_t b = addr.data[5];
+    std::uint16_t a = static_cast<std::uint8_t>(addr.data[4]);
+    std::uint16_t b = static_cast<std::uint8_t>(addr.data[5]);
     return a << 8 | b;
 }
 
 inline std::uint32_t ipv4addr(LinkAddr const& addr)
 {
-    std::uint32_t a = addr.data[0];
-    std::uint32_t b = addr.data[1];
-    std::uint32_t c = addr.data[2];
-    std::uint32_t d = addr.data[3];
+    std::uint32_t a = static_cast<std::uint8_t>(addr.data[0]);
+    std::uint32_t b = static_cast<std::uint8_t>(addr.data[1]);
+    std::uint32_t c = static_cast<std::uint8_t>(addr.data[2]);
+    std::uint32_t d = static_cast<std::uint8_t>(addr.data[3]);
     return a << 24 | b << 16 | c << 8 | d;
 }
 
-- 
2.43.0


From 2cb8dca7867da85b92ca13d7e8acb0b99e744f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:49 +0000
Subject: [PATCH 29/56] fix: an exception in one handler lost the other events
 of its batch

---
 src/app/common/reactor/Epoll.cpp   | 10 +++++++++-
 src/app/common/reactor/Reactor.cpp | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/app/common/reactor/Epoll.cpp b/src/app/common/reactor/Epoll.cpp
index 22ca688..a6e3452 100644
--- a/src/app/common/reactor/Epoll.cpp
+++ b/src/app/common/reactor/Epoll.cpp
@@ -68,7 +68,15 @@ void Epoll::wait()
             throw std::runtime_error("invalid ptr");
         }
         FileDescriptorInterface& fd = *static_cast<FileDescriptorInterface*>(events[n].data.ptr);
-        fd.onFileDescriptorEvent(events[n].events);
+        // the other events of this batch are not reported again
+        try
+        {
+            fd.onFileDescriptorEvent(events[n].events);
+        }
+        catch (const std::exception& e)
+        {
+            std::cerr << e.what() << std::endl;
+        }
     }
 }
 
diff --git a/src/app/common/reactor/Reactor.cpp b/src/app/common/reactor/Reactor.cpp
index 41e3edb..1b3f248 100644
--- a/src/app/common/reactor/Reactor.cpp
+++ b/src/app/common/reactor/Reactor.cpp
@@ -159,7 +159,15 @@ void Reactor::onFdEvent(uint64_t val)
         MsgHandler& handler = handlers[msg.getMsgId()];
         if (handler)
         {
-            handler(msg);
+            // the messages behind this one are counted in the same event
+            try
+            {
+                handler(msg);
+            }
+            catch (const std::exception& e)
+            {
+                std::cerr << e.what() << std::endl;
+            }
         }
         else
         {
-- 
2.43.0


From c16e5495ef04b5c4eac1ad8ba14287f249bd322d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:21 +0000
Subject: [PATCH 30/56] fix: the end of a connection was reported as a
 successful receive of nothing

---
 src/app/common/reactor/Link.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/app/common/reactor/Link.cpp b/src/app/common/reactor/Link.cpp
index 3b25bc3..5d4c99e 100644
--- a/src/app/common/reactor/Link.cpp
+++ b/src/app/common/reactor/Link.cpp
@@ -129,6 +129,11 @@ LinkResult Link::receive(std::uint8_t* data, std::size_t len)
         LM(GEN, LI, "Link(%d) read rc: %d errno: %d", fd, rc, errno);
         return {LinkResult::error, 0};
     }
+    else if (0 == rc && 0 != len)
+    {
+        LM(GEN, LI, "Link(%d) closed by peer", fd);
+        return {LinkResult::closed, 0};
+    }
     return {LinkResult::ok, rc};
 }
 
-- 
2.43.0


From 74746e9f7ea591033f2d6565fa366318f9a23dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:38 +0000
Subject: [PATCH 31/56] fix: writing to a connection the peer had reset killed
 the process

---
 src/app/common/reactor/Link.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Link.cpp b/src/app/common/reactor/Link.cpp
index 5d4c99e..1445f71 100644
--- a/src/app/common/reactor/Link.cpp
+++ b/src/app/common/reactor/Link.cpp
@@ -104,7 +104,7 @@ int Link::send(void const* data, std::size_t len)
     {
         return -1;
     }
-    if (-1 == ::write(fd, data, len))
+    if (-1 == ::send(fd, data, len, MSG_NOSIGNAL))
     {
         LM(GEN, LE, "write errno: %d", errno);
         return -1;
-- 
2.43.0


From 1d19f0c0884d7e88c42bca90305d6950e01819b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:05 +0000
Subject: [PATCH 32/56] fix: a partial write was reported as success

---
 src/app/common/reactor/Link.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Link.cpp b/src/app/common/reactor/Link.cpp
index 1445f71..00b3524 100644
--- a/src/app/common/reactor/Link.cpp
+++ b/src/app/common/reactor/Link.cpp
@@ -104,11 +104,17 @@ int Link::send(void const* data, std::size_t len)
     {
         return -1;
     }
-    if (-1 == ::send(fd, data, len, MSG_NOSIGNAL))
+    ssize_t const rc = ::send(fd, data, len, MSG_NOSIGNAL);
+    if (-1 == rc)
     {
         LM(GEN, LE, "write errno: %d", errno);
         return -1;
     }
+    if (len != static_cast<std::size_t>(rc))
+    {
+        LM(GEN, LE, "Link(%d) only %zd of %zu bytes written", fd, rc, len);
+        return -1;
+    }
     return 1;
 }
 
-- 
2.43.0


From 798d13e27fbc571d2e2fb1b0ffea46d9b6ceaba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:30 +0000
Subject: [PATCH 33/56] fix: data that arrived together with the connection was
 taken for an error

---
 src/app/common/reactor/Link.cpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/app/common/reactor/Link.cpp b/src/app/common/reactor/Link.cpp
index 00b3524..8f37b8f 100644
--- a/src/app/common/reactor/Link.cpp
+++ b/src/app/common/reactor/Link.cpp
@@ -155,15 +155,14 @@ void Link::onFileDescriptorEvent(int events)
         LM(GEN, LE, "Handler is undefined");
         return;
     }
-    switch (events)
+    if (events & (EPOLLERR | EPOLLHUP))
     {
-    case EPOLLIN:
-    {
-        handler(LinkEvent::data);
+        close();
+        handler(LinkEvent::error);
     }
-    break;
-    case EPOLLOUT:
+    else if (events & EPOLLOUT)
     {
+        // data that came along is reported again after the change
         if (-1 == epoll.mod(*this, EPOLLIN | EPOLLET))
         {
             LM(GEN, LE, "fd mod");
@@ -175,13 +174,9 @@ void Link::onFileDescriptorEvent(int events)
             handler(LinkEvent::connected);
         }
     }
-    break;
-    default:
+    else
     {
-        close();
-        handler(LinkEvent::error);
-    }
-    break;
+        handler(LinkEvent::data);
     }
 }
 
-- 
2.43.0


From a0e470d5ef47c14a3f0cd3d872f0dbba1be4ce7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:02 +0000
Subject: [PATCH 34/56] fix: releasing an acceptor that does not listen
 terminated the process

---
 src/app/common/reactor/Acceptor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Acceptor.cpp b/src/app/common/reactor/Acceptor.cpp
index ea8651e..d76b200 100644
--- a/src/app/common/reactor/Acceptor.cpp
+++ b/src/app/common/reactor/Acceptor.cpp
@@ -82,7 +82,8 @@ void Acceptor::close()
 {
     if (-1 == sfd)
     {
-        throw std::runtime_error("invalid sfd");
+        LM(GEN, LI, "sfd is closed");
+        return;
     }
     LM(GEN, LD, "Close");
     if (-1 == epoll.del(*this))
-- 
2.43.0


From 3c59a0868a3ef72640aced5ab5fc9752e200751b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:21 +0000
Subject: [PATCH 35/56] fix: a timer that could not be created was lost for
 good

---
 src/app/common/reactor/Reactor.cpp | 10 +++++++++-
 src/app/common/reactor/Timer.cpp   |  1 +
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Reactor.cpp b/src/app/common/reactor/Reactor.cpp
index 1b3f248..f36f2b3 100644
--- a/src/app/common/reactor/Reactor.cpp
+++ b/src/app/common/reactor/Reactor.cpp
@@ -62,7 +62,15 @@ TimerPtr Reactor::createTimer(TimerHandler handler)
         throw std::runtime_error("timerPool alloc");
     }
     Timer& timer = timerPool.get(uid);
-    timer.create();
+    try
+    {
+        timer.create();
+    }
+    catch (...)
+    {
+        timerPool.release(uid);
+        throw;
+    }
     timer.setHandler(handler);
     TimerPtr timerPtr(&timer, [this, uid](auto* timer)
     {
diff --git a/src/app/common/reactor/Timer.cpp b/src/app/common/reactor/Timer.cpp
index 09d3fd8..db62d8b 100644
--- a/src/app/common/reactor/Timer.cpp
+++ b/src/app/common/reactor/Timer.cpp
@@ -40,6 +40,7 @@ void Timer::create()
     if (-1 == epoll.add(*this, EPOLLIN | EPOLLET))
     {
         ::close(fd);
+        fd = -1;
         throw std::runtime_error("fd add");
     }
 }
-- 
2.43.0


From 1428426eaf86c979ecf869d4f1715043f7e8bebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:38 +0000
Subject: [PATCH 36/56] fix: a failed accept left a closed descriptor in the
 link

---
 src/app/common/reactor/Acceptor.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/app/common/reactor/Acceptor.cpp b/src/app/common/reactor/Acceptor.cpp
index d76b200..78c897f 100644
--- a/src/app/common/reactor/Acceptor.cpp
+++ b/src/app/common/reactor/Acceptor.cpp
@@ -133,8 +133,7 @@ void Acceptor::accept(LinkInterface& link)
 
     if (-1 == epoll.add(link, EPOLLIN | EPOLLET))
     {
-        ::close(fd);
-        link.setFileDescriptor(-1);
+        link.close();
         throw std::runtime_error("fd add");
     }
 }
-- 
2.43.0


From 971259c4d8c854f5c0fae5046eb73693086f7a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:59 +0000
Subject: [PATCH 37/56] fix: a link closed by another handler still reported
 its pending event

---
 src/app/common/reactor/Link.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/app/common/reactor/Link.cpp b/src/app/common/reactor/Link.cpp
index 8f37b8f..e4f0b96 100644
--- a/src/app/common/reactor/Link.cpp
+++ b/src/app/common/reactor/Link.cpp
@@ -155,6 +155,11 @@ void Link::onFileDescriptorEvent(int events)
         LM(GEN, LE, "Handler is undefined");
         return;
     }
+    if (-1 == fd)
+    {
+        LM(GEN, LI, "closed by another handler");
+        return;
+    }
     if (events & (EPOLLERR | EPOLLHUP))
     {
         close();
-- 
2.43.0


From 0ca1543cff1d0807cb0f63721ee36d8a1fdd11d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:22 +0000
Subject: [PATCH 38/56] fix: sending to an unknown component changed the
 component map without a lock

---
 src/app/common/reactor/ReactorManager.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/app/common/reactor/ReactorManager.cpp b/src/app/common/reactor/ReactorManager.cpp
index a3454bd..d212728 100644
--- a/src/app/common/reactor/ReactorManager.cpp
+++ b/src/app/common/reactor/ReactorManager.cpp
@@ -22,13 +22,14 @@ ReactorManager::~ReactorManager()
 
 void ReactorManager::send(MsgInterface const& msg)
 {
-    auto& comp = components[msg.getCompId()];
-    if (nullptr == comp)
+    // called by all threads, so the map is only read
+    auto const it = components.find(msg.getCompId());
+    if (it == components.end() || nullptr == it->second)
     {
         LM(GEN, LE, "Can not find component, compId=%zu", msg.getCompId());
         return;
     }
-    comp->getReactor().send(msg);
+    it->second->getReactor().send(msg);
 }
 
 void ReactorManager::addComponent(std::unique_ptr<ComponentInterface> comp)
-- 
2.43.0


From d383099c3749577bb60f365af115b2724d0622e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:10 +0000
Subject: [PATCH 39/56] fix: a stop request without a start request crashed the
 controller

---
 src/app/controller/ControllerComponent.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/app/controller/ControllerComponent.cpp b/src/app/controller/ControllerComponent.cpp
index cd46b0c..a3d8fc0 100644
--- a/src/app/controller/ControllerComponent.cpp
+++ b/src/app/controller/ControllerComponent.cpp
@@ -49,9 +49,11 @@ void ControllerComponent::receive(MsgControllerStartReq const& req)
 void ControllerComponent::receive(MsgControllerStopReq const& req)
 {
     LM(CTRL, LD, "ControllerStopReq received");
-    modbus->receive(req);
+    if (modbus)
+        modbus->receive(req);
     modbus.reset();
-    opcUa->getState().onReceive(*opcUa, req);
+    if (opcUa)
+        opcUa->getState().onReceive(*opcUa, req);
     opcUa.reset();
 }
 
-- 
2.43.0


From a7313095c9728f20f330a012ebfd19e10b4f49d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:56 +0000
Subject: [PATCH 40/56] fix: a stop request during configuration left Modbus
 running

---
 src/app/controller/modbus/ModbusTestConfigure.cpp | 6 ++++++
 src/app/controller/modbus/ModbusTestConfigure.hpp | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/app/controller/modbus/ModbusTestConfigure.cpp b/src/app/controller/modbus/ModbusTestConfigure.cpp
index 4e2b6cb..ef382bd 100644
--- a/src/app/controller/modbus/ModbusTestConfigure.cpp
+++ b/src/app/controller/modbus/ModbusTestConfigure.cpp
@@ -1,6 +1,7 @@
 #include "ModbusTestConfigure.hpp"
 #include "ModbusTestFsm.hpp"
 #include "ModbusTestController.hpp"
+#include "ModbusTestInit.hpp"
 #include "ModbusTestRun.hpp"
 
 namespace app::controller
@@ -17,4 +18,9 @@ void ModbusTestConfigure::onModbusConfigRspReceive(ModbusTestFsm& fsm, MsgModbus
     fsm.transit<ModbusTestRun>();
 }
 
+void ModbusTestConfigure::onStop(ModbusTestFsm& fsm)
+{
+    fsm.transit<ModbusTestInit>();
+}
+
 } // namespace app::controller
diff --git a/src/app/controller/modbus/ModbusTestConfigure.hpp b/src/app/controller/modbus/ModbusTestConfigure.hpp
index 2a90bb8..2fc21af 100644
--- a/src/app/controller/modbus/ModbusTestConfigure.hpp
+++ b/src/app/controller/modbus/ModbusTestConfigure.hpp
@@ -16,6 +16,8 @@ public:
 
     void onModbusConfigRspReceive(ModbusTestFsm&, MsgModbusConfigRsp const&) final;
 
+    void onStop(ModbusTestFsm&) final;
+
 private:
     /* data */
 };
-- 
2.43.0


From 704e0a33eab0d8841a659dad49ff12a8c365c6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:26 +0000
Subject: [PATCH 41/56] fix: the secure channel and service components sent
 their confirmations to the secure channel, not to the controller

---
 src/app/common/msg/MsgUaSecureChannelConfigRsp.hpp  | 2 +-
 src/app/common/msg/MsgUaSecureChannelInitRsp.hpp    | 2 +-
 src/app/common/msg/MsgUaSecureChannelReleaseRsp.hpp | 2 +-
 src/app/common/msg/MsgUaServiceConfigRsp.hpp        | 2 +-
 src/app/common/msg/MsgUaServiceInitRsp.hpp          | 2 +-
 src/app/common/msg/MsgUaServiceReleaseRsp.hpp       | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/app/common/msg/MsgUaSecureChannelConfigRsp.hpp b/src/app/common/msg/MsgUaSecureChannelConfigRsp.hpp
index 95d09c2..820267b 100644
--- a/src/app/common/msg/MsgUaSecureChannelConfigRsp.hpp
+++ b/src/app/common/msg/MsgUaSecureChannelConfigRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaSecureChannelConfigRsp : public reactor::MsgBase<MsgUaSecureChannelConfigRsp, CompIds::compUaSecChannel, MsgIds::uaSecureChannelConfigRsp>
+struct MsgUaSecureChannelConfigRsp : public reactor::MsgBase<MsgUaSecureChannelConfigRsp, CompIds::compController, MsgIds::uaSecureChannelConfigRsp>
 {
 };
 
diff --git a/src/app/common/msg/MsgUaSecureChannelInitRsp.hpp b/src/app/common/msg/MsgUaSecureChannelInitRsp.hpp
index 7ea60c3..fcc92e8 100644
--- a/src/app/common/msg/MsgUaSecureChannelInitRsp.hpp
+++ b/src/app/common/msg/MsgUaSecureChannelInitRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaSecureChannelInitRsp : public reactor::MsgBase<MsgUaSecureChannelInitRsp, CompIds::compUaSecChannel, MsgIds::uaSecureChannelInitRsp>
+struct MsgUaSecureChannelInitRsp : public reactor::MsgBase<MsgUaSecureChannelInitRsp, CompIds::compController, MsgIds::uaSecureChannelInitRsp>
 {
 };
 
diff --git a/src/app/common/msg/MsgUaSecureChannelReleaseRsp.hpp b/src/app/common/msg/MsgUaSecureChannelReleaseRsp.hpp
index a71c126..1fde3df 100644
--- a/src/app/common/msg/MsgUaSecureChannelReleaseRsp.hpp
+++ b/src/app/common/msg/MsgUaSecureChannelReleaseRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaSecureChannelReleaseRsp : public reactor::MsgBase<MsgUaSecureChannelReleaseRsp, CompIds::compUaSecChannel, MsgIds::uaSecureChannelReleaseRsp>
+struct MsgUaSecureChannelReleaseRsp : public reactor::MsgBase<MsgUaSecureChannelReleaseRsp, CompIds::compController, MsgIds::uaSecureChannelReleaseRsp>
 {
 };
 
diff --git a/src/app/common/msg/MsgUaServiceConfigRsp.hpp b/src/app/common/msg/MsgUaServiceConfigRsp.hpp
index b325533..119a477 100644
--- a/src/app/common/msg/MsgUaServiceConfigRsp.hpp
+++ b/src/app/common/msg/MsgUaServiceConfigRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaServiceConfigRsp : public reactor::MsgBase<MsgUaServiceConfigRsp, CompIds::compUaSecChannel, MsgIds::uaServiceConfigRsp>
+struct MsgUaServiceConfigRsp : public reactor::MsgBase<MsgUaServiceConfigRsp, CompIds::compController, MsgIds::uaServiceConfigRsp>
 {
 };
 
diff --git a/src/app/common/msg/MsgUaServiceInitRsp.hpp b/src/app/common/msg/MsgUaServiceInitRsp.hpp
index 928aada..92c45c9 100644
--- a/src/app/common/msg/MsgUaServiceInitRsp.hpp
+++ b/src/app/common/msg/MsgUaServiceInitRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaServiceInitRsp : public reactor::MsgBase<MsgUaServiceInitRsp, CompIds::compUaSecChannel, MsgIds::uaServiceInitRsp>
+struct MsgUaServiceInitRsp : public reactor::MsgBase<MsgUaServiceInitRsp, CompIds::compController, MsgIds::uaServiceInitRsp>
 {
 };
 
diff --git a/src/app/common/msg/MsgUaServiceReleaseRsp.hpp b/src/app/common/msg/MsgUaServiceReleaseRsp.hpp
index bdacea3..412c9ba 100644
--- a/src/app/common/msg/MsgUaServiceReleaseRsp.hpp
+++ b/src/app/common/msg/MsgUaServiceReleaseRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaServiceReleaseRsp : public reactor::MsgBase<MsgUaServiceReleaseRsp, CompIds::compUaSecChannel, MsgIds::uaServiceReleaseRsp>
+struct MsgUaServiceReleaseRsp : public reactor::MsgBase<MsgUaServiceReleaseRsp, CompIds::compController, MsgIds::uaServiceReleaseRsp>
 {
 };
 
-- 
2.43.0


From e9159400ba735e64a75e492766498e724b68ceda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:04 +0000
Subject: [PATCH 42/56] fix: a Modbus request with an unknown transaction or
 address accessed memory out of bounds

---
 .../modbus/ModbusTestController.cpp           | 36 +++++++++++++++++++
 .../modbus/ModbusTestController.hpp           |  1 +
 2 files changed, 37 insertions(+)

diff --git a/src/app/controller/modbus/ModbusTestController.cpp b/src/app/controller/modbus/ModbusTestController.cpp
index 6997c8b..ffe5a95 100644
--- a/src/app/controller/modbus/ModbusTestController.cpp
+++ b/src/app/controller/modbus/ModbusTestController.cpp
@@ -339,8 +339,44 @@ void ModbusTestController::process(MsgModbusConfigRsp const&)
     std::this_thread::sleep_for(2s);
 }
 
+bool ModbusTestController::isAddressed(MsgModbusAduReq const& req) const
+{
+    if (req.transactId >= testCases.size())
+    {
+        return false;
+    }
+    std::size_t const begin = req.startItem * 2u;
+    std::size_t const size = testCases[req.transactId].rsp.data.size();
+    switch (req.func)
+    {
+    case ModbusFunction::readHoldingRegisters:
+    case ModbusFunction::readInputRegisters:
+        return begin + req.numItems * 2u <= size;
+    case ModbusFunction::presetSingleRegister:
+    case ModbusFunction::presetMultipleRegisters:
+        return begin + req.numBytes <= size;
+    default:
+        return true;
+    }
+}
+
 Result ModbusTestController::process(MsgModbusAduReq const& req)
 {
+    if (not isAddressed(req))
+    {
+        LM(CTRL, LW, "Modbus request %u, illegal data address %u", req.transactId, req.startItem);
+        reactor::MsgStore<MsgModbusAduRsp> msgStore;
+        MsgModbusAduRsp& rsp = msgStore.getMsg();
+        rsp.serverId = req.serverId;
+        rsp.sessionId = req.sessionId;
+        rsp.transactId = req.transactId;
+        rsp.error = ModbusError::illegalDataAddress;
+        rsp.status = MsgStatus::success;
+        rsp.numBytes = 0;
+        Sender::sendMsg(msgStore);
+        return Result::done;
+    }
+
     auto& it = testCases[req.transactId];
 
     switch (req.func)
diff --git a/src/app/controller/modbus/ModbusTestController.hpp b/src/app/controller/modbus/ModbusTestController.hpp
index 688f99e..b103af3 100644
--- a/src/app/controller/modbus/ModbusTestController.hpp
+++ b/src/app/controller/modbus/ModbusTestController.hpp
@@ -61,6 +61,7 @@ public:
 private:
 
     void onTimerEvent();
+    bool isAddressed(MsgModbusAduReq const&) const;
 
     ModbusTestFsm fsm;
     reactor::TimerPtr timer;
-- 
2.43.0


From 59845a749c7bd834869ed74b4951fe54583bb96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:04 +0000
Subject: [PATCH 43/56] fix: a UA connection that was reset kept its slot until
 it expired

---
 src/app/ua/transport/server/UaTcpConnectionConnected.cpp    | 6 ++++++
 src/app/ua/transport/server/UaTcpConnectionConnected.hpp    | 2 ++
 src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp | 5 +++++
 src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp | 2 ++
 4 files changed, 15 insertions(+)

diff --git a/src/app/ua/transport/server/UaTcpConnectionConnected.cpp b/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
index dabfabd..2d1bdb3 100644
--- a/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
@@ -90,6 +90,12 @@ void UaTcpConnectionConnected::onReceive(UaTcpConnection& fsm, MsgUaConnectionRe
     fsm.transit<UaTcpConnectionInit>();
 }
 
+void UaTcpConnectionConnected::onError(UaTcpConnection& fsm)
+{
+    fsm.sendUaConnectionReleaseInd();
+    fsm.transit<UaTcpConnectionInit>();
+}
+
 void UaTcpConnectionConnected::onTimer(UaTcpConnection& fsm)
 {
     fsm.sendUaConnectionReleaseInd();
diff --git a/src/app/ua/transport/server/UaTcpConnectionConnected.hpp b/src/app/ua/transport/server/UaTcpConnectionConnected.hpp
index 2147924..cd71e85 100644
--- a/src/app/ua/transport/server/UaTcpConnectionConnected.hpp
+++ b/src/app/ua/transport/server/UaTcpConnectionConnected.hpp
@@ -24,6 +24,8 @@ public:
 
     void onReceive(UaTcpConnection&, MsgUaConnectionReleaseReq const&) final;
 
+    void onError(UaTcpConnection&) final;
+
     void onTimer(UaTcpConnection&) final;
 
     void onExit(UaTcpConnection&) final;
diff --git a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
index 6bf7299..09cada3 100644
--- a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
@@ -32,6 +32,11 @@ void UaTcpConnectionReceiveHello::onDataReceived(UaTcpConnection& fsm)
     }
 }
 
+void UaTcpConnectionReceiveHello::onError(UaTcpConnection& fsm)
+{
+    fsm.transit<UaTcpConnectionInit>();
+}
+
 void UaTcpConnectionReceiveHello::onTimer(UaTcpConnection& fsm)
 {
     fsm.transit<UaTcpConnectionInit>();
diff --git a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
index f1a3f8e..259e967 100644
--- a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
+++ b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
@@ -18,6 +18,8 @@ public:
 
     void onReceive(UaTcpConnection&, MsgUaOpenSecureChannelRsp const&) final;
 
+    void onError(UaTcpConnection&) final;
+
     void onTimer(UaTcpConnection&) final;
 
     void onExit(UaTcpConnection&) final;
-- 
2.43.0


From 40d204b6fe0005236b6df31bd0494e14c813e0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:04 +0000
Subject: [PATCH 44/56] fix: a Modbus server connection that was reset kept its
 session until it expired

---
 src/app/modbus/server/session/ModbusSession.cpp              | 4 +++-
 src/app/modbus/server/session/ModbusSessionConnected.cpp     | 5 +++++
 src/app/modbus/server/session/ModbusSessionConnected.hpp     | 2 ++
 src/app/modbus/server/session/ModbusSessionState.hpp         | 2 ++
 .../modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp  | 5 +++++
 .../modbus/server/session/ModbusSessionWaitModbusAduRsp.hpp  | 2 ++
 6 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/app/modbus/server/session/ModbusSession.cpp b/src/app/modbus/server/session/ModbusSession.cpp
index d34c798..9e0ad3e 100644
--- a/src/app/modbus/server/session/ModbusSession.cpp
+++ b/src/app/modbus/server/session/ModbusSession.cpp
@@ -52,8 +52,10 @@ void ModbusSession::onLinkEvent(reactor::LinkEvent ev)
     case reactor::LinkEvent::data:
         fsm.getState().onDataReceived(fsm);
     break;
-    case reactor::LinkEvent::connected:
     case reactor::LinkEvent::error:
+        fsm.getState().onError(fsm);
+    break;
+    case reactor::LinkEvent::connected:
         LM(MODBUS, LE, "Session-%u, unexpected", uid);
     break;
     }
diff --git a/src/app/modbus/server/session/ModbusSessionConnected.cpp b/src/app/modbus/server/session/ModbusSessionConnected.cpp
index f80e526..f8dffd9 100644
--- a/src/app/modbus/server/session/ModbusSessionConnected.cpp
+++ b/src/app/modbus/server/session/ModbusSessionConnected.cpp
@@ -40,6 +40,11 @@ void ModbusSessionConnected::onDataReceived(ModbusSessionFsm& fsm)
     }
 }
 
+void ModbusSessionConnected::onError(ModbusSessionFsm& fsm)
+{
+    fsm.transit<ModbusSessionInit>();
+}
+
 void ModbusSessionConnected::onTimer(ModbusSessionFsm& fsm)
 {
     fsm.transit<ModbusSessionInit>();
diff --git a/src/app/modbus/server/session/ModbusSessionConnected.hpp b/src/app/modbus/server/session/ModbusSessionConnected.hpp
index afee860..8ad589b 100644
--- a/src/app/modbus/server/session/ModbusSessionConnected.hpp
+++ b/src/app/modbus/server/session/ModbusSessionConnected.hpp
@@ -16,6 +16,8 @@ public:
 
     void onDataReceived(ModbusSessionFsm&) final;
 
+    void onError(ModbusSessionFsm&) final;
+
     void onTimer(ModbusSessionFsm&) final;
 
     void onExit(ModbusSessionFsm&) final;
diff --git a/src/app/modbus/server/session/ModbusSessionState.hpp b/src/app/modbus/server/session/ModbusSessionState.hpp
index 57cca27..54578b1 100644
--- a/src/app/modbus/server/session/ModbusSessionState.hpp
+++ b/src/app/modbus/server/session/ModbusSessionState.hpp
@@ -19,6 +19,8 @@ public:
 
     virtual void onDataReceived(ModbusSessionFsm&) { LM(MODBUS, LE, "Unexpected call"); }
 
+    virtual void onError(ModbusSessionFsm&) { LM(MODBUS, LE, "Unexpected call"); }
+
     virtual void onModbusAduRspReceive(ModbusSessionFsm&, MsgModbusAduRsp const&) { LM(MODBUS, LE, "Unexpected call"); }
 
     virtual void onTimer(ModbusSessionFsm&) { LM(MODBUS, LE, "Unexpected call"); }
diff --git a/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp b/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp
index 1f87949..4c5154e 100644
--- a/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp
+++ b/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp
@@ -51,6 +51,11 @@ void ModbusSessionWaitModbusAduRsp::onModbusAduRspReceive(ModbusSessionFsm& fsm,
     }
 }
 
+void ModbusSessionWaitModbusAduRsp::onError(ModbusSessionFsm& fsm)
+{
+    fsm.transit<ModbusSessionInit>();
+}
+
 void ModbusSessionWaitModbusAduRsp::onTimer(ModbusSessionFsm& fsm)
 {
     LM(MODBUS, LE, "onTimer");
diff --git a/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.hpp b/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.hpp
index 9c10348..fc138c2 100644
--- a/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.hpp
+++ b/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.hpp
@@ -16,6 +16,8 @@ public:
 
     void onDataReceived(ModbusSessionFsm&) final;
 
+    void onError(ModbusSessionFsm&) final;
+
     void onModbusAduRspReceive(ModbusSessionFsm&, MsgModbusAduRsp const&) final;
 
     void onTimer(ModbusSessionFsm&) final;
-- 
2.43.0


From 77990673676fcb8e69d0981a9c97f869e3c8eb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:58 +0000
Subject: [PATCH 45/56] fix: every request for an unknown service took memory
 for ever

---
 src/app/ua/service/UaService.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/app/ua/service/UaService.cpp b/src/app/ua/service/UaService.cpp
index f7edc3b..026ad52 100644
--- a/src/app/ua/service/UaService.cpp
+++ b/src/app/ua/service/UaService.cpp
@@ -49,14 +49,14 @@ void UaService::receive(MsgUaEncodedMessageReceiveInd const& msgReq)
 
     UaServiceId serviceId = std::get<UInt32>(eNodeId.nodeId.value);
 
-    auto& serv = services[static_cast<DataTypeId>(serviceId)];
-    if (not serv)
+    auto const it = services.find(static_cast<DataTypeId>(serviceId));
+    if (services.end() == it)
     {
         LM(UASRV, LE, "Unexpected service id(%u)", serviceId);
         return;
     }
 
-    serv->receive(msgReq.hdr, rx);
+    it->second->receive(msgReq.hdr, rx);
 }
 
 } // namespace app::ua::service
-- 
2.43.0


From 3578c49baccf1f631bd0f8c461c1e099dc71fc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:05 +0000
Subject: [PATCH 46/56] fix: a log message of 1024 or more characters
 overflowed its buffer

---
 src/app/common/logger/Logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/common/logger/Logger.hpp b/src/app/common/logger/Logger.hpp
index 6c7f6f7..cd9e4d5 100644
--- a/src/app/common/logger/Logger.hpp
+++ b/src/app/common/logger/Logger.hpp
@@ -35,7 +35,7 @@ enum class LogLevel
     if (app::LogLevel::LM_LEVEL >= app::Logger::getInst().getTaskLogLevel(app::LogTask::LM_TASK)) \
     {\
         char temporary___[1024];\
-        sprintf(temporary___, __VA_ARGS__);\
+        snprintf(temporary___, sizeof(temporary___), __VA_ARGS__);\
         app::Logger::getInst().dispatch(temporary___, app::LogLevel::LM_LEVEL, app::LogTask::LM_TASK, __FILE__, __LINE__);\
     }\
 }
-- 
2.43.0


From 3ac96f7e2814e3d9c9410b798d5c6af7444575ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:19 +0000
Subject: [PATCH 47/56] fix: an address could not be listened on again until a
 minute after its last connections

---
 src/app/common/reactor/Acceptor.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/app/common/reactor/Acceptor.cpp b/src/app/common/reactor/Acceptor.cpp
index 78c897f..f3da77a 100644
--- a/src/app/common/reactor/Acceptor.cpp
+++ b/src/app/common/reactor/Acceptor.cpp
@@ -50,6 +50,14 @@ void Acceptor::listen(LinkAddr const& address)
     {
         throw std::runtime_error("socket");
     }
+    // connections that were closed a short time ago must not prevent listening again
+    int const reuse = 1;
+    if (-1 == ::setsockopt(sfd, SOL_SOCKET, SO_REUSEADDR, &reuse, sizeof(reuse)))
+    {
+        ::close(sfd);
+        sfd = -1;
+        throw std::runtime_error("setsockopt");
+    }
     struct sockaddr_in addr;
     addr.sin_family = AF_INET;
     addr.sin_port = htons(ipv4port(address));
-- 
2.43.0


From ac733dade906896e32c1c7994f231033369c6045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:13 +0000
Subject: [PATCH 48/56] fix: the owner of an OPC UA connection was not told
 that the peer had reset it

The link reports a reset as an error event, and only the connecting states
handled it: during the handshake and afterwards the connection stayed as it
was, with a dead link, until its timer ran out.
---
 .../ua/protocols/connection/ClientConnectionConnected.cpp   | 6 ++++++
 .../ua/protocols/connection/ClientConnectionConnected.hpp   | 2 ++
 .../ua/protocols/connection/ClientConnectionReceiveAck.cpp  | 6 ++++++
 .../ua/protocols/connection/ClientConnectionReceiveAck.hpp  | 2 ++
 .../ua/protocols/connection/ServerConnectionConnected.cpp   | 6 ++++++
 .../ua/protocols/connection/ServerConnectionConnected.hpp   | 2 ++
 .../protocols/connection/ServerConnectionReceiveHello.cpp   | 6 ++++++
 .../protocols/connection/ServerConnectionReceiveHello.hpp   | 2 ++
 8 files changed, 32 insertions(+)

diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp b/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
index 0353470..beec570 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
@@ -34,6 +34,12 @@ void ClientConnectionConnected::onDataReceived(ClientConnection& fsm)
     }
 }
 
+void ClientConnectionConnected::onError(ClientConnection& fsm)
+{
+    fsm.notifyError();
+    fsm.transit<ClientConnectionInit>();
+}
+
 void ClientConnectionConnected::onClose(ClientConnection& fsm)
 {
     fsm.closeLink();
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnected.hpp b/src/app/common/ua/protocols/connection/ClientConnectionConnected.hpp
index 7429905..714049e 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnected.hpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnected.hpp
@@ -16,6 +16,8 @@ public:
 
     void onDataReceived(ClientConnection&) final;
 
+    void onError(ClientConnection&) final;
+
     void onClose(ClientConnection&) final;
 
     void onTimer(ClientConnection&) final;
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
index 8bc6483..3f1db7e 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
@@ -33,6 +33,12 @@ void ClientConnectionReceiveAck::onDataReceived(ClientConnection& fsm)
     }
 }
 
+void ClientConnectionReceiveAck::onError(ClientConnection& fsm)
+{
+    fsm.notifyError();
+    fsm.transit<ClientConnectionInit>();
+}
+
 void ClientConnectionReceiveAck::onTimer(ClientConnection& fsm)
 {
     fsm.closeLink();
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp
index 3e11196..5dcb312 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp
@@ -16,6 +16,8 @@ public:
 
     void onDataReceived(ClientConnection&) final;
 
+    void onError(ClientConnection&) final;
+
     void onTimer(ClientConnection&) final;
 
     void onExit(ClientConnection&) final;
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp b/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
index a48e05f..73ad1c5 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
@@ -34,6 +34,12 @@ void ServerConnectionConnected::onDataReceived(ServerConnection& fsm)
     }
 }
 
+void ServerConnectionConnected::onError(ServerConnection& fsm)
+{
+    fsm.notifyError();
+    fsm.transit<ServerConnectionInit>();
+}
+
 void ServerConnectionConnected::onClose(ServerConnection& fsm)
 {
     fsm.closeLink();
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnected.hpp b/src/app/common/ua/protocols/connection/ServerConnectionConnected.hpp
index 4e8cdec..5b38098 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnected.hpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnected.hpp
@@ -16,6 +16,8 @@ public:
 
     void onDataReceived(ServerConnection&) final;
 
+    void onError(ServerConnection&) final;
+
     void onClose(ServerConnection&) final;
 
     void onTimer(ServerConnection&) final;
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
index d000581..2b628b3 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
@@ -52,6 +52,12 @@ void ServerConnectionReceiveHello::onDataReceived(ServerConnection& fsm)
     }
 }
 
+void ServerConnectionReceiveHello::onError(ServerConnection& fsm)
+{
+    fsm.notifyError();
+    fsm.transit<ServerConnectionInit>();
+}
+
 void ServerConnectionReceiveHello::onTimer(ServerConnection& fsm)
 {
     LM(UA, LW, "onTimer");
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp
index 827c39b..e45c686 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp
@@ -16,6 +16,8 @@ public:
 
     void onDataReceived(ServerConnection&) final;
 
+    void onError(ServerConnection&) final;
+
     void onTimer(ServerConnection&) final;
 
     void onExit(ServerConnection&) final;
-- 
2.43.0


From 74a87f9eb75a39dcdd5b62097d114743d0bca26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:13 +0000
Subject: [PATCH 49/56] fix: closing an OPC UA connection on its connected
 event crashed

The timer is started after the owner was told, and closing releases it.
---
 .../ua/protocols/connection/ClientConnectionConnected.cpp       | 2 +-
 .../ua/protocols/connection/ServerConnectionConnected.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp b/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
index beec570..546b149 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
@@ -7,9 +7,9 @@ namespace app::ua
 
 void ClientConnectionConnected::onEnter(ClientConnection& fsm)
 {
-    fsm.notifyConnected();
     fsm.receivePreaction();
     fsm.startTimer(ClientConnection::establishTimeout);
+    fsm.notifyConnected();
 }
 
 void ClientConnectionConnected::onDataReceived(ClientConnection& fsm)
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp b/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
index 73ad1c5..649c516 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
@@ -7,9 +7,9 @@ namespace app::ua
 
 void ServerConnectionConnected::onEnter(ServerConnection& fsm)
 {
-    fsm.notifyConnected();
     fsm.receivePreaction();
     fsm.startTimer(ServerConnection::establishTimeout);
+    fsm.notifyConnected();
 }
 
 void ServerConnectionConnected::onDataReceived(ServerConnection& fsm)
-- 
2.43.0


From ebe2a40f91f762309f43f9f31aed7d4beed36924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:42 +0000
Subject: [PATCH 50/56] fix: an OPC UA connection whose connect failed at once
 was stuck for ever

Connecting throws when there is no route, for example: the state had changed
by then, but the timer that ends the attempt was not started yet.
---
 .../ua/protocols/connection/ClientConnectionConnecting.cpp      | 2 +-
 .../ua/protocols/connection/ServerConnectionConnecting.cpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp b/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
index c4a38e6..6a232af 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
@@ -8,8 +8,8 @@ namespace app::ua
 
 void ClientConnectionConnecting::onEnter(ClientConnection& fsm)
 {
-    fsm.connectLink();
     fsm.startTimer(ClientConnection::connectTimeout);
+    fsm.connectLink();
 }
 
 void ClientConnectionConnecting::onConnected(ClientConnection& fsm)
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp b/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
index 7390b3c..c623092 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
@@ -8,8 +8,8 @@ namespace app::ua
 
 void ServerConnectionConnecting::onEnter(ServerConnection& fsm)
 {
-    fsm.connectLink();
     fsm.startTimer(ServerConnection::connectTimeout);
+    fsm.connectLink();
 }
 
 void ServerConnectionConnecting::onConnected(ServerConnection& fsm)
-- 
2.43.0


From 0346ba46a178818d4a015b15a1e5b413aecaf724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:42 +0000
Subject: [PATCH 51/56] fix: an OPC UA connection that got no timer or link
 kept the other one

The connection it was given stayed open, with nobody to end it.
---
 .../protocols/connection/ClientConnectionInit.cpp  | 12 ++++++++++--
 .../protocols/connection/ServerConnectionInit.cpp  | 14 +++++++++++---
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/app/common/ua/protocols/connection/ClientConnectionInit.cpp b/src/app/common/ua/protocols/connection/ClientConnectionInit.cpp
index b02911e..bf4e057 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionInit.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionInit.cpp
@@ -13,8 +13,16 @@ void ClientConnectionInit::onEnter(ClientConnection& fsm)
 void ClientConnectionInit::onConnect(ClientConnection& fsm, reactor::LinkAddr const& addr)
 {
     fsm.setLinkAddr(addr);
-    fsm.allocLink();
-    fsm.allocTimer();
+    try
+    {
+        fsm.allocLink();
+        fsm.allocTimer();
+    }
+    catch (...)
+    {
+        fsm.releaseResources();
+        throw;
+    }
     fsm.transit<ClientConnectionConnecting>();
 }
 
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionInit.cpp b/src/app/common/ua/protocols/connection/ServerConnectionInit.cpp
index e1b0626..5b39f91 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionInit.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionInit.cpp
@@ -14,15 +14,23 @@ void ServerConnectionInit::onEnter(ServerConnection& fsm)
 void ServerConnectionInit::onConnect(ServerConnection& fsm, reactor::LinkAddr const& addr)
 {
     fsm.setLinkAddr(addr);
-    fsm.allocLink();
-    fsm.allocTimer();
+    try
+    {
+        fsm.allocLink();
+        fsm.allocTimer();
+    }
+    catch (...)
+    {
+        fsm.releaseResources();
+        throw;
+    }
     fsm.transit<ServerConnectionConnecting>();
 }
 
 void ServerConnectionInit::onAccept(ServerConnection& fsm, reactor::LinkPtr& link)
 {
-    fsm.setLink(link);
     fsm.allocTimer();
+    fsm.setLink(link);
     fsm.transit<ServerConnectionReceiveHello>();
 }
 
-- 
2.43.0


From 819d594e05d3a0ce6535a166a0c32499da14d534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:36 +0000
Subject: [PATCH 52/56] fix: a large message sent on an OPC UA secure channel
 overflowed its buffer

---
 .../ua/protocols/secure/OpcUaServerSecureChannel.cpp     | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
index 06f022c..2927241 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
@@ -180,10 +180,17 @@ void OpcUaServerSecureChannel::send(OpcUaSduBuffer const& buf)
     codec << secHdr;
 
     UaSequenceHeader seqHdr;
-    seqHdr.sequenceNumber = sequenceNumberTx++;
+    seqHdr.sequenceNumber = sequenceNumberTx;
     seqHdr.requestId = storedRequestId;
     codec << seqHdr;
 
+    if (buf.size() > tx.capacity())
+    {
+        LM(UA, LE, "OpcUaServerSecureChannel-0, message is too large, size(%u)", buf.size());
+        return;
+    }
+    sequenceNumberTx++;
+
     std::memcpy(tx.end(), buf.begin(), buf.size());
     tx.seek(buf.size());
 
-- 
2.43.0


From c1cef93a7270616ed75d1d4f3c05d9b5b837fd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:27 +0000
Subject: [PATCH 53/56] fix: modbus server: ignore an answer with a session id
 that does not exist (C14)

---
 src/app/modbus/server/ModbusServer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/app/modbus/server/ModbusServer.cpp b/src/app/modbus/server/ModbusServer.cpp
index 46a503a..8d6aaa5 100644
--- a/src/app/modbus/server/ModbusServer.cpp
+++ b/src/app/modbus/server/ModbusServer.cpp
@@ -39,6 +39,11 @@ void ModbusServer::receive(MsgModbusAduRsp const& rsp)
 {
     LM(MODBUS, LD, "Server-%u, ModbusAduRsp received", id);
 
+    if (rsp.sessionId >= maxNumSession)
+    {
+        LM(MODBUS, LE, "Server-%u, invalid sessionId, %u", id, rsp.sessionId);
+        return;
+    }
     sessionPool.get(rsp.sessionId).receive(rsp);
 }
 
-- 
2.43.0


From ace158bdf74e9dbaeb38bbeadabc827a027cc0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:21 +0000
Subject: [PATCH 54/56] fix: modbus server: an answer longer than a message
 overran the buffer (C14)

---
 src/app/modbus/server/session/ModbusSession.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/app/modbus/server/session/ModbusSession.cpp b/src/app/modbus/server/session/ModbusSession.cpp
index 9e0ad3e..b8d97c7 100644
--- a/src/app/modbus/server/session/ModbusSession.cpp
+++ b/src/app/modbus/server/session/ModbusSession.cpp
@@ -171,6 +171,11 @@ Result ModbusSession::send(MsgModbusAduRsp const& rsp)
     }
 
     AduRespond aduRsp;
+    if (rsp.numBytes > sizeof(aduRsp.data))
+    {
+        LM(MODBUS, LE, "Session-%u, unexpected number of bytes: %u", uid, rsp.numBytes);
+        return Result::done;
+    }
     aduRsp.transactId = rsp.transactId;
     aduRsp.func = (rsp.error != ModbusError::noerror) ? ModbusFunction::modbusError : storedAdu.func;
     aduRsp.addr = storedAdu.addr;
-- 
2.43.0


From 399972da82cd456a203299c897c955817be201fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:06 +0000
Subject: [PATCH 55/56] fix: ua transport: a message for a connection that is
 gone reached the next one (C06)

---
 src/app/common/ua/common/UaEntityPool.hpp     |  2 +-
 .../ua/transport/server/UaTcpConnection.cpp   | 11 +++++-
 .../ua/transport/server/UaTcpConnection.hpp   |  5 ++-
 src/app/ua/transport/server/UaTcpServer.cpp   | 39 +++++++++++++++----
 src/app/ua/transport/server/UaTcpServer.hpp   |  2 +
 5 files changed, 48 insertions(+), 11 deletions(-)

diff --git a/src/app/common/ua/common/UaEntityPool.hpp b/src/app/common/ua/common/UaEntityPool.hpp
index 9b822cd..13eb468 100644
--- a/src/app/common/ua/common/UaEntityPool.hpp
+++ b/src/app/common/ua/common/UaEntityPool.hpp
@@ -14,9 +14,9 @@ namespace app::ua
 template <typename ENTITY>
 class UaEntityPool
 {
+public:
     static constexpr unsigned capacity = 32;
 
-public:
     template <typename...OTHERS>
     explicit UaEntityPool(const char* name_, OTHERS&...others)
         : name(name_)
diff --git a/src/app/ua/transport/server/UaTcpConnection.cpp b/src/app/ua/transport/server/UaTcpConnection.cpp
index 74902b2..2a8f2e9 100644
--- a/src/app/ua/transport/server/UaTcpConnection.cpp
+++ b/src/app/ua/transport/server/UaTcpConnection.cpp
@@ -4,12 +4,14 @@
 #include "OpcUaBinaryCodec.hpp"
 #include "UaTcpDefs.hpp"
 #include "UaTransportSender.hpp"
+#include "UaEntityPool.hpp"
 
 namespace app::ua::transport
 {
 
 UaTcpConnection::UaTcpConnection(EntityId uid_, reactor::ReactorInterface& r, ReleaserInterface& releaser_)
     : FsmBase(&app::getSingleton<UaTcpConnectionInit>(), "UaTcpConnection")
+    , uid(uid_)
     , connectionId(uid_)
     , reactor(r)
     , releaser(releaser_)
@@ -20,6 +22,11 @@ UaTcpConnection::~UaTcpConnection()
 {
 }
 
+UaConnectionId UaTcpConnection::getConnectionId() const
+{
+    return connectionId;
+}
+
 void UaTcpConnection::sendUaConnectionReleaseInd()
 {
     if (not associatedSecureChannelId)
@@ -160,7 +167,9 @@ void UaTcpConnection::release()
     associatedSecureChannelId = {};
     link.reset();
     timer.reset();
-    releaser.release(connectionId);
+    // messages still on their way to this connection are not for the next one
+    connectionId += UaEntityPool<UaTcpConnection>::capacity;
+    releaser.release(uid);
 }
 
 void UaTcpConnection::allocTimer()
diff --git a/src/app/ua/transport/server/UaTcpConnection.hpp b/src/app/ua/transport/server/UaTcpConnection.hpp
index 14f5a90..dc2c1c4 100644
--- a/src/app/ua/transport/server/UaTcpConnection.hpp
+++ b/src/app/ua/transport/server/UaTcpConnection.hpp
@@ -34,6 +34,8 @@ public:
 
     ~UaTcpConnection();
 
+    UaConnectionId getConnectionId() const;
+
     Result receive(MsgUaOpenSecureChannelRsp const&);
     Result receive(MsgUaCloseSecureChannelRsp const&);
     Result receive(MsgUaSecuredMessageSendReq const&);
@@ -54,7 +56,8 @@ public:
     void sendUaConnectionReleaseInd(UaSecureChannelId);
 private:
 
-    UaConnectionId const connectionId;
+    EntityId const uid;
+    UaConnectionId connectionId;
     reactor::ReactorInterface& reactor;
     ReleaserInterface& releaser;
     reactor::LinkPtr link;
diff --git a/src/app/ua/transport/server/UaTcpServer.cpp b/src/app/ua/transport/server/UaTcpServer.cpp
index 926c0d9..900b50e 100644
--- a/src/app/ua/transport/server/UaTcpServer.cpp
+++ b/src/app/ua/transport/server/UaTcpServer.cpp
@@ -1,4 +1,5 @@
 #include "UaTcpServer.hpp"
+#include "UaTransportSender.hpp"
 #include "Logger.hpp"
 
 namespace app::ua::transport
@@ -17,26 +18,42 @@ UaTcpServer::~UaTcpServer()
 
 void UaTcpServer::receive(MsgUaOpenSecureChannelRsp const& msg)
 {
-    auto& connection = connectionPool.get(msg.connectionId);
-    connection.getState().onReceive(connection, msg);
+    if (auto* connection = findConnection(msg.connectionId))
+    {
+        connection->getState().onReceive(*connection, msg);
+    }
+    else
+    {
+        // the connection that asked for the channel is gone
+        reactor::MsgStore<MsgUaConnectionReleaseInd> msgStore;
+        msgStore.getMsg().connectionId = msg.connectionId;
+        msgStore.getMsg().secureChannelId = msg.secureChannelId;
+        Sender::sendMsg(msgStore);
+    }
 }
 
 void UaTcpServer::receive(MsgUaCloseSecureChannelRsp const& msg)
 {
-    auto& connection = connectionPool.get(msg.connectionId);
-    connection.getState().onReceive(connection, msg);
+    if (auto* connection = findConnection(msg.connectionId))
+    {
+        connection->getState().onReceive(*connection, msg);
+    }
 }
 
 void UaTcpServer::receive(MsgUaSecuredMessageSendReq const& msg)
 {
-    auto& connection = connectionPool.get(msg.connectionId);
-    connection.getState().onReceive(connection, msg);
+    if (auto* connection = findConnection(msg.connectionId))
+    {
+        connection->getState().onReceive(*connection, msg);
+    }
 }
 
 void UaTcpServer::receive(MsgUaConnectionReleaseReq const& msg)
 {
-    auto& connection = connectionPool.get(msg.connectionId);
-    connection.getState().onReceive(connection, msg);
+    if (auto* connection = findConnection(msg.connectionId))
+    {
+        connection->getState().onReceive(*connection, msg);
+    }
 }
 
 void UaTcpServer::listen(reactor::LinkAddr const& addr)
@@ -50,6 +67,12 @@ void UaTcpServer::release(UaConnectionId connectionId)
     connectionPool.release(connectionId);
 }
 
+UaTcpConnection* UaTcpServer::findConnection(UaConnectionId connectionId)
+{
+    auto& connection = connectionPool.get((connectionId - 1) % connectionPool.capacity + 1);
+    return connection.getConnectionId() == connectionId ? &connection : nullptr;
+}
+
 void UaTcpServer::onAcceptEvent()
 {
     LM(UATL, LD, "Uid=%u, onAcceptEvent", uid);
diff --git a/src/app/ua/transport/server/UaTcpServer.hpp b/src/app/ua/transport/server/UaTcpServer.hpp
index a905cfb..6dbebfb 100644
--- a/src/app/ua/transport/server/UaTcpServer.hpp
+++ b/src/app/ua/transport/server/UaTcpServer.hpp
@@ -28,6 +28,8 @@ public:
 private:
     void release(UaConnectionId) final;
 
+    UaTcpConnection* findConnection(UaConnectionId);
+
     void onAcceptEvent();
 
     EntityId const uid;
-- 
2.43.0


From a148c72177fb38354fcbf8545bd8c6f8ebf8c07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:18 +0000
Subject: [PATCH 56/56] fix: epoll: a pending event of a closed link reached
 its next connection (C19)

---
 src/app/common/reactor/Epoll.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Epoll.cpp b/src/app/common/reactor/Epoll.cpp
index a6e3452..78f4577 100644
--- a/src/app/common/reactor/Epoll.cpp
+++ b/src/app/common/reactor/Epoll.cpp
@@ -11,6 +11,15 @@
 namespace app::reactor
 {
 
+namespace
+{
+
+// the events of the current batch that are not handled yet
+thread_local struct epoll_event* pendingEvents = nullptr;
+thread_local int numPendingEvents = 0;
+
+} // namespace
+
 Epoll::Epoll(unsigned id_)
     : id(id_)
 {
@@ -44,6 +53,14 @@ int Epoll::mod(FileDescriptorInterface& fd, int events)
 
 int Epoll::del(FileDescriptorInterface& fd)
 {
+    // they belong to the descriptor that goes, not to the one that may follow
+    for (int n = 0; n < numPendingEvents; ++n)
+    {
+        if (pendingEvents[n].data.ptr == &fd)
+        {
+            pendingEvents[n].data.ptr = nullptr;
+        }
+    }
     struct epoll_event ev;
     ev.events = 0;
     ev.data.ptr = &fd;
@@ -65,8 +82,10 @@ void Epoll::wait()
     {
         if (events[n].data.ptr == nullptr)
         {
-            throw std::runtime_error("invalid ptr");
+            continue;
         }
+        pendingEvents = &events[n] + 1;
+        numPendingEvents = nfds - n - 1;
         FileDescriptorInterface& fd = *static_cast<FileDescriptorInterface*>(events[n].data.ptr);
         // the other events of this batch are not reported again
         try
@@ -78,6 +97,7 @@ void Epoll::wait()
             std::cerr << e.what() << std::endl;
         }
     }
+    numPendingEvents = 0;
 }
 
 } // namespace app::reactor
-- 
2.43.0

