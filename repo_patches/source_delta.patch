From 840f97e164a69efa7834e4600404283b61c821c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:40 +0000
Subject: [PATCH 01/10] fix: bound-check fixed size field values when decoding

Types::decodeFieldValue read the type octet and the fixed size values with
Buffer::copy without checking that many octets were available, so a truncated
table or array from a peer made the proxy read past the received data.
---
 libamqpprox/amqpprox_types.cpp | 72 +++++++++++++++++++++++++++++-----
 1 file changed, 62 insertions(+), 10 deletions(-)

diff --git a/libamqpprox/amqpprox_types.cpp b/libamqpprox/amqpprox_types.cpp
index e0252b5..7d953ae 100644
--- a/libamqpprox/amqpprox_types.cpp
+++ b/libamqpprox/amqpprox_types.cpp
@@ -59,6 +59,18 @@ bool decodeString(std::string *string, Buffer &buffer)
     return true;
 }
 
+/// Decode a fixed size value, or return false if it isn't all in the buffer
+template <typename T, typename V>
+bool decodeFixed(V *value, Buffer &buffer)
+{
+    if (buffer.available() < sizeof(T)) {
+        return false;
+    }
+
+    *value = buffer.copy<T>();
+    return true;
+}
+
 }
 
 using namespace boost::endian;
@@ -133,21 +145,37 @@ bool Types::decodeFieldValue(FieldValue *outValue, Buffer &buffer)
 {
     assert(outValue != nullptr);
 
-    char type = buffer.copy<char>();
+    char type = 0;
+    if (!decodeFixed<char>(&type, buffer)) {
+        return false;
+    }
+
     switch (type) {
     case 't':  // boolean
     {
-        FieldValue value(type, (buffer.copy<char>() != 0));
+        char raw = 0;
+        if (!decodeFixed<char>(&raw, buffer)) {
+            return false;
+        }
+        FieldValue value(type, (raw != 0));
         *outValue = value;
     } break;
     case 'b':  // short-short-int
     {
-        FieldValue value(type, (int64_t)buffer.copy<big_int8_t>());
+        int64_t raw = 0;
+        if (!decodeFixed<big_int8_t>(&raw, buffer)) {
+            return false;
+        }
+        FieldValue value(type, raw);
         *outValue = value;
     } break;
     case 'B':  // short-short-uint
     {
-        FieldValue value(type, (uint64_t)buffer.copy<big_uint8_t>());
+        uint64_t raw = 0;
+        if (!decodeFixed<big_uint8_t>(&raw, buffer)) {
+            return false;
+        }
+        FieldValue value(type, raw);
         *outValue = value;
     } break;
     case 'U':
@@ -155,28 +183,48 @@ bool Types::decodeFieldValue(FieldValue *outValue, Buffer &buffer)
         // fall through
     case 's':  // short-int
     {
-        FieldValue value('s', (int64_t)buffer.copy<big_int16_t>());
+        int64_t raw = 0;
+        if (!decodeFixed<big_int16_t>(&raw, buffer)) {
+            return false;
+        }
+        FieldValue value('s', raw);
         *outValue = value;
     } break;
     case 'u':  // short-uint
     {
-        FieldValue value(type, (uint64_t)buffer.copy<big_uint16_t>());
+        uint64_t raw = 0;
+        if (!decodeFixed<big_uint16_t>(&raw, buffer)) {
+            return false;
+        }
+        FieldValue value(type, raw);
         *outValue = value;
     } break;
     case 'I':  // long-int
     {
-        FieldValue value(type, (int64_t)buffer.copy<big_int32_t>());
+        int64_t raw = 0;
+        if (!decodeFixed<big_int32_t>(&raw, buffer)) {
+            return false;
+        }
+        FieldValue value(type, raw);
         *outValue = value;
     } break;
     case 'i':  // long-uint
     {
-        FieldValue value(type, (uint64_t)buffer.copy<big_uint32_t>());
+        uint64_t raw = 0;
+        if (!decodeFixed<big_uint32_t>(&raw, buffer)) {
+            return false;
+        }
+        FieldValue value(type, raw);
         *outValue = value;
     } break;
     case 'l':  // long-long-int
     case 'L':  // compatibility long-long-int
     {
-        FieldValue value(type, (int64_t)buffer.copy<big_int64_t>());
+        int64_t raw = 0;
+        if (!decodeFixed<big_int64_t>(&raw, buffer)) {
+            return false;
+        }
+        FieldValue value(type, raw);
         *outValue = value;
     } break;
     case 'f':  // float
@@ -226,7 +274,11 @@ bool Types::decodeFieldValue(FieldValue *outValue, Buffer &buffer)
     } break;
     case 'T':  // timestamp
     {
-        FieldValue value(type, (uint64_t)buffer.copy<big_uint64_t>());
+        uint64_t raw = 0;
+        if (!decodeFixed<big_uint64_t>(&raw, buffer)) {
+            return false;
+        }
+        FieldValue value(type, raw);
         *outValue = value;
     } break;
     case 'F':  // field-table
-- 
2.43.0


From bed701b2bb3e4b444e9c260c2cc06cacdf7b8aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:18 +0000
Subject: [PATCH 02/10] fix: ignore method frames too short to hold a method

PacketProcessor ignored the result of Method::decode, so a method frame with a
payload of less than four octets received during the handshake was handled
using an uninitialised class, method, payload pointer and length.
---
 libamqpprox/amqpprox_packetprocessor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libamqpprox/amqpprox_packetprocessor.cpp b/libamqpprox/amqpprox_packetprocessor.cpp
index 59959f8..4f4758d 100644
--- a/libamqpprox/amqpprox_packetprocessor.cpp
+++ b/libamqpprox/amqpprox_packetprocessor.cpp
@@ -87,7 +87,10 @@ void PacketProcessor::process(FlowType direction, const Buffer &readBuffer)
 
         if (1 == frame.type && d_connector.state() != Connector::State::OPEN) {
             Method method;
-            Method::decode(&method, frame.payload, frame.length);
+            if (!Method::decode(&method, frame.payload, frame.length)) {
+                LOG_WARN << "Ignoring method frame too short to hold a method";
+                continue;
+            }
 
             LOG_TRACE << ((direction == FlowType::INGRESS) ? "->" : "<-")
                       << " Frame: TYPE=" << (int)frame.type
-- 
2.43.0


From f231256fbeb4a14314053789befab3c9ba81df99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:08 +0000
Subject: [PATCH 03/10] fix: fail encoding tables and arrays with no room for
 their length

encodeFieldArray and encodeFieldTable skipped over the length field without
checking it fits, so with less than four octets left an empty table or array
was reported as encoded although nothing had been written and the buffer's
offset had moved past its end.
---
 libamqpprox/amqpprox_types.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libamqpprox/amqpprox_types.cpp b/libamqpprox/amqpprox_types.cpp
index 7d953ae..57a00fd 100644
--- a/libamqpprox/amqpprox_types.cpp
+++ b/libamqpprox/amqpprox_types.cpp
@@ -473,6 +473,9 @@ bool Types::encodeFieldArray(Buffer                        &buffer,
                              const std::vector<FieldValue> &vector)
 {
     Buffer writeBuffer = buffer.remaining();
+    if (writeBuffer.available() < sizeof(big_uint32_t)) {
+        return false;
+    }
     writeBuffer.skip(sizeof(big_uint32_t));
     std::size_t originalOffset = writeBuffer.offset();
 
@@ -521,6 +524,9 @@ bool Types::decodeFieldTable(FieldTable *table, Buffer &buffer)
 bool Types::encodeFieldTable(Buffer &buffer, const FieldTable &table)
 {
     Buffer writeBuffer = buffer.remaining();
+    if (writeBuffer.available() < sizeof(big_uint32_t)) {
+        return false;
+    }
     writeBuffer.skip(sizeof(big_uint32_t));
     std::size_t originalOffset = writeBuffer.offset();
 
-- 
2.43.0


From 331c158472f001da27e3682363f501ac1a88766e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:08 +0000
Subject: [PATCH 04/10] fix: limit the nesting of field tables and arrays when
 decoding

Decoding recurses for each level of nesting, so a StartOk or Start method with
tens of thousands of nested arrays, which fit in one frame, overflowed the
stack and took the whole proxy down.
---
 libamqpprox/amqpprox_types.cpp | 32 +++++++++++++++++++++++++-------
 libamqpprox/amqpprox_types.h   | 14 +++++++++++---
 2 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/libamqpprox/amqpprox_types.cpp b/libamqpprox/amqpprox_types.cpp
index 57a00fd..37e726a 100644
--- a/libamqpprox/amqpprox_types.cpp
+++ b/libamqpprox/amqpprox_types.cpp
@@ -39,6 +39,10 @@ const int FLOAT_OCTETS   = 4;
 const int DOUBLE_OCTETS  = 8;
 const int DECIMAL_OCTETS = 5;
 
+// Field tables and arrays nested deeper than this fail to decode, as every
+// level uses up stack space
+const std::size_t MAX_NESTING_DEPTH = 128;
+
 template <typename T>
 bool decodeString(std::string *string, Buffer &buffer)
 {
@@ -141,7 +145,9 @@ bool Types::encodeByteVector(Buffer                     &buffer,
     return true;
 }
 
-bool Types::decodeFieldValue(FieldValue *outValue, Buffer &buffer)
+bool Types::decodeFieldValue(FieldValue *outValue,
+                             Buffer     &buffer,
+                             std::size_t depth)
 {
     assert(outValue != nullptr);
 
@@ -266,7 +272,7 @@ bool Types::decodeFieldValue(FieldValue *outValue, Buffer &buffer)
     case 'A':  // field-array
     {
         std::vector<FieldValue> val;
-        if (!decodeFieldArray(&val, buffer)) {
+        if (!decodeFieldArray(&val, buffer, depth)) {
             return false;
         }
         FieldValue value(type, val);
@@ -284,7 +290,7 @@ bool Types::decodeFieldValue(FieldValue *outValue, Buffer &buffer)
     case 'F':  // field-table
     {
         auto sp = std::make_shared<FieldTable>();
-        if (!decodeFieldTable(sp.get(), buffer)) {
+        if (!decodeFieldTable(sp.get(), buffer, depth)) {
             return false;
         }
         FieldValue value(type, sp);
@@ -443,10 +449,16 @@ bool Types::encodeFieldValue(Buffer &buffer, const FieldValue &fv)
     return true;
 }
 
-bool Types::decodeFieldArray(std::vector<FieldValue> *vector, Buffer &buffer)
+bool Types::decodeFieldArray(std::vector<FieldValue> *vector,
+                             Buffer                  &buffer,
+                             std::size_t              depth)
 {
     assert(vector != nullptr);
 
+    if (depth >= MAX_NESTING_DEPTH) {
+        return false;
+    }
+
     if (sizeof(big_uint32_t) > buffer.available()) {
         return false;
     }
@@ -459,7 +471,7 @@ bool Types::decodeFieldArray(std::vector<FieldValue> *vector, Buffer &buffer)
     auto arrayBuffer = buffer.consume(arrayLength);
     while (arrayBuffer.available() > 0) {
         FieldValue value('V', false);
-        if (!decodeFieldValue(&value, arrayBuffer)) {
+        if (!decodeFieldValue(&value, arrayBuffer, depth + 1)) {
             return false;
         }
 
@@ -493,8 +505,14 @@ bool Types::encodeFieldArray(Buffer                        &buffer,
     return true;
 }
 
-bool Types::decodeFieldTable(FieldTable *table, Buffer &buffer)
+bool Types::decodeFieldTable(FieldTable *table,
+                             Buffer     &buffer,
+                             std::size_t depth)
 {
+    if (depth >= MAX_NESTING_DEPTH) {
+        return false;
+    }
+
     if (sizeof(big_uint32_t) > buffer.available()) {
         return false;
     }
@@ -512,7 +530,7 @@ bool Types::decodeFieldTable(FieldTable *table, Buffer &buffer)
         }
 
         FieldValue value('V', false);
-        if (!decodeFieldValue(&value, tBuffer)) {
+        if (!decodeFieldValue(&value, tBuffer, depth + 1)) {
             return false;
         }
 
diff --git a/libamqpprox/amqpprox_types.h b/libamqpprox/amqpprox_types.h
index a66fcd0..ddd3d81 100644
--- a/libamqpprox/amqpprox_types.h
+++ b/libamqpprox/amqpprox_types.h
@@ -102,9 +102,12 @@ class Types {
      * type
      * \param value AMQP field type stored as `FieldValue`
      * \param buffer raw data stored as `Buffer`
+     * \param depth number of tables and arrays this is nested in
      * \return true in case of success, otherwise false
      */
-    static bool decodeFieldValue(FieldValue *value, Buffer &buffer);
+    static bool decodeFieldValue(FieldValue *value,
+                                 Buffer     &buffer,
+                                 std::size_t depth = 0);
 
     /**
      * \brief Encode AMQP field type and write the data into the specified
@@ -121,10 +124,12 @@ class Types {
      * \param vector AMQP field type array stored as std::vector of
      * `FieldValue`
      * \param buffer raw data stored as `Buffer`
+     * \param depth number of tables and arrays this is nested in
      * \return true in case of success, otherwise false
      */
     static bool decodeFieldArray(std::vector<FieldValue> *vector,
-                                 Buffer                  &buffer);
+                                 Buffer                  &buffer,
+                                 std::size_t              depth = 0);
 
     /**
      * \brief Encode AMQP field type array and write the data into the
@@ -141,9 +146,12 @@ class Types {
      * table type
      * \param table AMQP field table type stored as `FieldTable`
      * \param buffer raw data stored as `Buffer`
+     * \param depth number of tables and arrays this is nested in
      * \return true in case of success, otherwise false
      */
-    static bool decodeFieldTable(FieldTable *table, Buffer &buffer);
+    static bool decodeFieldTable(FieldTable *table,
+                                 Buffer     &buffer,
+                                 std::size_t depth = 0);
 
     /**
      * \brief Encode AMQP field table and write the data into the specified
-- 
2.43.0


From b649cc69e75ea9e2c1c66a65149cd116ff1252e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:31 +0000
Subject: [PATCH 05/10] fix: only accept handshake methods from the side they
 are expected from

A client could send the server's half of the handshake (Start, Tune, OpenOk)
after its own Open, and so drive the session to the open state before, or
without, the broker having taken part.
---
 libamqpprox/amqpprox_connector.cpp | 42 +++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/libamqpprox/amqpprox_connector.cpp b/libamqpprox/amqpprox_connector.cpp
index 61e0111..383c181 100644
--- a/libamqpprox/amqpprox_connector.cpp
+++ b/libamqpprox/amqpprox_connector.cpp
@@ -64,7 +64,8 @@ template <typename T>
 void decodeMethod(T            *t,
                   const Method &method,
                   Buffer       &buffer,
-                  FlowType      direction)
+                  FlowType      direction,
+                  FlowType      expectedDirection)
 {
     if (method.methodType != T::methodType()) {
         std::ostringstream oss;
@@ -88,6 +89,12 @@ void decodeMethod(T            *t,
         }
     }
 
+    if (direction != expectedDirection) {
+        std::ostringstream oss;
+        oss << "Unexpected " << typeid(T).name() << " from " << direction;
+        throw std::runtime_error(oss.str());
+    }
+
     if (!T::decode(t, buffer)) {
         std::ostringstream oss;
         oss << "Failed to decode " << typeid(T).name();
@@ -165,7 +172,11 @@ void Connector::receive(const Method &method, FlowType direction)
     } break;
     // Acting as a server
     case State::START_SENT: {
-        decodeMethod(&d_startOk, method, methodPayload, direction);
+        decodeMethod(&d_startOk,
+                     method,
+                     methodPayload,
+                     direction,
+                     FlowType::INGRESS);
 
         LOG_TRACE << "StartOk: " << d_startOk;
 
@@ -173,7 +184,11 @@ void Connector::receive(const Method &method, FlowType direction)
         d_state = State::TUNE_SENT;
     } break;
     case State::TUNE_SENT: {
-        decodeMethod(&d_tuneOk, method, methodPayload, direction);
+        decodeMethod(&d_tuneOk,
+                     method,
+                     methodPayload,
+                     direction,
+                     FlowType::INGRESS);
 
         LOG_TRACE << "TuneOk: " << d_tuneOk;
 
@@ -181,7 +196,11 @@ void Connector::receive(const Method &method, FlowType direction)
     } break;
 
     case State::AWAITING_OPEN: {
-        decodeMethod(&d_open, method, methodPayload, direction);
+        decodeMethod(&d_open,
+                     method,
+                     methodPayload,
+                     direction,
+                     FlowType::INGRESS);
 
         d_sessionState_p->setVirtualHost(d_open.virtualHost());
         d_eventSource_p->connectionVhostEstablished().emit(
@@ -194,7 +213,11 @@ void Connector::receive(const Method &method, FlowType direction)
     } break;
     // Acting as a client
     case State::AWAITING_CONNECTION: {
-        decodeMethod(&d_receivedStart, method, methodPayload, direction);
+        decodeMethod(&d_receivedStart,
+                     method,
+                     methodPayload,
+                     direction,
+                     FlowType::EGRESS);
 
         LOG_TRACE << "Server Start: " << d_receivedStart;
 
@@ -216,7 +239,11 @@ void Connector::receive(const Method &method, FlowType direction)
     } break;
     // Acting as a client
     case State::STARTOK_SENT: {
-        decodeMethod(&d_receivedTune, method, methodPayload, direction);
+        decodeMethod(&d_receivedTune,
+                     method,
+                     methodPayload,
+                     direction,
+                     FlowType::EGRESS);
         LOG_TRACE << "Server Tune: " << d_receivedTune;
 
         sendResponse(d_tuneOk, false);
@@ -224,7 +251,8 @@ void Connector::receive(const Method &method, FlowType direction)
         d_state = State::OPEN_SENT;
     } break;
     case State::OPEN_SENT: {
-        if (method.methodType == methods::OpenOk::methodType()) {
+        if (direction == FlowType::EGRESS &&
+            method.methodType == methods::OpenOk::methodType()) {
             // We are good to go
             d_state = State::OPEN;
 
-- 
2.43.0


From 622b9db49630ca1b539b46154e5ef290a4bb22f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:20 +0000
Subject: [PATCH 06/10] fix: count all data read over TLS towards the data rate
 limits

MaybeSecureSocketAdaptor::read_some did not record the octets read from a TLS
socket when the one octet buffer was not in use.
---
 libamqpprox/amqpprox_maybesecuresocketadaptor.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libamqpprox/amqpprox_maybesecuresocketadaptor.h b/libamqpprox/amqpprox_maybesecuresocketadaptor.h
index 12a3c64..c745369 100644
--- a/libamqpprox/amqpprox_maybesecuresocketadaptor.h
+++ b/libamqpprox/amqpprox_maybesecuresocketadaptor.h
@@ -354,7 +354,11 @@ class MaybeSecureSocketAdaptor
                 return result;
             }
 
-            return d_socket->read_some(buffers, ec);
+            size_t result = d_socket->read_some(buffers, ec);
+
+            recordReadUsage(result);
+
+            return result;
         }
         else {
             size_t result = d_socket->next_layer().read_some(buffers, ec);
-- 
2.43.0


From 80fba743179f73df98eaea39e6b3e3db34395394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:16 +0000
Subject: [PATCH 07/10] fix: keep reading from the client after a paused
 session is resumed

Data received from the client while the session is paused was left in the
read buffer without starting another read, so that after unpausing nothing
from the client was ever passed on.
---
 libamqpprox/amqpprox_session.cpp | 14 ++++++++++++++
 libamqpprox/amqpprox_session.h   |  1 +
 2 files changed, 15 insertions(+)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index 9dca7b4..3579f7e 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -154,6 +154,7 @@ Session::Session(
 , d_egressWaitingSince()
 , d_egressRetryCounter(0)
 , d_ingressCurrentlyReading(false)
+, d_ingressHeldWhilePaused(false)
 , d_ingressStartedAt()
 , d_egressCurrentlyReading(false)
 , d_egressStartedAt()
@@ -614,6 +615,16 @@ void Session::unpause()
             d_sessionState.setReadyToConnectOnUnpause(false);
             d_sessionState.setPaused(false);
             establishConnection();
+
+            // Anything the client sent while paused (e.g. a heartbeat) was
+            // left in the buffer and stopped the reading of further data.
+            auto self(shared_from_this());
+            d_ioContext.dispatch([this, self] {
+                if (d_ingressHeldWhilePaused) {
+                    d_ingressHeldWhilePaused = false;
+                    handleData(FlowType::INGRESS);
+                }
+            });
         }
         else {
             this->disconnect(true);
@@ -825,6 +836,9 @@ void Session::readData(FlowType direction)
                     !d_sessionState.getPaused()) {
                     handleData(direction);
                 }
+                else {
+                    d_ingressHeldWhilePaused = true;
+                }
             }
             else if (ec == boost::asio::error::would_block) {
                 readData(direction);
diff --git a/libamqpprox/amqpprox_session.h b/libamqpprox/amqpprox_session.h
index 545a9b0..38b941a 100644
--- a/libamqpprox/amqpprox_session.h
+++ b/libamqpprox/amqpprox_session.h
@@ -80,6 +80,7 @@ class Session : public std::enable_shared_from_this<Session> {
     TimePoint                    d_egressWaitingSince;
     uint32_t                     d_egressRetryCounter;
     bool                         d_ingressCurrentlyReading;
+    bool                         d_ingressHeldWhilePaused;
     TimePoint                    d_ingressStartedAt;
     bool                         d_egressCurrentlyReading;
     TimePoint                    d_egressStartedAt;
-- 
2.43.0


From 624ccbb034045143e9697f476b65ca8d4183481b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:25 +0000
Subject: [PATCH 08/10] fix: do not take an http error of the auth service for
 an allow

---
 libamqpprox/amqpprox_httpauthintercept.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libamqpprox/amqpprox_httpauthintercept.cpp b/libamqpprox/amqpprox_httpauthintercept.cpp
index eb192fa..67b7c14 100644
--- a/libamqpprox/amqpprox_httpauthintercept.cpp
+++ b/libamqpprox/amqpprox_httpauthintercept.cpp
@@ -244,6 +244,21 @@ void HttpAuthIntercept::onRead(
         responseCb(errorResponseData);
         return;
     }
+    // An empty body is a valid serialized ALLOW response, so an error reported
+    // by the http service must not be taken for one.
+    if (authResponseData.result() == authproto::AuthResponse::ALLOW &&
+        beast::http::to_status_class(response->result_int()) !=
+            beast::http::status_class::successful) {
+        const std::string errorMsg =
+            "Unsuccessful http status received from auth service: " +
+            std::to_string(response->result_int());
+        LOG_ERROR << errorMsg;
+        authproto::AuthResponse errorResponseData;
+        errorResponseData.set_result(authproto::AuthResponse::DENY);
+        errorResponseData.set_reason(errorMsg);
+        responseCb(errorResponseData);
+        return;
+    }
     LOG_TRACE << "Response from auth route gate service at " << d_hostname
               << ":" << d_port << d_target << ": "
               << "[ Auth Result: "
-- 
2.43.0


From 28dc3c95e1c9ca11be949f44b6eb96b0a3374fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:25 +0000
Subject: [PATCH 09/10] fix: refuse a backend port that is out of range

---
 libamqpprox/amqpprox_backendcontrolcommand.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libamqpprox/amqpprox_backendcontrolcommand.cpp b/libamqpprox/amqpprox_backendcontrolcommand.cpp
index ecec1d9..64ad6ad 100644
--- a/libamqpprox/amqpprox_backendcontrolcommand.cpp
+++ b/libamqpprox/amqpprox_backendcontrolcommand.cpp
@@ -74,7 +74,8 @@ void BackendControlCommand::handleCommand(const std::string & /* command */,
         boost::to_upper(arg1);
         boost::to_upper(arg2);
 
-        if (!name.empty() && !datacenter.empty() && !host.empty() && port) {
+        if (!name.empty() && !datacenter.empty() && !host.empty() &&
+            port > 0 && port <= 65535) {
             std::string ip;
             if (!isDns) {
                 auto &ioContext = controlHandle->ioContext();
-- 
2.43.0


From ea3b5fb64ab2cefcd8f034adcbc06028e88aba99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:25 +0000
Subject: [PATCH 10/10] fix: do not stop all listeners when the port given is
 invalid

---
 libamqpprox/amqpprox_listencontrolcommand.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libamqpprox/amqpprox_listencontrolcommand.cpp b/libamqpprox/amqpprox_listencontrolcommand.cpp
index 896d8cd..2134773 100644
--- a/libamqpprox/amqpprox_listencontrolcommand.cpp
+++ b/libamqpprox/amqpprox_listencontrolcommand.cpp
@@ -64,11 +64,14 @@ void ListenControlCommand::handleCommand(const std::string & /* command */,
         }
         else if (subcommand == "STOP") {
             int port = -1;
-            if (iss >> port && port > 0 && port <= 65535) {
+            if ((iss >> std::ws).eof()) {
+                serverHandle->stopAllListening();
+            }
+            else if (iss >> port && port > 0 && port <= 65535) {
                 serverHandle->stopListening(port);
             }
             else {
-                serverHandle->stopAllListening();
+                output << "Invalid port provided.\n";
             }
         }
         else {
-- 
2.43.0

