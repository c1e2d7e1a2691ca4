From 69895b5f2be2c2da92b0668837aac0c8a97ab572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:28 +0000
Subject: [PATCH 01/38] fix: decode WebSocket frames of any header size split
 at any point

A header was only considered complete once 6 or 14 bytes were available: the
first payload bytes of a frame with a 2, 4, 8 or 10 bytes header were swallowed
when the frame was cut early, and unmasked short frames never completed. The
end of the payload was compared against an already updated size, so a payload
received in three chunks or more was reported complete too early.
---
 include/http/WebSocket.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 3af01e4..a3fce1b 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -80,8 +80,7 @@ struct Header {
 
     /// @return true if first 'size' bytes constitute a complete header
     [[nodiscard]] bool isComplete(size_t size) const {
-        if (size < 2) return false;
-        return std::to_integer<uint8_t>(raw[1] & std::byte(0b1111111)) < 126 ? size >= 6 : size >= 14;
+        return size >= 2 && size >= headerSize();
     }
 
     void setFIN(bool set) {
@@ -203,7 +202,7 @@ public:
         } break;
         case DecodingState::decodingPayload: {
             decodePayload(buffer.first(std::min(payloadSize - payloadBuffer.size(), buffer.size())));
-            return (buffer.size() >= (payloadSize - payloadBuffer.size()));
+            return payloadBuffer.size() == payloadSize;
         }
         }
         return false;
-- 
2.43.0


From 850a07597287eb2c3ee71b67d129252622d5fd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:02 +0000
Subject: [PATCH 02/38] fix: do not reserve memory for an announced WebSocket
 payload size

A frame header announcing a huge payload made the decoder throw (or allocate
the announced size) before any payload byte was received. The log dump also
read an extended length beyond the end of short headers.
---
 include/http/WebSocket.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index a3fce1b..dec5fed 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -47,6 +47,7 @@ struct Header {
     [[nodiscard]] bool MASK() const { return test(1, 7); }
     [[nodiscard]] uint8_t payloadLenField() const { return std::to_integer<uint8_t>(raw[1] & std::byte(0b1111111)); }
     [[nodiscard]] uint64_t extendedLenField() const {
+        if (payloadLenField() < 126) return 0;
         auto s = [this](size_t i, uint8_t shift = 0) constexpr { return std::to_integer<uint64_t>(raw[i]) << shift; };
         return payloadLenField() == 126 ? s(2, 8) | s(3) : s(2, 56) | s(3, 48) | s(4, 40) | s(5, 32) | s(6, 24) | s(7, 16) | s(8, 8) | s(9, 0);
     }
@@ -169,7 +170,7 @@ public:
             headerSize = reinterpret_cast<const Header*>(input)->headerSize();
             mask = reinterpret_cast<const Header*>(input)->maskingKey();
             frameType = reinterpret_cast<const Header*>(input)->opcode();
-            payloadBuffer.reserve(payloadSize);
+            payloadBuffer.reserve(std::min(payloadSize, maxReservedSize));
         };
         auto bufferizeHeaderData = [&](std::span<const std::byte> input) -> size_t {
             for (size_t index = 0; index < input.size(); ++index) {
@@ -216,6 +217,7 @@ public:
     }
 
 private:
+    static constexpr size_t maxReservedSize = 65536; // announced sizes are not trusted beyond this value
     enum class DecodingState { starting, partialHeader, decodingPayload } state;
     std::vector<std::byte> payloadBuffer;
     Header headerBuffer;
-- 
2.43.0


From 97463b37660e4be395d6c3b3e370a0d62280c1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:34 +0000
Subject: [PATCH 03/38] fix: process every WebSocket frame of a received buffer

Frames received in the same read as the end of a previous one were dropped.
---
 include/http/WebSocket.hpp | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index dec5fed..aa196a4 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -158,7 +158,10 @@ public:
     FrameDecoder() : payloadBuffer(sizeof(Header)) { reset(); }
     std::span<const std::byte> payload() const { return std::span(payloadBuffer.data(), payloadSize); }
 
-    // Parses some incoming data and tries to decode it.
+    // @return count of bytes of the last parsed buffer which belong to the current frame
+    size_t consumed() const { return consumedSize; }
+
+    // Parses some incoming data and tries to decode it. Data following the end of the frame is not consumed.
     // @return true if the frame is complete, false if it needs more data
     bool parse(std::span<const std::byte> buffer) {
         auto decodePayload = [&](std::span<const std::byte> encoded) -> size_t {
@@ -185,24 +188,30 @@ public:
             if (reinterpret_cast<const Header*>(buffer.data())->isComplete(buffer.size())) {
                 reinterpret_cast<const Header*>(buffer.data())->dump();
                 decodeHeader(buffer.data());
-                if (decodePayload(buffer.subspan(headerSize, std::min(buffer.size() - headerSize, payloadSize))) == payloadSize) return true;
+                auto encoded = buffer.subspan(headerSize, std::min(buffer.size() - headerSize, payloadSize));
+                consumedSize = headerSize + encoded.size();
+                if (decodePayload(encoded) == payloadSize) return true;
                 state = DecodingState::decodingPayload;
             }
             else {
-                bufferizeHeaderData(buffer);
+                consumedSize = bufferizeHeaderData(buffer);
                 state = DecodingState::partialHeader;
             }
             break;
         case DecodingState::partialHeader: {
-            auto consumedData = bufferizeHeaderData(buffer);
+            consumedSize = bufferizeHeaderData(buffer);
             if (headerBuffer.isComplete(headerBufferParser)) {
                 decodeHeader(headerBuffer.raw.data());
-                if (decodePayload(buffer.subspan(consumedData, std::min(buffer.size() - consumedData, payloadSize))) == payloadSize) return true;
+                auto encoded = buffer.subspan(consumedSize, std::min(buffer.size() - consumedSize, payloadSize));
+                consumedSize += encoded.size();
+                if (decodePayload(encoded) == payloadSize) return true;
                 state = DecodingState::decodingPayload;
             }
         } break;
         case DecodingState::decodingPayload: {
-            decodePayload(buffer.first(std::min(payloadSize - payloadBuffer.size(), buffer.size())));
+            auto encoded = buffer.first(std::min(payloadSize - payloadBuffer.size(), buffer.size()));
+            consumedSize = encoded.size();
+            decodePayload(encoded);
             return payloadBuffer.size() == payloadSize;
         }
         }
@@ -222,7 +231,7 @@ private:
     std::vector<std::byte> payloadBuffer;
     Header headerBuffer;
     size_t headerBufferParser;
-    size_t payloadSize, headerSize;
+    size_t payloadSize, headerSize, consumedSize{};
     std::array<std::byte, 4> mask;
     uint8_t maskIndex;
 };
@@ -273,7 +282,11 @@ private:
     void read() {
         socket.async_read_some(Net::Buffer(readBuffer), [this](std::error_code ec, std::size_t bytesTransferred) {
             if (!ec) {
-                if (decoder.parse(std::span(readBuffer.data(), bytesTransferred))) {
+                auto received = std::span<const std::byte>(readBuffer.data(), bytesTransferred);
+                while (!received.empty()) {
+                    auto complete = decoder.parse(received);
+                    received = received.subspan(decoder.consumed());
+                    if (!complete) continue;
                     auto data = decoder.payload();
                     switch (decoder.frameType) {
                     case Header::Opcode::text:
-- 
2.43.0


From 4cbd0b4cc733c0a7f751598a27bcfab47ee7f57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:54 +0000
Subject: [PATCH 04/38] fix: reassemble fragmented WebSocket messages

Each fragment of a text or binary message was delivered as a message of its
own and the continuation frames were ignored.
---
 include/http/WebSocket.hpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index aa196a4..ffedb73 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -12,6 +12,8 @@
 #include <memory>
 #include <set>
 #include <span>
+#include <utility>
+#include <vector>
 
 namespace webfront::websocket {
 using Handle = uint32_t;
@@ -153,6 +155,7 @@ struct Frame : public Header {
 class FrameDecoder {
 public:
     Header::Opcode frameType;
+    bool lastFragment; // FIN flag of the decoded frame
 
 public:
     FrameDecoder() : payloadBuffer(sizeof(Header)) { reset(); }
@@ -173,6 +176,7 @@ public:
             headerSize = reinterpret_cast<const Header*>(input)->headerSize();
             mask = reinterpret_cast<const Header*>(input)->maskingKey();
             frameType = reinterpret_cast<const Header*>(input)->opcode();
+            lastFragment = reinterpret_cast<const Header*>(input)->FIN();
             payloadBuffer.reserve(std::min(payloadSize, maxReservedSize));
         };
         auto bufferizeHeaderData = [&](std::span<const std::byte> input) -> size_t {
@@ -273,12 +277,31 @@ public:
 private:
     std::array<std::byte, receptionBufferSize> readBuffer;
     FrameDecoder decoder;
+    std::vector<std::byte> fragments;                             // first fragments of an incomplete message
+    Header::Opcode fragmentsType = Header::Opcode::continuation; // type of the message they belong to
     std::function<void(std::string_view)> textHandler;
     std::function<void(std::span<const std::byte>)> binaryHandler;
     std::function<void(CloseEvent)> closeHandler;
     bool started;
 
 private:
+    // Adds the decoded frame to the message being received
+    // @return the type of the message if it is complete (data is then its whole payload), Opcode::continuation otherwise
+    Header::Opcode assemble(std::span<const std::byte>& data) {
+        using enum Header::Opcode;
+        if (decoder.frameType > binary) return decoder.frameType; // control frames can't be fragmented
+        if (decoder.frameType != continuation) {
+            fragmentsType = decoder.lastFragment ? continuation : decoder.frameType;
+            if (decoder.lastFragment) return decoder.frameType;
+            fragments.clear();
+        }
+        if (fragmentsType == continuation) return continuation; // no message to continue
+        fragments.insert(fragments.end(), data.begin(), data.end());
+        if (!decoder.lastFragment) return continuation;
+        data = fragments;
+        return std::exchange(fragmentsType, continuation);
+    }
+
     void read() {
         socket.async_read_some(Net::Buffer(readBuffer), [this](std::error_code ec, std::size_t bytesTransferred) {
             if (!ec) {
@@ -288,7 +311,7 @@ private:
                     received = received.subspan(decoder.consumed());
                     if (!complete) continue;
                     auto data = decoder.payload();
-                    switch (decoder.frameType) {
+                    switch (assemble(data)) {
                     case Header::Opcode::text:
                         if (textHandler) textHandler(std::string_view(reinterpret_cast<const char*>(data.data()), data.size()));
                         break;
-- 
2.43.0


From 8eb788e668ef6e63199aca1e24ceae4e8e990dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:44 +0000
Subject: [PATCH 05/38] fix: signal the end of a WebSocket once and stop using
 it

After a close frame a new reception was started on the closed socket, whose
failure ran the close handler again; a failing write followed by the aborted
read did too, and messages received with the close frame were still delivered.
A second call to start() put two receptions in flight on the same buffer.
---
 include/http/WebSocket.hpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index ffedb73..bdad7f4 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -257,6 +257,7 @@ public:
     ~WebSocket() { log::debug("WebSocket destructor"); }
 
     void start() {
+        if (started) return; // a reception is already pending
         started = true;
         read();
     }
@@ -285,6 +286,12 @@ private:
     bool started;
 
 private:
+    // Stops the communication then notifies it
+    void close(CloseEvent event) {
+        stop();
+        if (auto handler = std::exchange(closeHandler, nullptr)) handler(std::move(event));
+    }
+
     // Adds the decoded frame to the message being received
     // @return the type of the message if it is complete (data is then its whole payload), Opcode::continuation otherwise
     Header::Opcode assemble(std::span<const std::byte>& data) {
@@ -306,7 +313,7 @@ private:
         socket.async_read_some(Net::Buffer(readBuffer), [this](std::error_code ec, std::size_t bytesTransferred) {
             if (!ec) {
                 auto received = std::span<const std::byte>(readBuffer.data(), bytesTransferred);
-                while (!received.empty()) {
+                while (started && !received.empty()) {
                     auto complete = decoder.parse(received);
                     received = received.subspan(decoder.consumed());
                     if (!complete) continue;
@@ -318,20 +325,16 @@ private:
                     case Header::Opcode::binary:
                         if (binaryHandler) binaryHandler(data);
                         break;
-                    case Header::Opcode::connectionClose:
-                        if (closeHandler) closeHandler(CloseEvent{});
-                        stop();
-                        break;
+                    case Header::Opcode::connectionClose: close(CloseEvent{}); break;
                     default: log::debug("Unhandled frameType");
                     };
                     decoder.reset();
                 }
-                read();
+                if (started) read();
             }
-            else {
+            else if (started) {
                 log::error("Error in websocket::read() : {}:{}", ec.value(), ec.message());
-                if (closeHandler) closeHandler(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});
-                stop();
+                close(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});
             }
         });
     }
@@ -341,8 +344,7 @@ private:
             if (ec) {
                 if (started) {
                     log::error("Error during write : ec.value() = {}", ec.value());
-                    if (closeHandler) closeHandler(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});
-                    if (ec != Net::Error::OperationAborted) stop();
+                    close(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});
                 }
             }
         });
-- 
2.43.0


From 79b507e59ceb40219c302daa4135807594acc750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:21 +0000
Subject: [PATCH 06/38] fix: remove a WebLink when its connection is lost

The closed event was never sent: links of lost clients stayed registered with
their log sink, and calls to these clients were silently ignored instead of
being reported. Completion handlers which are still pending when the link is
destroyed no longer touch it.
---
 include/http/WebSocket.hpp  | 12 +++++++-----
 include/weblink/WebLink.hpp |  5 +++++
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index bdad7f4..1bf6047 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -284,9 +284,10 @@ private:
     std::function<void(std::span<const std::byte>)> binaryHandler;
     std::function<void(CloseEvent)> closeHandler;
     bool started;
+    std::shared_ptr<bool> lifetime = std::make_shared<bool>(); // lets completion handlers know if the WebSocket still exists
 
 private:
-    // Stops the communication then notifies it
+    // Stops the communication then notifies it : the WebSocket may be destroyed by the handler
     void close(CloseEvent event) {
         stop();
         if (auto handler = std::exchange(closeHandler, nullptr)) handler(std::move(event));
@@ -310,7 +311,8 @@ private:
     }
 
     void read() {
-        socket.async_read_some(Net::Buffer(readBuffer), [this](std::error_code ec, std::size_t bytesTransferred) {
+        socket.async_read_some(Net::Buffer(readBuffer), [this, alive = std::weak_ptr(lifetime)](std::error_code ec, std::size_t bytesTransferred) {
+            if (alive.expired()) return;
             if (!ec) {
                 auto received = std::span<const std::byte>(readBuffer.data(), bytesTransferred);
                 while (started && !received.empty()) {
@@ -325,7 +327,7 @@ private:
                     case Header::Opcode::binary:
                         if (binaryHandler) binaryHandler(data);
                         break;
-                    case Header::Opcode::connectionClose: close(CloseEvent{}); break;
+                    case Header::Opcode::connectionClose: return close(CloseEvent{});
                     default: log::debug("Unhandled frameType");
                     };
                     decoder.reset();
@@ -340,8 +342,8 @@ private:
     }
 
     void writeData(Frame<Net> frame) {
-        Net::AsyncWrite(socket, frame.toBuffers(), [this](std::error_code ec, std::size_t /*bytesTransferred*/) {
-            if (ec) {
+        Net::AsyncWrite(socket, frame.toBuffers(), [this, alive = std::weak_ptr(lifetime)](std::error_code ec, std::size_t /*bytesTransferred*/) {
+            if (ec && !alive.expired()) {
                 if (started) {
                     log::error("Error during write : ec.value() = {}", ec.value());
                     close(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});
diff --git a/include/weblink/WebLink.hpp b/include/weblink/WebLink.hpp
index fb4f54d..082674d 100644
--- a/include/weblink/WebLink.hpp
+++ b/include/weblink/WebLink.hpp
@@ -83,6 +83,11 @@ public:
             }
         });
 
+        ws.onClose([this](websocket::CloseEvent) {
+            auto notify = eventsHandler; // this WebLink may be destroyed by the handler
+            notify({WebLinkEvent::Code::closed, id});
+        });
+
         ws.start();
     }
     WebLink(const WebLink&) = delete;
-- 
2.43.0


From 33d880891a0664ff5d9c4bf32c8e11d27e032b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:51 +0000
Subject: [PATCH 07/38] fix: keep WebSocket frames alive until written and
 never interleave them

---
 include/http/WebSocket.hpp | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 1bf6047..b24f47b 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -10,6 +10,7 @@
 #include <cstddef>
 #include <functional>
 #include <memory>
+#include <queue>
 #include <set>
 #include <span>
 #include <utility>
@@ -284,6 +285,7 @@ private:
     std::function<void(std::span<const std::byte>)> binaryHandler;
     std::function<void(CloseEvent)> closeHandler;
     bool started;
+    std::queue<std::shared_ptr<const std::vector<std::byte>>> writeQueue; // frames to send, the first one is being written
     std::shared_ptr<bool> lifetime = std::make_shared<bool>(); // lets completion handlers know if the WebSocket still exists
 
 private:
@@ -341,13 +343,30 @@ private:
         });
     }
 
-    void writeData(Frame<Net> frame) {
-        Net::AsyncWrite(socket, frame.toBuffers(), [this, alive = std::weak_ptr(lifetime)](std::error_code ec, std::size_t /*bytesTransferred*/) {
-            if (ec && !alive.expired()) {
-                if (started) {
-                    log::error("Error during write : ec.value() = {}", ec.value());
-                    close(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});
-                }
+    // Copies the frame : its buffers don't have to outlive this call. Only one write is in progress at a time.
+    void writeData(const Frame<Net>& frame) {
+        if (!started) return;
+        std::vector<std::byte> data;
+        for (const auto& buffer : frame.toBuffers()) {
+            auto bytes = static_cast<const std::byte*>(buffer.data());
+            data.insert(data.end(), bytes, bytes + buffer.size());
+        }
+        writeQueue.push(std::make_shared<const std::vector<std::byte>>(std::move(data)));
+        if (writeQueue.size() == 1) writeNext();
+    }
+
+    void writeNext() {
+        auto data = writeQueue.front();
+        std::vector<typename Net::ConstBuffer> buffers{Net::Buffer(*data)};
+        Net::AsyncWrite(socket, std::move(buffers), [this, data, alive = std::weak_ptr(lifetime)](std::error_code ec, std::size_t /*bytesTransferred*/) {
+            if (alive.expired() || !started) return;
+            if (ec) {
+                log::error("Error during write : ec.value() = {}", ec.value());
+                close(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});
+            }
+            else {
+                writeQueue.pop();
+                if (!writeQueue.empty()) writeNext();
             }
         });
     }
-- 
2.43.0


From 7bf5717bba8f321d735e8178c6e994cd7126370c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:26 +0000
Subject: [PATCH 08/38] fix: send the header of a WebSocket frame which grew or
 moved

---
 include/http/WebSocket.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index b24f47b..67cefc8 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -140,7 +140,12 @@ struct Frame : public Header {
 
     [[nodiscard]] size_t size() const { return payloadSize(); };
 
-    std::vector<typename Net::ConstBuffer> toBuffers() const { return buffers; }
+    // The header may have grown or moved since its buffer was created
+    std::vector<typename Net::ConstBuffer> toBuffers() const {
+        auto result = buffers;
+        result.front() = typename Net::ConstBuffer(raw.data(), headerSize());
+        return result;
+    }
 
     /// @return size of added buffer
     size_t addBuffer(std::span<const std::byte> buffer) {
-- 
2.43.0


From e48b0de109f7f0fcf80a21ea5ba6972b732d37e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:55 +0000
Subject: [PATCH 09/38] fix: encode each call of a JsFunction independently of
 the previous ones

---
 include/JsFunction.hpp       | 6 ++++--
 include/weblink/Messages.hpp | 6 ++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/JsFunction.hpp b/include/JsFunction.hpp
index 5eb62f8..ac17131 100644
--- a/include/JsFunction.hpp
+++ b/include/JsFunction.hpp
@@ -21,11 +21,13 @@ public:
         : name(functionName), webFront(wf), webLinkId(linkId) {}
 
     void operator()(auto&&... ts) {
-        command.setParametersCount(0);
+        static_assert(sizeof...(ts) < 255, "Too many parameters for a JsFunction");
+        command.clear();
         websocket::Frame<typename WebFront::Net> frame{std::span(reinterpret_cast<const std::byte*>(command.header().data()), command.header().size())};
         command.encodeParameter(name, frame);
         (((command.encodeParameter(std::forward<decltype(ts)>(ts), frame))), ...);
-        
+        command.setParametersCount(1 + sizeof...(ts)); // a tuple is only one parameter
+
         webFront.getLink(webLinkId).sendFrame(std::move(frame));
     }
 
diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 16453d6..8518fe9 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -190,6 +190,12 @@ public:
     void setPayloadSize(uint32_t size) { head.parametersDataSize = size; }
     [[nodiscard]] uint8_t getParametersCount() const { return head.parametersCount; }
     [[nodiscard]] size_t getPayloadSize() const { return head.parametersDataSize; }
+    // Starts the composition of a new message
+    void clear() {
+        setParametersCount(0);
+        setPayloadSize(0);
+        encodeBufferIndex = 0;
+    }
     void incrementPayloadSize(auto value) {
         setPayloadSize(static_cast<uint32_t>(getPayloadSize()) + static_cast<uint32_t>(value));
     }
-- 
2.43.0


From b8c59dd36bfc864202c90f0d2c13c247a636949a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:42 +0000
Subject: [PATCH 10/38] fix: allow any number of parameters in a function call
 message

---
 include/weblink/Messages.hpp | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 8518fe9..9c99320 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -6,6 +6,7 @@
 #include <array>
 #include <bit>
 #include <cstddef>
+#include <deque>
 #include <span>
 #include <stdexcept>
 #include <string>
@@ -166,8 +167,7 @@ class FunctionCall : public MessageBase<FunctionCall> {
     } head;
     static_assert(sizeof(Header) == 8, "FunctionCall header has to be 8 bytes long");
 
-    std::array<std::byte, 1024> buffer; // When composing a msg, buffer doesn't represent the payload but some bufferized data
-    size_t encodeBufferIndex = 0;
+    std::deque<std::array<std::byte, 9>> encodeBuffer; // When composing a msg, holds the types, sizes and numbers of its parameters
     friend class MessageBase<FunctionCall>;
 
     template<typename T>
@@ -194,7 +194,7 @@ public:
     void clear() {
         setParametersCount(0);
         setPayloadSize(0);
-        encodeBufferIndex = 0;
+        encodeBuffer.clear();
     }
     void incrementPayloadSize(auto value) {
         setPayloadSize(static_cast<uint32_t>(getPayloadSize()) + static_cast<uint32_t>(value));
@@ -217,10 +217,10 @@ public:
         }
 
         [[maybe_unused]] auto encodeType = [&, this](msg::CodedType type, auto size, WebSocketFrame& wsFrame) {
-            wsFrame.addBuffer(std::span(&buffer[encodeBufferIndex], 1 + sizeof(size)));
-            buffer[encodeBufferIndex++] = static_cast<std::byte>(type);
-            std::copy_n(reinterpret_cast<const std::byte*>(&size), sizeof(size), &buffer[encodeBufferIndex]);
-            encodeBufferIndex += sizeof(size);
+            auto& buffer = encodeBuffer.emplace_back();
+            buffer[0] = static_cast<std::byte>(type);
+            std::copy_n(reinterpret_cast<const std::byte*>(&size), sizeof(size), &buffer[1]);
+            wsFrame.addBuffer(std::span(buffer.data(), 1 + sizeof(size)));
             incrementPayloadSize(1 + sizeof(size));
         };
 
@@ -241,17 +241,18 @@ public:
             std::apply([&](auto&... tupleArgs) { ((encodeParameter(tupleArgs, frame)), ...); }, t);
         }
         else if constexpr (is_same_v<ParamType, bool>) {
-            frame.addBuffer(span(&buffer[encodeBufferIndex], 1));
-            buffer[encodeBufferIndex++] = static_cast<byte>(t ? msg::CodedType::booleanTrue : msg::CodedType::booleanFalse);
+            auto& buffer = encodeBuffer.emplace_back();
+            buffer[0] = static_cast<byte>(t ? msg::CodedType::booleanTrue : msg::CodedType::booleanFalse);
+            frame.addBuffer(span(buffer.data(), 1));
             incrementPayloadSize(1);
             std::cout << "-> encoded to bool of size " << 1 << " in a span.";
         }
         else if constexpr (is_arithmetic_v<ParamType>) {
             double number = t;
-            frame.addBuffer(span(&buffer[encodeBufferIndex], 1 + sizeof(number)));
-            buffer[encodeBufferIndex++] = static_cast<byte>(msg::CodedType::number);
-            copy_n(reinterpret_cast<const byte*>(&number), sizeof(number), &buffer[encodeBufferIndex]);
-            encodeBufferIndex += sizeof(number);
+            auto& buffer = encodeBuffer.emplace_back();
+            buffer[0] = static_cast<byte>(msg::CodedType::number);
+            copy_n(reinterpret_cast<const byte*>(&number), sizeof(number), &buffer[1]);
+            frame.addBuffer(span(buffer.data(), 1 + sizeof(number)));
             incrementPayloadSize(1 + sizeof(number));
             std::cout << "-> encoded to number of size " << sizeof(number) << " in a span.";
         }
@@ -286,7 +287,7 @@ public:
             incrementPayloadSize(textSize);
         }
 
-        std::cout << "bufferIndex = " << encodeBufferIndex << " ,payloadSize = " << getPayloadSize() << "\n";
+        std::cout << "payloadSize = " << getPayloadSize() << "\n";
     }
 
     template<typename T>
-- 
2.43.0


From 05784ba64d48adeb31a055a0d705ffdbaa928d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:19 +0000
Subject: [PATCH 11/38] fix: send function returns with their own command code

---
 include/weblink/Messages.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 9c99320..7f51845 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -185,7 +185,11 @@ class FunctionCall : public MessageBase<FunctionCall> {
         return tName;
     }
 
+protected:
+    explicit FunctionCall(Command command) : head{.command = command} {}
+
 public:
+    FunctionCall() = default;
     void setParametersCount(uint8_t parametersCount) { head.parametersCount = parametersCount; }
     void setPayloadSize(uint32_t size) { head.parametersDataSize = size; }
     [[nodiscard]] uint8_t getParametersCount() const { return head.parametersCount; }
@@ -348,14 +352,8 @@ public:
 
 /// Encodes FunctionCall return values (or exceptions)
 class FunctionReturn : public FunctionCall {
-    struct Header {
-        Command command = Command::functionReturn;
-        uint8_t parametersCount = 0;
-        std::array<uint8_t, 2> padding{};
-        uint32_t parametersDataSize = 0;
-    } head;
-    static_assert(sizeof(Header) == 8, "FunctionReturn header has to be 8 bytes long");
-    friend class MessageBase<FunctionReturn>;
+public:
+    FunctionReturn() : FunctionCall(Command::functionReturn) {}
 };
 
 } // namespace webfront::msg
-- 
2.43.0


From 4bf7878661117b3f0d892421df2a42f4534ce6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:55 +0000
Subject: [PATCH 12/38] fix: decode boolean parameters and reject parameters of
 another type

---
 include/weblink/Messages.hpp | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 7f51845..95b94b6 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -300,26 +300,44 @@ public:
         cout << "decodeParameter with data size " << data.size() << " bytes\n";
         if (data.size() == 0) throw runtime_error("Not enough data for msg::FunctionCall::decodeParameter");
         auto codedType = static_cast<CodedType>(data[0]);
+        [[maybe_unused]] auto wrongType = [&] { throw runtime_error("Wrong parameter type : unexpected "s + string(toString(codedType))); };
         switch (codedType) {
+        case CodedType::undefined:
+            param = {};
+            data = data.subspan(1);
+            break;
+        case CodedType::booleanTrue:
+        case CodedType::booleanFalse:
+            if constexpr (is_arithmetic_v<T>) {
+                param = static_cast<T>(codedType == CodedType::booleanTrue);
+                data = data.subspan(1);
+            }
+            else
+                wrongType();
+            break;
         case CodedType::smallString:
             if constexpr (is_same_v<T, string>) {
-                if (data.size() < 1u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
+                if (data.size() < 2u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
                 auto size = static_cast<size_t>(data[1]);
                 if (data.size() < 2u + size) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
-                param = string(reinterpret_cast<const char*>(&data[2]), size);
+                param = string(reinterpret_cast<const char*>(data.data() + 2), size);
                 data = data.subspan(2 + size);
             }
+            else
+                wrongType();
             break;
         case CodedType::string:
         case CodedType::exception:
             if constexpr (is_same_v<T, string>) {
-                if (data.size() < 1u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
+                if (data.size() < 3u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
                 uint16_t size;
                 copy_n(&data[1], 2, reinterpret_cast<byte*>(&size));
                 if (data.size() < 3u + size) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
-                param = string(reinterpret_cast<const char*>(&data[3]), size);
+                param = string(reinterpret_cast<const char*>(data.data() + 3), size);
                 data = data.subspan(3 + size);
             }
+            else
+                wrongType();
             break;
         case CodedType::number:
             if constexpr (is_arithmetic_v<T>) {
@@ -330,9 +348,12 @@ public:
                 param = static_cast<T>(value);
                 data = data.subspan(1 + sizeof(value));
             }
+            else
+                wrongType();
             break;
         case CodedType::tuple:
             if constexpr (is_tuple_v<T>) {
+                if (data.size() < 2u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
                 auto tupleSize = static_cast<size_t>(data[1]);
                 if (tuple_size_v<T> != tupleSize)
                     throw runtime_error("Parameter is a "s + to_string(tuple_size_v<T>) +
@@ -345,7 +366,7 @@ public:
                 throw runtime_error("Wrong parameter type : std::tuple expected");
             break;
 
-        default: param = {};
+        default: wrongType();
         }
     }
 };
-- 
2.43.0


From ecf863e475a0cb4bfdd9ed38f060af58c48712db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:08 +0000
Subject: [PATCH 13/38] fix: check that a received message holds its whole
 payload

---
 include/weblink/Messages.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 95b94b6..bf0b7f5 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -105,7 +105,7 @@ public:
     static const T* castFromRawData(std::span<const std::byte> data) {
         if (data.size() < sizeof(typename T::Header)) throw std::runtime_error("Not enough data to form a message Header");
         auto message = reinterpret_cast<const T*>(data.data());
-        if ((data.size() + message->getPayloadSize()) < sizeof(typename T::Header))
+        if (data.size() < sizeof(typename T::Header) + message->getPayloadSize())
             throw std::runtime_error("Not enough data to form a complete message");
         return message;
     }
-- 
2.43.0


From a2cb448139be238b5ad2a50cd536675fadf009e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 14/38] fix: survive the malformed messages of a client

---
 include/weblink/WebLink.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/weblink/WebLink.hpp b/include/weblink/WebLink.hpp
index 082674d..6357a78 100644
--- a/include/weblink/WebLink.hpp
+++ b/include/weblink/WebLink.hpp
@@ -44,8 +44,9 @@ public:
             log::debug("onMessage(text) :{}", text);
             ws.write("This is my response");
         });
-        ws.onMessage([this](std::span<const std::byte> data) {
+        auto processMessage = [this](std::span<const std::byte> data) {
             log::infoHex("onMessage(binary) :", data);
+            if (data.empty()) return;
 
             switch (static_cast<msg::Command>(data[0])) {
             case msg::Command::handshake: {
@@ -81,6 +82,14 @@ public:
 
             default: break;
             }
+        };
+        ws.onMessage([processMessage](std::span<const std::byte> data) {
+            try {
+                processMessage(data);
+            }
+            catch (const std::exception& e) {
+                log::info("message processing failed with exception {}", e.what());
+            }
         });
 
         ws.onClose([this](websocket::CloseEvent) {
-- 
2.43.0


From 1499e4af3309257c302b03042780b71f42b11b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:32 +0000
Subject: [PATCH 15/38] fix: mirror logs once and do not require a UI handler
 at each handshake

---
 include/WebFront.hpp        | 2 +-
 include/weblink/WebLink.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/WebFront.hpp b/include/WebFront.hpp
index e63f5b5..3597f7a 100644
--- a/include/WebFront.hpp
+++ b/include/WebFront.hpp
@@ -111,7 +111,7 @@ private:
 private:
     void onEvent(WebLinkEvent event) {
         switch (event.code) {
-        case WebLinkEvent::Code::linked: uiStartedHandler(UI{*this, event.webLinkId}); break;
+        case WebLinkEvent::Code::linked: if (uiStartedHandler) uiStartedHandler(UI{*this, event.webLinkId}); break;
         case WebLinkEvent::Code::closed: webLinks.erase(event.webLinkId); break;
         case WebLinkEvent::Code::cppFunctionCalled: cppFunctions.at(event.text)(event.data); break;
         }
diff --git a/include/weblink/WebLink.hpp b/include/weblink/WebLink.hpp
index 6357a78..ab7890d 100644
--- a/include/weblink/WebLink.hpp
+++ b/include/weblink/WebLink.hpp
@@ -52,7 +52,7 @@ public:
             case msg::Command::handshake: {
                 auto command = msg::Handshake::castFromRawData(data);
                 sendCommand(msg::Ack{});
-                logSink =
+                if (!logSink) logSink =
                   log::addSinks([this](std::string_view t) { sendCommand(msg::TextCommand(msg::TxtOpcode::debugLog, t)); });
                 sameEndian = (std::endian::native == std::endian::little &&
                               static_cast<msg::JSEndian>(command->getEndian()) == msg::JSEndian::little) ||
-- 
2.43.0


From bef2db8880ef5ff8d094cdb6531fbf48594787c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:03 +0000
Subject: [PATCH 16/38] fix: parse each HTTP request with its own buffer

---
 include/http/HTTPServer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 7257cf9..d132f5b 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -115,6 +115,7 @@ private: // clang-format off
     enum class State { methodStart, method, URI, versionH, versionT1, versionT2, versionP, versionSlash, versionMajorStart, versionMajor, versionMinorStart,
                  versionMinor, newline1, headerLineStart, headerLws, headerName, spaceBeforeHeaderValue, headerValue, newline2, newline3, completed };
     State state { State::methodStart };    
+    std::string buffer; // method name being parsed
     bool completeRequest(char input) {
         auto isChar = [](char c) { return c >= 0; };
         auto isCtrl = [](char c) { return (c >= 0 && c <= 31) || (c == 127); };
@@ -129,7 +130,6 @@ private: // clang-format off
             if (cond) throw BadRequestException();
         };
 
-        static std::string buffer;
         using enum State;
         switch (state) {
             case methodStart:
-- 
2.43.0


From da590a8e251c5e6c47eed07d15d0559c0286a6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:19 +0000
Subject: [PATCH 17/38] fix: name the undefined HTTP method without reading
 past the names

---
 include/http/HTTPServer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index d132f5b..e2fd54e 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -77,7 +77,7 @@ struct BadRequestException : public std::runtime_error {
 
 struct Request : Headers {
     enum class Method { Connect, Delete, Get, Head, Options, Patch, Post, Put, Trace, Undefined };
-    Method method;
+    Method method = Method::Undefined;
     std::string uri;
     int httpVersionMajor;
     int httpVersionMinor;
@@ -181,7 +181,7 @@ private: // clang-format off
         }
         return false;
     }
-    inline static std::array methodNames{"CONNECT", "DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT", "TRACE"};
+    inline static std::array methodNames{"CONNECT", "DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT", "TRACE", "UNDEFINED"};
 }; // clang-format on
 
 struct Response : Headers {
-- 
2.43.0


From 0d44b5b75707777ca20836febaed6d964bd9e368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 18/38] fix: keep the status line of each HTTP response until
 it is written

---
 include/http/HTTPServer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index e2fd54e..7317fec 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -195,6 +195,7 @@ struct Response : Headers {
     };
     StatusCode statusCode;
     std::string content;
+    mutable std::string httpStatus; // status line of this response, referenced by its buffers
 
     static Response getStatusResponse(StatusCode code) {
         Response response;
@@ -210,7 +211,6 @@ struct Response : Headers {
     template<typename Net>
     [[nodiscard]] std::vector<typename Net::ConstBuffer> toBuffers() const {
         std::vector<typename Net::ConstBuffer> buffers;
-        static std::string httpStatus;
         httpStatus = "HTTP/1.1 " + std::to_string(statusCode) + " " + toString(statusCode) + "\r\n";
         buffers.push_back(Net::Buffer(httpStatus));
 
-- 
2.43.0


From ca8fb548ab98c66b5fe44d17d520a8ca81d6006f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:23 +0000
Subject: [PATCH 19/38] fix: answer HEAD with the headers of GET and no body

---
 include/http/HTTPServer.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 7317fec..bb49190 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -263,8 +263,9 @@ public:
 
         Response response;
         switch (request.method) {
+        case Request::Method::Head:
         case Request::Method::Get: {
-            if (request.isUpgradeRequest("websocket")) {
+            if (request.method == Request::Method::Get && request.isUpgradeRequest("websocket")) {
                 auto key = request.getHeaderValue("Sec-WebSocket-Key");
                 if (key) {
                     response.statusCode = Response::StatusCode::switchingProtocols;
@@ -279,7 +280,7 @@ public:
             auto file = fs.open(requestPath);
             if (!file) return Response::getStatusResponse(Response::notFound);
             if (file->isEncoded()) {
-                if (!request.headersContain("Accept-Encoding", file->getEncoding())) {
+                if (request.method == Request::Method::Get && !request.headersContain("Accept-Encoding", file->getEncoding())) {
                     log::error("File {} encoding is not supported by client : HTTP ERROR 506", file->getEncoding());
                     return Response::getStatusResponse(Response::variantAlsoNegotiates);
                 }
@@ -290,10 +291,6 @@ public:
             if (file->isEncoded()) response.headers.emplace_back("Content-Encoding", file->getEncoding());
 
         } break;
-        case Request::Method::Head:
-            if (!fs.open(requestPath)) return Response::getStatusResponse(Response::notFound);
-            break;
-
         default: return Response::getStatusResponse(Response::notImplemented);
         };
 
@@ -381,6 +378,7 @@ private:
                         if (request.completed()) {
                             log::info("Received request {} on {}", request.getMethodName(), request.uri);
                             response = requestHandler.handleRequest(request);
+                            if (request.method == Request::Method::Head) response.content.clear();
                             log::info("  responding http {}", static_cast<int>(response.statusCode));
                             write();
                             if (response.statusCode == Response::switchingProtocols) protocol = Protocol::HTTPUpgrading;
@@ -390,6 +388,7 @@ private:
                     }
                     catch (const BadRequestException&) {
                         response = Response::getStatusResponse(Response::badRequest);
+                        if (request.method == Request::Method::Head) response.content.clear();
                         write();
                     }
                     break;
-- 
2.43.0


From 7c4350925596fd553e452053c4e4c38bcca8fa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 20/38] fix: release upgraded HTTP connections and upgrade only
 after a successful answer

---
 include/http/HTTPServer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index bb49190..6a16efc 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -404,9 +404,10 @@ private:
     void write() {
         auto self(this->shared_from_this());
         Net::AsyncWrite(socket, response.toBuffers<Net>(), [this, self](std::error_code ec, std::size_t /*bytesTransferred*/) {
-            if (protocol == Protocol::HTTPUpgrading) {
+            if (protocol == Protocol::HTTPUpgrading && !ec) {
                 protocol = Protocol::WebSocket;
                 if (onUpgrade) onUpgrade(std::move(socket), protocol);
+                connections.stop(self); // the socket now belongs to the WebSocket
             }
             else {
                 if (!ec) socket.shutdown(Net::Socket::shutdown_both);
-- 
2.43.0


From 3d95bdfabef7a9ad4c27266e3a3d23d9125b75e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:51 +0000
Subject: [PATCH 21/38] fix: survive a peer which disconnects while its answer
 is completed

---
 include/http/HTTPServer.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 6a16efc..5e1f087 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -410,7 +410,12 @@ private:
                 connections.stop(self); // the socket now belongs to the WebSocket
             }
             else {
-                if (!ec) socket.shutdown(Net::Socket::shutdown_both);
+                try {
+                    if (!ec) socket.shutdown(Net::Socket::shutdown_both);
+                }
+                catch (const std::exception& e) { // the peer may already be gone
+                    log::debug("Connection shutdown failed : {}", e.what());
+                }
                 if (ec != Net::Error::OperationAborted) connections.stop(self);
             }
         });
-- 
2.43.0


From 3365825ce03edb57c4b98dafb5cc7fc7b7f8544a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:52 +0000
Subject: [PATCH 22/38] fix: percent encode bytes above 127

---
 include/http/Encodings.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/http/Encodings.hpp b/include/http/Encodings.hpp
index 44ab149..2ae41ac 100644
--- a/include/http/Encodings.hpp
+++ b/include/http/Encodings.hpp
@@ -26,8 +26,8 @@ namespace uri {
             encoded += c;
         else {
             encoded += "%";
-            encoded += digits[static_cast<size_t>(c >> 4)];
-            encoded += digits[static_cast<size_t>(c % 16)];
+            encoded += digits[static_cast<uint8_t>(c) >> 4];
+            encoded += digits[static_cast<uint8_t>(c) % 16];
         }
     }
     return encoded;
-- 
2.43.0


From 92e4db474157929454be395a52fdc9dba5671e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:08 +0000
Subject: [PATCH 23/38] fix: split each URI independently of the previous ones

---
 include/http/Encodings.hpp | 51 ++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 29 deletions(-)

diff --git a/include/http/Encodings.hpp b/include/http/Encodings.hpp
index 2ae41ac..7533e7b 100644
--- a/include/http/Encodings.hpp
+++ b/include/http/Encodings.hpp
@@ -66,38 +66,31 @@ namespace uri {
 //  └─┬─┘   └─────────────┬────────────┘└───────┬───────┘ └────────────┬────────────┘ └┬┘
 //  scheme          authority                  path                  query           fragment
 struct URI {
-    URI(std::string uri) : string(uri), scheme(next(string)), authority(next(string)), path(next(string)), query(next(string)),
-        fragment(next(string)), userinfo(next(authority)), host(next(authority)), port(next(authority)) {}
-        
+    URI(std::string uri) : string(std::move(uri)), scheme(before(string, "://")), authority(until(after(string, "://"), "/?#")),
+        path(until(after(string, "://").substr(authority.size()), "?#")), query(after(until(string, "#"), "?")), fragment(after(string, "#")),
+        userinfo(before(authority, "@")), host(until(hostPort(authority), ":")), port(after(hostPort(authority), ":")) {}
+
     const std::string string;
     const std::string_view scheme, authority, path, query, fragment, userinfo, host, port;
 
-private:    
-    static std::string_view next(std::string_view uri) {
-        const size_t schem{0}, autho{1}, path_{2}, quer_{3}, fragm{4}, usrnf{5}, host_{6}, port_{7}, npos = std::string_view::npos; 
-        static size_t step{port_}, mark, mark2;
-        step = (step == port_) ? schem : step + 1;
-        switch (step) {
-            case schem: mark = uri.find("://");
-                if (mark == npos) { mark = uri.size() - 3; return {}; } else return uri.substr(0, mark);
-            case autho: mark2 = uri.find("/", mark + 3);
-                if (mark2 == npos) { mark2 = uri.size() - 1; return {}; } else return uri.substr(mark + 3, mark2 - mark - 3);
-            case path_: mark = uri.find("?", mark2 + 1);
-                if (mark == npos) {
-                    mark = uri.find("#");
-                    if (mark == npos) { mark = uri.size() - 1; return uri.substr(mark2); }
-                }
-                return uri.substr(mark2, mark - mark2);
-            case quer_: mark2 = uri.find("#", mark + 1);
-                if (mark2 == npos) { mark2 = uri.size() - 1; return uri.substr(mark + 1); } else return uri.substr(mark + 1, mark2 - mark - 1);
-            case fragm: return uri.substr(mark2 + 1);
-            case usrnf: mark = uri.find("@");
-                if (mark == npos) return {}; else return uri.substr(0, mark);
-            case host_: mark2 = uri.find(":", mark + 1);
-                if (mark2 == npos) return uri.substr(mark + 1); else return uri.substr(mark + 1, mark2 - mark - 1);
-            case port_: if (mark2 != npos) return uri.substr(mark2 + 1);
-        }
-        return {};           
+private:
+    // @return the beginning of text up to one of the delimiters (or to its end)
+    static std::string_view until(std::string_view text, std::string_view delimiters) { return text.substr(0, text.find_first_of(delimiters)); }
+
+    // @return what precedes the separator, nothing if there is no separator
+    static std::string_view before(std::string_view text, std::string_view separator) {
+        auto pos = text.find(separator);
+        return pos == std::string_view::npos ? std::string_view{} : text.substr(0, pos);
+    }
+
+    // @return what follows the separator, nothing if there is no separator
+    static std::string_view after(std::string_view text, std::string_view separator) {
+        auto pos = text.find(separator);
+        return pos == std::string_view::npos ? std::string_view{} : text.substr(pos + separator.size());
+    }
+
+    static std::string_view hostPort(std::string_view authority) {
+        return authority.find('@') == std::string_view::npos ? authority : after(authority, "@");
     }
 };
 } // namespace uri
-- 
2.43.0


From 22fbe5c87d0ccd44d1ae0e43dd4b75a5b0738555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 24/38] fix: encode inputs of any size in base64

---
 include/http/Encodings.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/http/Encodings.hpp b/include/http/Encodings.hpp
index 7533e7b..64c3f0c 100644
--- a/include/http/Encodings.hpp
+++ b/include/http/Encodings.hpp
@@ -104,10 +104,10 @@ namespace detail {
                                     'W', 'X', 'Y', 'Z', 'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p', 'q', 'r',
                                     's', 't', 'u', 'v', 'w', 'x', 'y', 'z', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '+', '/'};
 
-    std::string output((4 * (size + 2) / 3), '\0');
+    std::string output(4 * ((size + 2) / 3), '\0');
     auto coded = output.begin();
     size_t i = 0;
-    for (; i < size - 2; i += 3) {
+    for (; i + 2 < size; i += 3) {
         *coded++ = code[(input[i] >> 2) & 0x3Fu];
         *coded++ = code[((input[i] & 0x3u) << 4) | ((input[i + 1] & 0xF0u) >> 4)];
         *coded++ = code[((input[i + 1] & 0xFu) << 2) | ((input[i + 2] & 0xC0u) >> 6)];
@@ -125,8 +125,6 @@ namespace detail {
         }
         *coded++ = '=';
     }
-    if (coded != output.end()) output.erase(coded);
-
     return output;
 }
 } // namespace detail
-- 
2.43.0


From bc4b41ded80c421a411fcd93fbac890c1ebfb0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:42 +0000
Subject: [PATCH 25/38] fix: serve csv files with their own content type

---
 include/http/MimeType.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/MimeType.hpp b/include/http/MimeType.hpp
index eeac5be..0333e7e 100644
--- a/include/http/MimeType.hpp
+++ b/include/http/MimeType.hpp
@@ -35,7 +35,7 @@ struct MimeType {
     [[nodiscard]] constexpr std::string_view toString() const {
         auto names =
           std::array{"text/plain",      "text/html", "text/css",     "application/javascript", "image/jpeg", "image/png", "image/gif", "application/json",
-                     "application/pdf", "font/ttf",  "image/x-icon", "image/svg+xml",          "image/webp", "text/css",  "text/csv"};
+                     "application/pdf", "font/ttf",  "image/x-icon", "image/svg+xml",          "image/webp", "text/csv"};
         return names[type];
     }
 };
-- 
2.43.0


From 8e38564c6d9e7aac49551e79e62212e9f0265a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:57 +0000
Subject: [PATCH 26/38] fix: resume the reading of an embedded file inside a
 word

---
 include/system/FileSystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/system/FileSystem.hpp b/include/system/FileSystem.hpp
index ea7fed2..143307d 100644
--- a/include/system/FileSystem.hpp
+++ b/include/system/FileSystem.hpp
@@ -73,7 +73,7 @@ private:
         for (size_t index = 0; (index < buffer.size()); ++index) {
             if (eof()) return index;
 
-            if (readIndex % bytesPerInt == 0) chunk = convert(data[readIndex / bytesPerInt]);
+            if (index == 0 || readIndex % bytesPerInt == 0) chunk = convert(data[readIndex / bytesPerInt]);
 
             buffer[index] = static_cast<char>(chunk.byte[readIndex % bytesPerInt]);
             readIndex++;
-- 
2.43.0


From 3ed15db2e412ee043ef8eeef85093a12113e28a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:00 +0000
Subject: [PATCH 27/38] fix: open only regular files from the native file
 system

---
 include/system/NativeFS.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/system/NativeFS.hpp b/include/system/NativeFS.hpp
index 334a21d..d78130d 100644
--- a/include/system/NativeFS.hpp
+++ b/include/system/NativeFS.hpp
@@ -13,6 +13,8 @@ namespace detail {
 class NativeRawFS {
 public:
     std::optional<File> open(std::filesystem::path path) {
+        std::error_code ec;
+        if (path.native().find('\0') != std::filesystem::path::string_type::npos || !std::filesystem::is_regular_file(rootPath / path, ec)) return {};
         std::ifstream file;
         file.open(rootPath / path, std::ios::binary);
         if (file.is_open()) return File{std::move(file)};
-- 
2.43.0


From f45032b490de744305c3e5a817d33d2ebbba7fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:00 +0000
Subject: [PATCH 28/38] fix: keep a copy of the functions registered for
 Javascript

---
 include/WebFront.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/WebFront.hpp b/include/WebFront.hpp
index 3597f7a..2736362 100644
--- a/include/WebFront.hpp
+++ b/include/WebFront.hpp
@@ -90,7 +90,7 @@ public:
      */
     template<typename R, typename... Args>
     void cppFunction(std::string functionName, auto&& function) {
-        cppFunctions.try_emplace(functionName, [&function](std::span<const std::byte> data) -> void {
+        cppFunctions.try_emplace(functionName, [function = std::forward<decltype(function)>(function)](std::span<const std::byte> data) mutable -> void {
             std::tuple<Args...> parameters;
             auto deserializeAndCall = [&]<std::size_t... Is>(std::tuple<Args...> & tuple, std::index_sequence<Is...>) {
                 (msg::FunctionCall::decodeParameter(std::get<Is>(tuple), data), ...);
-- 
2.43.0


From ba175e88daaec42356586a560b3861e89333df36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:30 +0000
Subject: [PATCH 29/38] fix: write only the bytes of a WebSocket extended
 length

---
 include/http/WebSocket.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 67cefc8..df47cf7 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -102,7 +102,7 @@ struct Header {
     void setPayloadSize(size_t size) {
         raw[1] = (raw[1] & std::byte(0b10000000)) | std::byte(size < 126 ? size : size < 65536 ? 126 : 127);
         size_t len = size < 126 ? 0 : size < 65536 ? 2 : 8;
-        for (size_t i = 0; i <= len; ++i) raw[2 + i] = std::byte(size >> (8 * (len - i - 1)));
+        for (size_t i = 0; i < len; ++i) raw[2 + i] = std::byte(size >> (8 * (len - i - 1)));
     }
 
 protected:
-- 
2.43.0


From a93640c76c01803689ae9f0ee9af4e9f5b7d2d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:57 +0000
Subject: [PATCH 30/38] fix: restore the fill character after a hexadecimal
 dump

---
 include/tooling/HexDump.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/tooling/HexDump.hpp b/include/tooling/HexDump.hpp
index b673417..37d36ec 100644
--- a/include/tooling/HexDump.hpp
+++ b/include/tooling/HexDump.hpp
@@ -37,6 +37,7 @@ std::ostream& operator<<(std::ostream& os, const HexDump<Container>& h) {
     const auto buffer =
       span(reinterpret_cast<const uint8_t*>(h.buffer.data()), h.buffer.size() * sizeof(typename pointer_traits<decltype(h.buffer.data())>::element_type));
     auto iosFlags{os.flags()};
+    auto fill{os.fill()};
     os << hex << setfill('0');
     while (address < buffer.size()) {
         os << setw(8) << address + h.startAddress;
@@ -55,6 +56,7 @@ std::ostream& operator<<(std::ostream& os, const HexDump<Container>& h) {
         if (address < buffer.size()) os << '\n';
     }
     os.flags(iosFlags);
+    os.fill(fill);
 
     return os;
 }
-- 
2.43.0


From b2b5f6a24c3cd6ea040dd5244fea1dcf4aa3e492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:15 +0000
Subject: [PATCH 31/38] fix: dump every byte of two buffers of wide elements

---
 include/tooling/HexDump.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/tooling/HexDump.hpp b/include/tooling/HexDump.hpp
index 37d36ec..5332492 100644
--- a/include/tooling/HexDump.hpp
+++ b/include/tooling/HexDump.hpp
@@ -6,6 +6,7 @@
 
 #include <algorithm>
 #include <concepts>
+#include <cstddef>
 #include <cstdint>
 #include <iomanip>
 #include <ostream>
@@ -82,9 +83,11 @@ std::ostream& operator<<(std::ostream& os, const HexDump<Container>& h) {
 /// @return  a multi-lines string with the dumped data
 [[nodiscard]] static std::string hexDump(const Buffer auto& buffer1, const Buffer auto& buffer2) {
     std::vector<uint8_t> buffer;
-    buffer.resize(buffer1.size() + buffer2.size());
-    std::copy_n(buffer1.data(), buffer1.size(), buffer.data());
-    std::copy_n(buffer2.data(), buffer2.size(), buffer.data() + buffer1.size());
+    auto append = [&buffer](auto bytes) {
+        for (auto byte : bytes) buffer.push_back(std::to_integer<uint8_t>(byte));
+    };
+    append(std::as_bytes(std::span(buffer1.data(), buffer1.size())));
+    append(std::as_bytes(std::span(buffer2.data(), buffer2.size())));
 
     std::stringstream ss;
     ss << HexDump<decltype(buffer)>(buffer);
-- 
2.43.0


From b2a65a1f2dc5764fc27147e1055ff4de48bdcf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:18 +0000
Subject: [PATCH 32/38] fix: share the state of a type erased function between
 its kinds of calls

---
 include/utils/TypeErasedFunction.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/utils/TypeErasedFunction.hpp b/include/utils/TypeErasedFunction.hpp
index 0b223e6..ac31438 100644
--- a/include/utils/TypeErasedFunction.hpp
+++ b/include/utils/TypeErasedFunction.hpp
@@ -126,14 +126,14 @@ private:
 public:
     template<typename T>
     TypeErasedFunction(T t)
-        : function(new FunctionPointer<typename function_traits<T>::type>(t)), voidFunction(new FunctionPointer<typename function_traits<T>::void_type>(t)) {
+        : function(new FunctionPointer<typename function_traits<T>::type>(t)), voidFunction(new FunctionPointer<typename function_traits<T>::void_type>(std::ref(target<T>()))) {
             std::cout << "TypeErasedFunction constructor()\n";
         }
 
     template<typename T, typename... Args>
     TypeErasedFunction(T&& t, Args&&... args)
         : function(new FunctionPointer<typename function_traits<T>::type>(std::bind(std::forward<T>(t), std::forward<Args>(args)...))),
-          voidFunction(new FunctionPointer<typename function_traits<T>::void_type>(std::bind(std::forward<T>(t), std::forward<Args>(args)...))) {
+          voidFunction(new FunctionPointer<typename function_traits<T>::void_type>(std::ref(target<T>()))) {
         std::cout << "TypeErasedFunction constructor(";
         ((std::cout << TypeName(args)), ...);
         std::cout << ")\n";
@@ -162,7 +162,10 @@ public:
     }
 
 private:
-    std::unique_ptr<TypeErased> function, voidFunction;
+    std::unique_ptr<TypeErased> function, voidFunction; // voidFunction refers to the callable held by function
+
+    template<typename T>
+    auto& target() { return static_cast<FunctionPointer<typename function_traits<T>::type>&>(*function).functionPointer; }
 };
 
 } // namespace webfront::utils
\ No newline at end of file
-- 
2.43.0


From b4c7a730ac7b4b399fe82b5c066dc4aa3fed705f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:36 +0000
Subject: [PATCH 33/38] fix: pad SHA-1 messages with their 64 bits length

---
 include/http/Encodings.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/http/Encodings.hpp b/include/http/Encodings.hpp
index 64c3f0c..2319bce 100644
--- a/include/http/Encodings.hpp
+++ b/include/http/Encodings.hpp
@@ -197,12 +197,12 @@ static constexpr size_t sha1Length = 5;
     };
 
     for (auto c : input) next(static_cast<uint8_t>(c));
-    auto b = byteCount * 8;
+    uint64_t b = byteCount * 8;
     next(0x80);
     if (blockByteIndex > 56)
         while (blockByteIndex != 0) next(0);
     while (blockByteIndex < 56) next(0);
-    for (auto value : {uint8_t(0), uint8_t(0), uint8_t(0), uint8_t(0), uint8_t(b >> 24), uint8_t(b >> 16), uint8_t(b >> 8), uint8_t(b)}) next(value);
+    for (auto value : {uint8_t(b >> 56), uint8_t(b >> 48), uint8_t(b >> 40), uint8_t(b >> 32), uint8_t(b >> 24), uint8_t(b >> 16), uint8_t(b >> 8), uint8_t(b)}) next(value);
 
     return digest;
 }
-- 
2.43.0


From f546d93ffd063a6192d1372ac32f21894eb4bf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 34/38] fix: provide a view of constant arrays

---
 include/networking/BasicNetworking.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/networking/BasicNetworking.hpp b/include/networking/BasicNetworking.hpp
index 6edd8f4..dc21787 100644
--- a/include/networking/BasicNetworking.hpp
+++ b/include/networking/BasicNetworking.hpp
@@ -90,6 +90,10 @@ public:
     static ConstBuffer Buffer(std::array<const T, S>& d) noexcept {
         return ToConstBuffer(d.data(), d.size());
     }
+    template<typename T, std::size_t S>
+    static ConstBuffer Buffer(const std::array<T, S>& d) noexcept {
+        return ToConstBuffer(d.data(), d.size());
+    }
     template<typename T, typename Alloc>
     static MutableBuffer Buffer(std::vector<T, Alloc>& d) noexcept {
         return ToMutableBuffer(d.data(), d.size());
-- 
2.43.0


From a4b3f6aa2831f32fd6416df8431cd39bc702daf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:02 +0000
Subject: [PATCH 35/38] fix: report a lost connection to the caller of a
 JsFunction

---
 include/JsFunction.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/JsFunction.hpp b/include/JsFunction.hpp
index ac17131..01c8fc2 100644
--- a/include/JsFunction.hpp
+++ b/include/JsFunction.hpp
@@ -8,6 +8,7 @@
 
 #include <algorithm>
 #include <array>
+#include <stdexcept>
 #include <string_view>
 
 #include <iostream>
@@ -28,7 +29,12 @@ public:
         (((command.encodeParameter(std::forward<decltype(ts)>(ts), frame))), ...);
         command.setParametersCount(1 + sizeof...(ts)); // a tuple is only one parameter
 
-        webFront.getLink(webLinkId).sendFrame(std::move(frame));
+        try {
+            webFront.getLink(webLinkId).sendFrame(std::move(frame));
+        }
+        catch (const std::out_of_range&) {
+            throw std::runtime_error("Connection with client lost");
+        }
     }
 
 private:
-- 
2.43.0


From 1093dc4784cd8a47020ac5dcd79ee561ce972541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:13 +0000
Subject: [PATCH 36/38] fix: never give the id of a lost WebLink to another one

---
 include/weblink/WebLink.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/weblink/WebLink.hpp b/include/weblink/WebLink.hpp
index ab7890d..5fe9cc1 100644
--- a/include/weblink/WebLink.hpp
+++ b/include/weblink/WebLink.hpp
@@ -13,7 +13,7 @@
 
 namespace webfront {
 
-using WebLinkId = uint16_t;
+using WebLinkId = uint64_t; // wide enough never to be reused
 
 struct WebLinkEvent {
     enum class Code { linked, closed, cppFunctionCalled };
-- 
2.43.0


From 44e52edd60d48cd63d651308c7a5903ff8d53c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:30 +0000
Subject: [PATCH 37/38] fix: dump hexadecimal digits alike whatever base prefix
 and alignment the stream has

---
 include/tooling/HexDump.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tooling/HexDump.hpp b/include/tooling/HexDump.hpp
index 5332492..508a538 100644
--- a/include/tooling/HexDump.hpp
+++ b/include/tooling/HexDump.hpp
@@ -39,7 +39,7 @@ std::ostream& operator<<(std::ostream& os, const HexDump<Container>& h) {
       span(reinterpret_cast<const uint8_t*>(h.buffer.data()), h.buffer.size() * sizeof(typename pointer_traits<decltype(h.buffer.data())>::element_type));
     auto iosFlags{os.flags()};
     auto fill{os.fill()};
-    os << hex << setfill('0');
+    os << hex << noshowbase << right << setfill('0');
     while (address < buffer.size()) {
         os << setw(8) << address + h.startAddress;
         for (auto index = address; index < address + 16; ++index) {
-- 
2.43.0


From 344ded85bb624d69cb252a5cfbe3a03ad27a350a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:08 +0000
Subject: [PATCH 38/38] fix: make the fields of a copied URI views of its own
 string

---
 include/http/Encodings.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/http/Encodings.hpp b/include/http/Encodings.hpp
index 2319bce..9d30f51 100644
--- a/include/http/Encodings.hpp
+++ b/include/http/Encodings.hpp
@@ -69,6 +69,7 @@ struct URI {
     URI(std::string uri) : string(std::move(uri)), scheme(before(string, "://")), authority(until(after(string, "://"), "/?#")),
         path(until(after(string, "://").substr(authority.size()), "?#")), query(after(until(string, "#"), "?")), fragment(after(string, "#")),
         userinfo(before(authority, "@")), host(until(hostPort(authority), ":")), port(after(hostPort(authority), ":")) {}
+    URI(const URI& other) : URI(other.string) {} // the fields of a copy are views of its own string
 
     const std::string string;
     const std::string_view scheme, authority, path, query, fragment, userinfo, host, port;
-- 
2.43.0

