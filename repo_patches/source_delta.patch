From fb547c66975cd012e91ee914f5268879a8cdf48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:30 +0000
Subject: [PATCH 01/43] fix: percent-encode bytes above 127 instead of indexing
 out of the digit table

---
 include/http/Encodings.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/http/Encodings.hpp b/include/http/Encodings.hpp
index 44ab149..0a8f694 100644
--- a/include/http/Encodings.hpp
+++ b/include/http/Encodings.hpp
@@ -21,9 +21,9 @@ namespace uri {
 [[nodiscard]] inline std::string encode(std::string_view uri) {
     std::string encoded;
     static std::array digits{'0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'A', 'B', 'C', 'D', 'E', 'F'};
-    for (auto c : uri) {
+    for (unsigned char c : uri) {
         if (std::isalnum(c) || c == '-' || c == '_' || c == '.' || c == '~')
-            encoded += c;
+            encoded += static_cast<char>(c);
         else {
             encoded += "%";
             encoded += digits[static_cast<size_t>(c >> 4)];
-- 
2.43.0


From 78cd2c3dbc4817b84e371ae7988a138c3a0343e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:30 +0000
Subject: [PATCH 02/43] fix: base64 encoding of inputs of any length (underflow
 below two bytes, stray bytes after padding)

---
 include/http/Encodings.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/http/Encodings.hpp b/include/http/Encodings.hpp
index 0a8f694..9ef6b12 100644
--- a/include/http/Encodings.hpp
+++ b/include/http/Encodings.hpp
@@ -111,10 +111,10 @@ namespace detail {
                                     'W', 'X', 'Y', 'Z', 'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p', 'q', 'r',
                                     's', 't', 'u', 'v', 'w', 'x', 'y', 'z', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '+', '/'};
 
-    std::string output((4 * (size + 2) / 3), '\0');
+    std::string output(4 * ((size + 2) / 3), '\0');
     auto coded = output.begin();
     size_t i = 0;
-    for (; i < size - 2; i += 3) {
+    for (; i + 2 < size; i += 3) {
         *coded++ = code[(input[i] >> 2) & 0x3Fu];
         *coded++ = code[((input[i] & 0x3u) << 4) | ((input[i + 1] & 0xF0u) >> 4)];
         *coded++ = code[((input[i + 1] & 0xFu) << 2) | ((input[i + 2] & 0xC0u) >> 6)];
@@ -132,8 +132,6 @@ namespace detail {
         }
         *coded++ = '=';
     }
-    if (coded != output.end()) output.erase(coded);
-
     return output;
 }
 } // namespace detail
-- 
2.43.0


From 7a9b451066b3fe79af467ac297940c9c80a3ae61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:30 +0000
Subject: [PATCH 03/43] fix: split an URI by its own content (missing parts, no
 state left over from an earlier split)

---
 include/http/Encodings.hpp | 57 +++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 29 deletions(-)

diff --git a/include/http/Encodings.hpp b/include/http/Encodings.hpp
index 9ef6b12..971b506 100644
--- a/include/http/Encodings.hpp
+++ b/include/http/Encodings.hpp
@@ -66,38 +66,37 @@ namespace uri {
 //  └─┬─┘   └─────────────┬────────────┘└───────┬───────┘ └────────────┬────────────┘ └┬┘
 //  scheme          authority                  path                  query           fragment
 struct URI {
-    URI(std::string uri) : string(uri), scheme(next(string)), authority(next(string)), path(next(string)), query(next(string)),
-        fragment(next(string)), userinfo(next(authority)), host(next(authority)), port(next(authority)) {}
-        
+    URI(std::string uri) : string(std::move(uri)), scheme(schemeOf(string)), authority(authorityOf(string)), path(until(afterAuthority(string), "?#")),
+        query(until(after(until(afterAuthority(string), "#"), "?"), "#")), fragment(after(string, "#")), userinfo(userinfoOf(authority)),
+        host(until(hostAndPort(authority), ":")), port(after(hostAndPort(authority), ":")) {}
+
     const std::string string;
     const std::string_view scheme, authority, path, query, fragment, userinfo, host, port;
 
-private:    
-    static std::string_view next(std::string_view uri) {
-        const size_t schem{0}, autho{1}, path_{2}, quer_{3}, fragm{4}, usrnf{5}, host_{6}, port_{7}, npos = std::string_view::npos; 
-        static size_t step{port_}, mark, mark2;
-        step = (step == port_) ? schem : step + 1;
-        switch (step) {
-            case schem: mark = uri.find("://");
-                if (mark == npos) { mark = uri.size() - 3; return {}; } else return uri.substr(0, mark);
-            case autho: mark2 = uri.find("/", mark + 3);
-                if (mark2 == npos) { mark2 = uri.size() - 1; return {}; } else return uri.substr(mark + 3, mark2 - mark - 3);
-            case path_: mark = uri.find("?", mark2 + 1);
-                if (mark == npos) {
-                    mark = uri.find("#");
-                    if (mark == npos) { mark = uri.size() - 1; return uri.substr(mark2); }
-                }
-                return uri.substr(mark2, mark - mark2);
-            case quer_: mark2 = uri.find("#", mark + 1);
-                if (mark2 == npos) { mark2 = uri.size() - 1; return uri.substr(mark + 1); } else return uri.substr(mark + 1, mark2 - mark - 1);
-            case fragm: return uri.substr(mark2 + 1);
-            case usrnf: mark = uri.find("@");
-                if (mark == npos) return {}; else return uri.substr(0, mark);
-            case host_: mark2 = uri.find(":", mark + 1);
-                if (mark2 == npos) return uri.substr(mark + 1); else return uri.substr(mark + 1, mark2 - mark - 1);
-            case port_: if (mark2 != npos) return uri.substr(mark2 + 1);
-        }
-        return {};           
+private:
+    static constexpr std::string_view schemeMark{"://"};
+
+    static std::string_view until(std::string_view text, std::string_view delimiters) { return text.substr(0, text.find_first_of(delimiters)); }
+    static std::string_view after(std::string_view text, std::string_view delimiters) {
+        const auto mark = text.find_first_of(delimiters);
+        return mark == std::string_view::npos ? std::string_view{} : text.substr(mark + 1);
+    }
+    // A scheme is only recognized ahead of any path, query or fragment
+    static bool hasScheme(std::string_view uri) {
+        const auto mark = uri.find(schemeMark);
+        return mark != std::string_view::npos && uri.find_first_of("/?#") == mark + 1;
+    }
+    static std::string_view schemeOf(std::string_view uri) { return hasScheme(uri) ? uri.substr(0, uri.find(schemeMark)) : std::string_view{}; }
+    static std::string_view afterScheme(std::string_view uri) { return uri.substr(uri.find(schemeMark) + schemeMark.size()); }
+    static std::string_view authorityOf(std::string_view uri) { return hasScheme(uri) ? until(afterScheme(uri), "/?#") : std::string_view{}; }
+    static std::string_view afterAuthority(std::string_view uri) {
+        return hasScheme(uri) ? afterScheme(uri).substr(authorityOf(uri).size()) : uri;
+    }
+    static std::string_view userinfoOf(std::string_view authority) {
+        return authority.find('@') == std::string_view::npos ? std::string_view{} : until(authority, "@");
+    }
+    static std::string_view hostAndPort(std::string_view authority) {
+        return authority.find('@') == std::string_view::npos ? authority : after(authority, "@");
     }
 };
 } // namespace uri
-- 
2.43.0


From 9d0eff08ca0d15d048f98d614b94cd7ecb68dd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 04/43] fix: no out-of-range shift and no stray byte when
 writing a WebSocket payload size

---
 include/http/WebSocket.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 3af01e4..f2a2154 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -99,7 +99,7 @@ struct Header {
     void setPayloadSize(size_t size) {
         raw[1] = (raw[1] & std::byte(0b10000000)) | std::byte(size < 126 ? size : size < 65536 ? 126 : 127);
         size_t len = size < 126 ? 0 : size < 65536 ? 2 : 8;
-        for (size_t i = 0; i <= len; ++i) raw[2 + i] = std::byte(size >> (8 * (len - i - 1)));
+        for (size_t i = 0; i < len; ++i) raw[2 + i] = std::byte(size >> (8 * (len - i - 1)));
     }
 
 protected:
-- 
2.43.0


From c579d03bbbd59d7c5ca275272768ede1f8e4a17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 05/43] fix: no extended length is read from WebSocket headers
 which have none

---
 include/http/WebSocket.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index f2a2154..2844ab4 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -48,6 +48,7 @@ struct Header {
     [[nodiscard]] uint8_t payloadLenField() const { return std::to_integer<uint8_t>(raw[1] & std::byte(0b1111111)); }
     [[nodiscard]] uint64_t extendedLenField() const {
         auto s = [this](size_t i, uint8_t shift = 0) constexpr { return std::to_integer<uint64_t>(raw[i]) << shift; };
+        if (payloadLenField() < 126) return 0;
         return payloadLenField() == 126 ? s(2, 8) | s(3) : s(2, 56) | s(3, 48) | s(4, 40) | s(5, 32) | s(6, 24) | s(7, 16) | s(8, 8) | s(9, 0);
     }
 
-- 
2.43.0


From a253f6e07f4078b40f095d98072236c8a8ae5d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 06/43] fix: a WebSocket header is complete as soon as its own
 size is received

---
 include/http/WebSocket.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 2844ab4..ab05835 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -81,8 +81,7 @@ struct Header {
 
     /// @return true if first 'size' bytes constitute a complete header
     [[nodiscard]] bool isComplete(size_t size) const {
-        if (size < 2) return false;
-        return std::to_integer<uint8_t>(raw[1] & std::byte(0b1111111)) < 126 ? size >= 6 : size >= 14;
+        return size >= 2 && size >= headerSize();
     }
 
     void setFIN(bool set) {
-- 
2.43.0


From ff1fdf78083451bfb2241c3e1e52d20eaaabdb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 07/43] fix: memory for a WebSocket payload is not reserved on
 the peer's word

---
 include/http/WebSocket.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index ab05835..afbcf3d 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -170,7 +170,6 @@ public:
             headerSize = reinterpret_cast<const Header*>(input)->headerSize();
             mask = reinterpret_cast<const Header*>(input)->maskingKey();
             frameType = reinterpret_cast<const Header*>(input)->opcode();
-            payloadBuffer.reserve(payloadSize);
         };
         auto bufferizeHeaderData = [&](std::span<const std::byte> input) -> size_t {
             for (size_t index = 0; index < input.size(); ++index) {
-- 
2.43.0


From 8cd165819bd83928e43d986fee85911df600aa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 08/43] fix: a WebSocket frame received in more than two pieces
 is complete only when its whole payload is

---
 include/http/WebSocket.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index afbcf3d..55c5a4b 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -201,8 +201,7 @@ public:
             }
         } break;
         case DecodingState::decodingPayload: {
-            decodePayload(buffer.first(std::min(payloadSize - payloadBuffer.size(), buffer.size())));
-            return (buffer.size() >= (payloadSize - payloadBuffer.size()));
+            return decodePayload(buffer.first(std::min(payloadSize - payloadBuffer.size(), buffer.size()))) == payloadSize;
         }
         }
         return false;
-- 
2.43.0


From 203337243d1e7e0c2e5f8b0f8b1e1768ad9b7e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 09/43] fix: every WebSocket frame of a received chunk is
 handled, not only the first one

---
 include/http/WebSocket.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 55c5a4b..7a8425a 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -161,7 +161,9 @@ public:
     // Parses some incoming data and tries to decode it.
     // @return true if the frame is complete, false if it needs more data
     bool parse(std::span<const std::byte> buffer) {
+        consumedSize = 0;
         auto decodePayload = [&](std::span<const std::byte> encoded) -> size_t {
+            consumedSize += encoded.size();
             for (auto in : encoded) payloadBuffer.push_back(in ^ mask[maskIndex++ % 4]);
             return payloadBuffer.size();
         };
@@ -184,16 +186,18 @@ public:
             if (reinterpret_cast<const Header*>(buffer.data())->isComplete(buffer.size())) {
                 reinterpret_cast<const Header*>(buffer.data())->dump();
                 decodeHeader(buffer.data());
+                consumedSize = headerSize;
                 if (decodePayload(buffer.subspan(headerSize, std::min(buffer.size() - headerSize, payloadSize))) == payloadSize) return true;
                 state = DecodingState::decodingPayload;
             }
             else {
-                bufferizeHeaderData(buffer);
+                consumedSize = bufferizeHeaderData(buffer);
                 state = DecodingState::partialHeader;
             }
             break;
         case DecodingState::partialHeader: {
             auto consumedData = bufferizeHeaderData(buffer);
+            consumedSize = consumedData;
             if (headerBuffer.isComplete(headerBufferParser)) {
                 decodeHeader(headerBuffer.raw.data());
                 if (decodePayload(buffer.subspan(consumedData, std::min(buffer.size() - consumedData, payloadSize))) == payloadSize) return true;
@@ -207,6 +211,9 @@ public:
         return false;
     }
 
+    /// @return size of the part of the last parsed buffer which belongs to the current frame
+    size_t consumed() const { return consumedSize; }
+
     void reset() {
         maskIndex = 0;
         headerBufferParser = 0;
@@ -219,7 +226,7 @@ private:
     std::vector<std::byte> payloadBuffer;
     Header headerBuffer;
     size_t headerBufferParser;
-    size_t payloadSize, headerSize;
+    size_t payloadSize, headerSize, consumedSize;
     std::array<std::byte, 4> mask;
     uint8_t maskIndex;
 };
@@ -270,7 +277,9 @@ private:
     void read() {
         socket.async_read_some(Net::Buffer(readBuffer), [this](std::error_code ec, std::size_t bytesTransferred) {
             if (!ec) {
-                if (decoder.parse(std::span(readBuffer.data(), bytesTransferred))) {
+                for (std::span<const std::byte> received(readBuffer.data(), bytesTransferred); !received.empty();
+                     received = received.subspan(decoder.consumed())) {
+                    if (!decoder.parse(received)) continue;
                     auto data = decoder.payload();
                     switch (decoder.frameType) {
                     case Header::Opcode::text:
-- 
2.43.0


From e6cfb983a286744cadc386744dedfccf2a588180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 10/43] fix: starting a WebSocket twice does not read twice
 into the same buffer

---
 include/http/WebSocket.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 7a8425a..9825177 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -248,6 +248,7 @@ public:
     ~WebSocket() { log::debug("WebSocket destructor"); }
 
     void start() {
+        if (started) return;
         started = true;
         read();
     }
-- 
2.43.0


From b076a75405594453499bd98b3f63dea72249a5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 11/43] fix: a stopped WebSocket neither reads on nor reports
 its closing twice

---
 include/http/WebSocket.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 9825177..d3fb281 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -278,7 +278,7 @@ private:
     void read() {
         socket.async_read_some(Net::Buffer(readBuffer), [this](std::error_code ec, std::size_t bytesTransferred) {
             if (!ec) {
-                for (std::span<const std::byte> received(readBuffer.data(), bytesTransferred); !received.empty();
+                for (std::span<const std::byte> received(readBuffer.data(), bytesTransferred); started && !received.empty();
                      received = received.subspan(decoder.consumed())) {
                     if (!decoder.parse(received)) continue;
                     auto data = decoder.payload();
@@ -297,9 +297,9 @@ private:
                     };
                     decoder.reset();
                 }
-                read();
+                if (started) read();
             }
-            else {
+            else if (started) {
                 log::error("Error in websocket::read() : {}:{}", ec.value(), ec.message());
                 if (closeHandler) closeHandler(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});
                 stop();
-- 
2.43.0


From 44cf547513601709e4c1ec57f9cdf6977730e864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 12/43] fix: a WebSocket frame which grows over 125 bytes or
 moves is sent with its own whole header

---
 include/http/WebSocket.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index d3fb281..eee3cc4 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -137,7 +137,11 @@ struct Frame : public Header {
 
     [[nodiscard]] size_t size() const { return payloadSize(); };
 
-    std::vector<typename Net::ConstBuffer> toBuffers() const { return buffers; }
+    std::vector<typename Net::ConstBuffer> toBuffers() const {
+        auto frameBuffers = buffers;
+        frameBuffers.front() = {raw.data(), headerSize()}; // the header may have moved or grown since the first buffers were added
+        return frameBuffers;
+    }
 
     /// @return size of added buffer
     size_t addBuffer(std::span<const std::byte> buffer) {
-- 
2.43.0


From bf4e478d465fa35a081d92efe50aa4ce7fd0ef33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 13/43] fix: WebSocket writes keep their data until they
 complete and never interleave

---
 include/http/WebSocket.hpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index eee3cc4..fea68dc 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -8,10 +8,13 @@
 
 #include <array>
 #include <cstddef>
+#include <deque>
 #include <functional>
 #include <memory>
 #include <set>
 #include <span>
+#include <utility>
+#include <vector>
 
 namespace webfront::websocket {
 using Handle = uint32_t;
@@ -276,6 +279,7 @@ private:
     std::function<void(std::string_view)> textHandler;
     std::function<void(std::span<const std::byte>)> binaryHandler;
     std::function<void(CloseEvent)> closeHandler;
+    std::deque<std::vector<std::byte>> pendingWrites;
     bool started;
 
 private:
@@ -311,9 +315,25 @@ private:
         });
     }
 
+    // A frame only refers to data owned by its sender, and writes in progress must not overlap: frames are copied in a queue
     void writeData(Frame<Net> frame) {
-        Net::AsyncWrite(socket, frame.toBuffers(), [this](std::error_code ec, std::size_t /*bytesTransferred*/) {
-            if (ec) {
+        auto& data = pendingWrites.emplace_back();
+        for (const auto& buffer : frame.toBuffers()) {
+            auto first = reinterpret_cast<const std::byte*>(buffer.data());
+            data.insert(data.end(), first, first + buffer.size());
+        }
+        if (pendingWrites.size() == 1) writeNext();
+    }
+
+    void writeNext() {
+        std::vector<typename Net::ConstBuffer> buffers{Net::Buffer(std::as_const(pendingWrites.front()))};
+        Net::AsyncWrite(socket, std::move(buffers), [this](std::error_code ec, std::size_t /*bytesTransferred*/) {
+            pendingWrites.pop_front();
+            if (!ec) {
+                if (!pendingWrites.empty()) writeNext();
+            }
+            else {
+                pendingWrites.clear();
                 if (started) {
                     log::error("Error during write : ec.value() = {}", ec.value());
                     if (closeHandler) closeHandler(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});
-- 
2.43.0


From 7ff8b39741222535539ae480fad7c30208d4f6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:17 +0000
Subject: [PATCH 14/43] fix: connections do not share the buffer of the HTTP
 method they receive

---
 include/http/HTTPServer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 7257cf9..c7e7de9 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -114,7 +114,8 @@ struct Request : Headers {
 private: // clang-format off
     enum class State { methodStart, method, URI, versionH, versionT1, versionT2, versionP, versionSlash, versionMajorStart, versionMajor, versionMinorStart,
                  versionMinor, newline1, headerLineStart, headerLws, headerName, spaceBeforeHeaderValue, headerValue, newline2, newline3, completed };
-    State state { State::methodStart };    
+    State state { State::methodStart };
+    std::string buffer; // method name being received
     bool completeRequest(char input) {
         auto isChar = [](char c) { return c >= 0; };
         auto isCtrl = [](char c) { return (c >= 0 && c <= 31) || (c == 127); };
@@ -129,7 +130,6 @@ private: // clang-format off
             if (cond) throw BadRequestException();
         };
 
-        static std::string buffer;
         using enum State;
         switch (state) {
             case methodStart:
-- 
2.43.0


From 38bc1fbba80746382ad0079ec6dc4b5cb91e8f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:17 +0000
Subject: [PATCH 15/43] fix: an endless HTTP version number is a bad request
 instead of an integer overflow

---
 include/http/HTTPServer.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index c7e7de9..052d61f 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -125,6 +125,7 @@ private: // clang-format off
             default: return false;
         }};
         auto isDigit = [](char c) { return c >= '0' && c <= '9'; };
+        auto appendDigit = [](int number, char digit) { if (number > 99) throw BadRequestException(); return number * 10 + digit - '0'; };
         auto setState = [this](bool cond, State next) {
             state = next;
             if (cond) throw BadRequestException();
@@ -148,14 +149,14 @@ private: // clang-format off
             case versionT2: setState(input != 'T', versionP); break;
             case versionP: setState(input != 'P', versionSlash); break;
             case versionSlash: setState(input != '/', versionMajorStart); httpVersionMajor = 0; httpVersionMinor = 0; break;
-            case versionMajorStart: setState(!isDigit(input), versionMajor); httpVersionMajor = httpVersionMajor * 10 + input - '0'; break;
+            case versionMajorStart: setState(!isDigit(input), versionMajor); httpVersionMajor = appendDigit(httpVersionMajor, input); break;
             case versionMajor: if (input == '.') state = versionMinorStart;
-                                    else if (isDigit(input)) httpVersionMajor = httpVersionMajor * 10 + input - '0';
+                                    else if (isDigit(input)) httpVersionMajor = appendDigit(httpVersionMajor, input);
                                     else throw BadRequestException();
                 break;
-            case versionMinorStart: setState(!isDigit(input), versionMinor); httpVersionMinor = httpVersionMinor * 10 + input - '0'; break;
+            case versionMinorStart: setState(!isDigit(input), versionMinor); httpVersionMinor = appendDigit(httpVersionMinor, input); break;
             case versionMinor: if (input == '\r') state = newline1;
-                                    else if (isDigit(input)) httpVersionMinor = httpVersionMinor * 10 + input - '0';
+                                    else if (isDigit(input)) httpVersionMinor = appendDigit(httpVersionMinor, input);
                                     else throw BadRequestException();
                 break;
             case newline1: setState(input != '\n', headerLineStart); break;
-- 
2.43.0


From e3e89fe436a642f86e0de1a37d451e8593de9302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:17 +0000
Subject: [PATCH 16/43] fix: responses being sent do not share their status
 line

---
 include/http/HTTPServer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 052d61f..ed79412 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -211,7 +211,6 @@ struct Response : Headers {
     template<typename Net>
     [[nodiscard]] std::vector<typename Net::ConstBuffer> toBuffers() const {
         std::vector<typename Net::ConstBuffer> buffers;
-        static std::string httpStatus;
         httpStatus = "HTTP/1.1 " + std::to_string(statusCode) + " " + toString(statusCode) + "\r\n";
         buffers.push_back(Net::Buffer(httpStatus));
 
@@ -230,6 +229,8 @@ struct Response : Headers {
     }
 
 private:
+    mutable std::string httpStatus; // storage for the first of toBuffers()
+
     [[nodiscard]] static std::string toString(StatusCode code) {
         switch (code) {
         case switchingProtocols: return "Switching Protocols";
-- 
2.43.0


From 1810ac7ffe498809eb21b02c683f19e89fe756e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:17 +0000
Subject: [PATCH 17/43] fix: a client which disconnects as soon as it is
 answered does not stop the server

---
 include/http/HTTPServer.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index ed79412..07b1c7a 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -412,7 +412,12 @@ private:
                 if (onUpgrade) onUpgrade(std::move(socket), protocol);
             }
             else {
-                if (!ec) socket.shutdown(Net::Socket::shutdown_both);
+                try {
+                    if (!ec) socket.shutdown(Net::Socket::shutdown_both);
+                }
+                catch (const std::system_error& e) {
+                    log::debug("Client already disconnected : {}", e.what());
+                }
                 if (ec != Net::Error::OperationAborted) connections.stop(self);
             }
         });
-- 
2.43.0


From b069c0aabe1b79267bb5c299fc61d661b73c517a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:17 +0000
Subject: [PATCH 18/43] fix: a connection is not upgraded when its upgrade
 response could not be sent

---
 include/http/HTTPServer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 07b1c7a..46f7ec2 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -407,7 +407,7 @@ private:
     void write() {
         auto self(this->shared_from_this());
         Net::AsyncWrite(socket, response.toBuffers<Net>(), [this, self](std::error_code ec, std::size_t /*bytesTransferred*/) {
-            if (protocol == Protocol::HTTPUpgrading) {
+            if (protocol == Protocol::HTTPUpgrading && !ec) {
                 protocol = Protocol::WebSocket;
                 if (onUpgrade) onUpgrade(std::move(socket), protocol);
             }
-- 
2.43.0


From a7d427355d9200e060d25bf5fa4c52397f298f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:17 +0000
Subject: [PATCH 19/43] fix: upgraded HTTP connections are not kept in memory
 until the server stops

---
 include/http/HTTPServer.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 46f7ec2..2f8e952 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -332,6 +332,9 @@ public:
         connection->stop();
     }
 
+    // forgets a connection whose socket has been handed over
+    void release(std::shared_ptr<ConnectionType> connection) { connections.erase(connection); }
+
     void stopAll() {
         for (auto connection : connections) connection->stop();
         connections.clear();
@@ -410,6 +413,7 @@ private:
             if (protocol == Protocol::HTTPUpgrading && !ec) {
                 protocol = Protocol::WebSocket;
                 if (onUpgrade) onUpgrade(std::move(socket), protocol);
+                connections.release(self);
             }
             else {
                 try {
-- 
2.43.0


From c72a1e047c0b6adfc6003e0aa1bf7a9ceded6eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:17 +0000
Subject: [PATCH 20/43] fix: HEAD is answered with the headers of GET and
 without any content

---
 include/http/HTTPServer.hpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 2f8e952..ab8fdc6 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -255,6 +255,15 @@ public:
     RequestHandler& operator=(RequestHandler&&) = default;
 
     Response handleRequest(Request request) {
+        auto response = respond(request);
+        if (request.method == Request::Method::Head) response.content.clear(); // only the headers of the corresponding GET response
+        return response;
+    }
+
+private:
+    FS fs;
+
+    Response respond(const Request& request) {
         auto requestUri = uri::decode(request.uri);
         log::debug("Request uri - raw:'{}' decoded:'{}'", request.uri, requestUri);
         if (requestUri.empty() || requestUri[0] != '/' || requestUri.find("..") != std::string::npos)
@@ -264,6 +273,11 @@ public:
         if (!requestPath.has_filename()) requestPath /= "index.html";
 
         Response response;
+        auto readContent = [&response](auto& file) {
+            std::array<char, 512> buffer{0, 0};
+            while (auto bytesRead = file.read(buffer)) response.content.append(buffer.data(), bytesRead);
+            if (file.isEncoded()) response.headers.emplace_back("Content-Encoding", file.getEncoding());
+        };
         switch (request.method) {
         case Request::Method::Get: {
             if (request.isUpgradeRequest("websocket")) {
@@ -287,14 +301,13 @@ public:
                 }
             }
 
-            std::array<char, 512> buffer{0, 0};
-            while (auto bytesRead = file->read(buffer)) response.content.append(buffer.data(), bytesRead);
-            if (file->isEncoded()) response.headers.emplace_back("Content-Encoding", file->getEncoding());
-
+            readContent(*file);
+        } break;
+        case Request::Method::Head: {
+            auto file = fs.open(requestPath);
+            if (!file) return Response::getStatusResponse(Response::notFound);
+            readContent(*file);
         } break;
-        case Request::Method::Head:
-            if (!fs.open(requestPath)) return Response::getStatusResponse(Response::notFound);
-            break;
 
         default: return Response::getStatusResponse(Response::notImplemented);
         };
@@ -305,9 +318,6 @@ public:
 
         return response;
     }
-
-private:
-    FS fs;
 };
 
 template<typename ConnectionType>
-- 
2.43.0


From 98513bf61ce01fd9436724c0538bc38cc57f6549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:08 +0000
Subject: [PATCH 21/43] fix: embedded files read through buffers of any size
 (each read starts with the current data word)

---
 include/system/FileSystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/system/FileSystem.hpp b/include/system/FileSystem.hpp
index ea7fed2..143307d 100644
--- a/include/system/FileSystem.hpp
+++ b/include/system/FileSystem.hpp
@@ -73,7 +73,7 @@ private:
         for (size_t index = 0; (index < buffer.size()); ++index) {
             if (eof()) return index;
 
-            if (readIndex % bytesPerInt == 0) chunk = convert(data[readIndex / bytesPerInt]);
+            if (index == 0 || readIndex % bytesPerInt == 0) chunk = convert(data[readIndex / bytesPerInt]);
 
             buffer[index] = static_cast<char>(chunk.byte[readIndex % bytesPerInt]);
             readIndex++;
-- 
2.43.0


From d554b02c2e83bba7bdc17ac2dbeaeaf1512e21ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:23 +0000
Subject: [PATCH 22/43] fix: media type of csv files

---
 include/http/MimeType.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/MimeType.hpp b/include/http/MimeType.hpp
index eeac5be..0333e7e 100644
--- a/include/http/MimeType.hpp
+++ b/include/http/MimeType.hpp
@@ -35,7 +35,7 @@ struct MimeType {
     [[nodiscard]] constexpr std::string_view toString() const {
         auto names =
           std::array{"text/plain",      "text/html", "text/css",     "application/javascript", "image/jpeg", "image/png", "image/gif", "application/json",
-                     "application/pdf", "font/ttf",  "image/x-icon", "image/svg+xml",          "image/webp", "text/css",  "text/csv"};
+                     "application/pdf", "font/ttf",  "image/x-icon", "image/svg+xml",          "image/webp", "text/csv"};
         return names[type];
     }
 };
-- 
2.43.0


From 828edf46b489ee8d5b4af295297908235dbec78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:25 +0000
Subject: [PATCH 23/43] fix: only regular files are served by the native file
 system (reading a directory never ends)

---
 include/system/NativeFS.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/system/NativeFS.hpp b/include/system/NativeFS.hpp
index 334a21d..cc46f32 100644
--- a/include/system/NativeFS.hpp
+++ b/include/system/NativeFS.hpp
@@ -13,6 +13,8 @@ namespace detail {
 class NativeRawFS {
 public:
     std::optional<File> open(std::filesystem::path path) {
+        std::error_code ec;
+        if (!std::filesystem::is_regular_file(rootPath / path, ec)) return {};
         std::ifstream file;
         file.open(rootPath / path, std::ios::binary);
         if (file.is_open()) return File{std::move(file)};
-- 
2.43.0


From d38ccb61c08bc830323d51ede8bddd3c065fbc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:39 +0000
Subject: [PATCH 24/43] fix: a file which cannot be read further is at its end

---
 include/system/FileSystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/system/FileSystem.hpp b/include/system/FileSystem.hpp
index 143307d..e6e0248 100644
--- a/include/system/FileSystem.hpp
+++ b/include/system/FileSystem.hpp
@@ -95,7 +95,7 @@ private:
 
     size_t readFStream(std::span<char> buffer) {
         fstream.read(buffer.data(), static_cast<std::streamsize>(buffer.size()));
-        if (fstream.eof()) {
+        if (!fstream) { // end of file or read error
             eofBit = true;
             fstream.close();
         }
-- 
2.43.0


From 28e2dbb0838b330979cd29411f09a54e2c48a953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:32 +0000
Subject: [PATCH 25/43] fix: messages which announce more data than received
 are refused

---
 include/weblink/Messages.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 16453d6..306ba95 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -104,7 +104,7 @@ public:
     static const T* castFromRawData(std::span<const std::byte> data) {
         if (data.size() < sizeof(typename T::Header)) throw std::runtime_error("Not enough data to form a message Header");
         auto message = reinterpret_cast<const T*>(data.data());
-        if ((data.size() + message->getPayloadSize()) < sizeof(typename T::Header))
+        if (data.size() - sizeof(typename T::Header) < message->getPayloadSize())
             throw std::runtime_error("Not enough data to form a complete message");
         return message;
     }
-- 
2.43.0


From 46541e3539999891de6e7d4eeaa88d8d4beb683b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:46 +0000
Subject: [PATCH 26/43] fix: parameters are only decoded from received data,
 and refused when they are not of the expected type

---
 include/weblink/Messages.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 306ba95..1a40c9d 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -289,26 +289,31 @@ public:
         cout << "decodeParameter with data size " << data.size() << " bytes\n";
         if (data.size() == 0) throw runtime_error("Not enough data for msg::FunctionCall::decodeParameter");
         auto codedType = static_cast<CodedType>(data[0]);
+        auto wrongType = [&] { return runtime_error("Wrong parameter type : "s + string(toString(codedType)) + " is not expected"); };
         switch (codedType) {
         case CodedType::smallString:
             if constexpr (is_same_v<T, string>) {
-                if (data.size() < 1u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
+                if (data.size() < 2u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
                 auto size = static_cast<size_t>(data[1]);
                 if (data.size() < 2u + size) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
-                param = string(reinterpret_cast<const char*>(&data[2]), size);
+                param = string(reinterpret_cast<const char*>(data.data() + 2), size);
                 data = data.subspan(2 + size);
             }
+            else
+                throw wrongType();
             break;
         case CodedType::string:
         case CodedType::exception:
             if constexpr (is_same_v<T, string>) {
-                if (data.size() < 1u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
+                if (data.size() < 3u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
                 uint16_t size;
                 copy_n(&data[1], 2, reinterpret_cast<byte*>(&size));
                 if (data.size() < 3u + size) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
-                param = string(reinterpret_cast<const char*>(&data[3]), size);
+                param = string(reinterpret_cast<const char*>(data.data() + 3), size);
                 data = data.subspan(3 + size);
             }
+            else
+                throw wrongType();
             break;
         case CodedType::number:
             if constexpr (is_arithmetic_v<T>) {
@@ -319,9 +324,12 @@ public:
                 param = static_cast<T>(value);
                 data = data.subspan(1 + sizeof(value));
             }
+            else
+                throw wrongType();
             break;
         case CodedType::tuple:
             if constexpr (is_tuple_v<T>) {
+                if (data.size() < 2u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
                 auto tupleSize = static_cast<size_t>(data[1]);
                 if (tuple_size_v<T> != tupleSize)
                     throw runtime_error("Parameter is a "s + to_string(tuple_size_v<T>) +
@@ -331,7 +339,7 @@ public:
                 std::apply([&](auto&... tupleArgs) { ((decodeParameter(tupleArgs, data)), ...); }, param);
             }
             else
-                throw runtime_error("Wrong parameter type : std::tuple expected");
+                throw wrongType();
             break;
 
         default: param = {};
-- 
2.43.0


From 1700f8b7f5f5b6a102be38bfafe4fea8863d05ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:01 +0000
Subject: [PATCH 27/43] fix: booleans received from the browser are decoded,
 and every decoded parameter is consumed

---
 include/weblink/Messages.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 1a40c9d..b6142d9 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -315,6 +315,15 @@ public:
             else
                 throw wrongType();
             break;
+        case CodedType::booleanTrue:
+        case CodedType::booleanFalse:
+            if constexpr (is_same_v<T, bool>) {
+                param = codedType == CodedType::booleanTrue;
+                data = data.subspan(1);
+            }
+            else
+                throw wrongType();
+            break;
         case CodedType::number:
             if constexpr (is_arithmetic_v<T>) {
                 double value;
@@ -342,7 +351,12 @@ public:
                 throw wrongType();
             break;
 
-        default: param = {};
+        case CodedType::undefined:
+            param = {};
+            data = data.subspan(1);
+            break;
+
+        default: throw wrongType();
         }
     }
 };
-- 
2.43.0


From a6be10c512f55b42318c79f3442157f6a0994b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:13 +0000
Subject: [PATCH 28/43] fix: numbers which do not fit in the expected integer
 are refused (undefined conversion)

---
 include/weblink/Messages.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index b6142d9..0713669 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -6,6 +6,7 @@
 #include <array>
 #include <bit>
 #include <cstddef>
+#include <limits>
 #include <span>
 #include <stdexcept>
 #include <string>
@@ -330,6 +331,11 @@ public:
                 if (data.size() < 1u + sizeof(value))
                     throw runtime_error("Erroneous 'number' data feeded to msg::FunctionCall::decodeParameter");
                 copy_n(&data[1], sizeof(value), reinterpret_cast<byte*>(&value));
+                if constexpr (is_integral_v<T> && !is_same_v<T, bool>) { // the integral part of value has to fit
+                    constexpr double lowest{numeric_limits<T>::lowest()}, end = 2.0 * (numeric_limits<T>::max() / 2 + 1);
+                    if (!((value >= lowest || value > lowest - 1) && value < end))
+                        throw runtime_error("Number out of range feeded to msg::FunctionCall::decodeParameter");
+                }
                 param = static_cast<T>(value);
                 data = data.subspan(1 + sizeof(value));
             }
-- 
2.43.0


From 20fe296714e4291008488b8460f2fe34aa547eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:25 +0000
Subject: [PATCH 29/43] fix: function returns are sent as such, not as function
 calls

---
 include/weblink/Messages.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 0713669..4003699 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -186,7 +186,11 @@ class FunctionCall : public MessageBase<FunctionCall> {
         return tName;
     }
 
+protected:
+    explicit FunctionCall(Command command) { head.command = command; }
+
 public:
+    FunctionCall() = default;
     void setParametersCount(uint8_t parametersCount) { head.parametersCount = parametersCount; }
     void setPayloadSize(uint32_t size) { head.parametersDataSize = size; }
     [[nodiscard]] uint8_t getParametersCount() const { return head.parametersCount; }
@@ -369,14 +373,8 @@ public:
 
 /// Encodes FunctionCall return values (or exceptions)
 class FunctionReturn : public FunctionCall {
-    struct Header {
-        Command command = Command::functionReturn;
-        uint8_t parametersCount = 0;
-        std::array<uint8_t, 2> padding{};
-        uint32_t parametersDataSize = 0;
-    } head;
-    static_assert(sizeof(Header) == 8, "FunctionReturn header has to be 8 bytes long");
-    friend class MessageBase<FunctionReturn>;
+public:
+    FunctionReturn() : FunctionCall(Command::functionReturn) {}
 };
 
 } // namespace webfront::msg
-- 
2.43.0


From cfff63e5705fbc510bb0c11db05bbeaf797d96c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:57 +0000
Subject: [PATCH 30/43] fix: a function call with too many parameters is
 refused instead of written beyond its buffer

---
 include/weblink/Messages.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 4003699..a76a779 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -209,13 +209,19 @@ public:
     void encodeParameter(T&& t, WebSocketFrame& frame) {
         using namespace std;
         using ParamType = remove_cvref_t<T>;
+        if (getParametersCount() == numeric_limits<uint8_t>::max()) throw length_error("Too many parameters in msg::FunctionCall::encodeParameter");
         setParametersCount(getParametersCount() + 1);
 
+        [[maybe_unused]] auto checkBufferRoom = [this](size_t size) {
+            if (size > buffer.size() - encodeBufferIndex) throw length_error("Too many parameters in msg::FunctionCall::encodeParameter");
+        };
+
         if constexpr (is_printable<T>::value) {
             std::cout << "Param: " << typeName<T>() << " -> " << typeName<ParamType>() << " : " << t << "\n";
         }
 
         [[maybe_unused]] auto encodeType = [&, this](msg::CodedType type, auto size, WebSocketFrame& wsFrame) {
+            checkBufferRoom(1 + sizeof(size));
             wsFrame.addBuffer(std::span(&buffer[encodeBufferIndex], 1 + sizeof(size)));
             buffer[encodeBufferIndex++] = static_cast<std::byte>(type);
             std::copy_n(reinterpret_cast<const std::byte*>(&size), sizeof(size), &buffer[encodeBufferIndex]);
@@ -240,6 +246,7 @@ public:
             std::apply([&](auto&... tupleArgs) { ((encodeParameter(tupleArgs, frame)), ...); }, t);
         }
         else if constexpr (is_same_v<ParamType, bool>) {
+            checkBufferRoom(1);
             frame.addBuffer(span(&buffer[encodeBufferIndex], 1));
             buffer[encodeBufferIndex++] = static_cast<byte>(t ? msg::CodedType::booleanTrue : msg::CodedType::booleanFalse);
             incrementPayloadSize(1);
@@ -247,6 +254,7 @@ public:
         }
         else if constexpr (is_arithmetic_v<ParamType>) {
             double number = t;
+            checkBufferRoom(1 + sizeof(number));
             frame.addBuffer(span(&buffer[encodeBufferIndex], 1 + sizeof(number)));
             buffer[encodeBufferIndex++] = static_cast<byte>(msg::CodedType::number);
             copy_n(reinterpret_cast<const byte*>(&number), sizeof(number), &buffer[encodeBufferIndex]);
-- 
2.43.0


From 8d177681cf7109fbe71c7e1d59169495dc4f0559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:07 +0000
Subject: [PATCH 31/43] fix: texts longer than their size field can tell are
 refused as parameters

---
 include/weblink/Messages.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index a76a779..9f9963e 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -3,6 +3,7 @@
 /// @brief Messages exchanged between webfront clients and server
 #pragma once
 
+#include <algorithm>
 #include <array>
 #include <bit>
 #include <cstddef>
@@ -230,6 +231,7 @@ public:
         };
 
         [[maybe_unused]] auto encodeString = [&](const char* str, size_t size) constexpr {
+            if (size > numeric_limits<uint16_t>::max()) throw length_error("Text too long for msg::FunctionCall::encodeParameter");
             if (size < 256)
                 encodeType(msg::CodedType::smallString, static_cast<uint8_t>(size), frame);
             else
@@ -287,7 +289,7 @@ public:
 
         else if constexpr (is_base_of_v<std::exception, ParamType>) {
             std::cout << "Exception : " << t.what() << '\n';
-            auto textSize = char_traits<char>::length(t.what());
+            auto textSize = min<size_t>(char_traits<char>::length(t.what()), numeric_limits<uint16_t>::max());
             encodeType(msg::CodedType::exception, static_cast<uint16_t>(textSize), frame);
             frame.addBuffer(span(reinterpret_cast<const std::byte*>(t.what()), textSize));
             incrementPayloadSize(textSize);
-- 
2.43.0


From f68bd59ef6ab6d3286c4d63d28eb31ca19c36c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:16 +0000
Subject: [PATCH 32/43] fix: calls of a JsFunction do not add up their sizes
 and encoded parameters

---
 include/JsFunction.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/JsFunction.hpp b/include/JsFunction.hpp
index 5eb62f8..7820957 100644
--- a/include/JsFunction.hpp
+++ b/include/JsFunction.hpp
@@ -21,7 +21,7 @@ public:
         : name(functionName), webFront(wf), webLinkId(linkId) {}
 
     void operator()(auto&&... ts) {
-        command.setParametersCount(0);
+        msg::FunctionCall command; // owns the encoded parameters until they are sent
         websocket::Frame<typename WebFront::Net> frame{std::span(reinterpret_cast<const std::byte*>(command.header().data()), command.header().size())};
         command.encodeParameter(name, frame);
         (((command.encodeParameter(std::forward<decltype(ts)>(ts), frame))), ...);
@@ -33,7 +33,6 @@ private:
     std::string name;
     WebFront& webFront;
     WebLinkId webLinkId;
-    msg::FunctionCall command;
 };
 
 } // namespace webfront
-- 
2.43.0


From 4e1577a7f24cbabff23c49d1eeab8f1c73f2496a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:43 +0000
Subject: [PATCH 33/43] fix: text commands never announce another size than the
 one of their text

---
 include/weblink/Messages.hpp | 6 +++++-
 include/weblink/WebLink.hpp  | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 9f9963e..8ab6604 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -148,11 +148,15 @@ class TextCommand : public MessageBase<TextCommand> {
     friend class MessageBase<TextCommand>;
 
 public:
+    static constexpr size_t maxTextSize = 65535;
+
     TextCommand(TxtOpcode opcode, std::string_view text)
         : head{.opcode = opcode,
                .lengthHi = static_cast<uint8_t>(text.size() >> 8),
                .lengthLo = static_cast<uint8_t>(text.size())},
-          payloadSpan{reinterpret_cast<const std::byte*>(text.data()), text.size()} {}
+          payloadSpan{reinterpret_cast<const std::byte*>(text.data()), text.size()} {
+        if (text.size() > maxTextSize) throw std::length_error("Text too long for a msg::TextCommand");
+    }
 
     [[nodiscard]] std::span<const std::byte> payload() const { return payloadSpan; }
     [[nodiscard]] size_t getPayloadSize() const { return static_cast<uint16_t>(256 * head.lengthHi + head.lengthLo); }
diff --git a/include/weblink/WebLink.hpp b/include/weblink/WebLink.hpp
index fb4f54d..144b34d 100644
--- a/include/weblink/WebLink.hpp
+++ b/include/weblink/WebLink.hpp
@@ -52,7 +52,7 @@ public:
                 auto command = msg::Handshake::castFromRawData(data);
                 sendCommand(msg::Ack{});
                 logSink =
-                  log::addSinks([this](std::string_view t) { sendCommand(msg::TextCommand(msg::TxtOpcode::debugLog, t)); });
+                  log::addSinks([this](std::string_view t) { sendCommand(msg::TextCommand(msg::TxtOpcode::debugLog, t.substr(0, msg::TextCommand::maxTextSize))); });
                 sameEndian = (std::endian::native == std::endian::little &&
                               static_cast<msg::JSEndian>(command->getEndian()) == msg::JSEndian::little) ||
                              (std::endian::native == std::endian::big &&
-- 
2.43.0


From 544bc2a10519707837e30d0e867c091a1594fbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:13 +0000
Subject: [PATCH 34/43] fix: malformed messages from the browser are ignored
 instead of stopping the server

---
 include/weblink/WebLink.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/weblink/WebLink.hpp b/include/weblink/WebLink.hpp
index 144b34d..5fd2709 100644
--- a/include/weblink/WebLink.hpp
+++ b/include/weblink/WebLink.hpp
@@ -46,6 +46,7 @@ public:
         });
         ws.onMessage([this](std::span<const std::byte> data) {
             log::infoHex("onMessage(binary) :", data);
+            if (data.size() < sizeof(msg::Handshake)) return; // shorter than any message
 
             switch (static_cast<msg::Command>(data[0])) {
             case msg::Command::handshake: {
@@ -62,9 +63,9 @@ public:
 
             case msg::Command::callFunction: {
                 log::info("Function called !");
-                auto command = msg::FunctionCall::castFromRawData(data);
-                auto [functionName, paramData] = command->getFunctionName();
                 try {
+                    auto command = msg::FunctionCall::castFromRawData(data);
+                    auto [functionName, paramData] = command->getFunctionName();
                     eventsHandler(WebLinkEvent(WebLinkEvent::Code::cppFunctionCalled, id, functionName, paramData));
                 }
                 catch (const std::out_of_range& e) {
-- 
2.43.0


From 13ac77348afa14e1305b900d8b500bc1bfe980bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:27 +0000
Subject: [PATCH 35/43] fix: a repeated handshake neither links twice nor
 leaves a log sink of a dead link

---
 include/weblink/WebLink.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/weblink/WebLink.hpp b/include/weblink/WebLink.hpp
index 5fd2709..913476f 100644
--- a/include/weblink/WebLink.hpp
+++ b/include/weblink/WebLink.hpp
@@ -52,6 +52,7 @@ public:
             case msg::Command::handshake: {
                 auto command = msg::Handshake::castFromRawData(data);
                 sendCommand(msg::Ack{});
+                if (logSink) break; // already linked
                 logSink =
                   log::addSinks([this](std::string_view t) { sendCommand(msg::TextCommand(msg::TxtOpcode::debugLog, t.substr(0, msg::TextCommand::maxTextSize))); });
                 sameEndian = (std::endian::native == std::endian::little &&
-- 
2.43.0


From 64440f083157599504fecf9026bf7f2ba5e7f13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:27 +0000
Subject: [PATCH 36/43] fix: registered C++ functions are stored, not referred
 to after their registration

---
 include/WebFront.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/WebFront.hpp b/include/WebFront.hpp
index e63f5b5..75762ec 100644
--- a/include/WebFront.hpp
+++ b/include/WebFront.hpp
@@ -90,7 +90,7 @@ public:
      */
     template<typename R, typename... Args>
     void cppFunction(std::string functionName, auto&& function) {
-        cppFunctions.try_emplace(functionName, [&function](std::span<const std::byte> data) -> void {
+        cppFunctions.try_emplace(functionName, [function = std::forward<decltype(function)>(function)](std::span<const std::byte> data) mutable -> void {
             std::tuple<Args...> parameters;
             auto deserializeAndCall = [&]<std::size_t... Is>(std::tuple<Args...> & tuple, std::index_sequence<Is...>) {
                 (msg::FunctionCall::decodeParameter(std::get<Is>(tuple), data), ...);
-- 
2.43.0


From bda2515527e8f89d8661036aa55a929ce2262ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:27 +0000
Subject: [PATCH 37/43] fix: a browser may link while no UI handler is set

---
 include/WebFront.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/WebFront.hpp b/include/WebFront.hpp
index 75762ec..3f7db1b 100644
--- a/include/WebFront.hpp
+++ b/include/WebFront.hpp
@@ -111,7 +111,9 @@ private:
 private:
     void onEvent(WebLinkEvent event) {
         switch (event.code) {
-        case WebLinkEvent::Code::linked: uiStartedHandler(UI{*this, event.webLinkId}); break;
+        case WebLinkEvent::Code::linked:
+            if (uiStartedHandler) uiStartedHandler(UI{*this, event.webLinkId});
+            break;
         case WebLinkEvent::Code::closed: webLinks.erase(event.webLinkId); break;
         case WebLinkEvent::Code::cppFunctionCalled: cppFunctions.at(event.text)(event.data); break;
         }
-- 
2.43.0


From 9c9858000231ea40df6dc658ae3197b14e1eb844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:21 +0000
Subject: [PATCH 38/43] fix: a WebSocket may be destroyed when it is closed,
 with operations pending

---
 include/http/WebSocket.hpp | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index fea68dc..c82b089 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -281,10 +281,12 @@ private:
     std::function<void(CloseEvent)> closeHandler;
     std::deque<std::vector<std::byte>> pendingWrites;
     bool started;
+    std::shared_ptr<bool> lifetime = std::make_shared<bool>(); // pending operations may end after this WebSocket
 
 private:
     void read() {
-        socket.async_read_some(Net::Buffer(readBuffer), [this](std::error_code ec, std::size_t bytesTransferred) {
+        socket.async_read_some(Net::Buffer(readBuffer), [this, alive = std::weak_ptr(lifetime)](std::error_code ec, std::size_t bytesTransferred) {
+            if (alive.expired()) return;
             if (!ec) {
                 for (std::span<const std::byte> received(readBuffer.data(), bytesTransferred); started && !received.empty();
                      received = received.subspan(decoder.consumed())) {
@@ -298,23 +300,29 @@ private:
                         if (binaryHandler) binaryHandler(data);
                         break;
                     case Header::Opcode::connectionClose:
-                        if (closeHandler) closeHandler(CloseEvent{});
-                        stop();
-                        break;
+                        close(CloseEvent{});
+                        return;
                     default: log::debug("Unhandled frameType");
                     };
+                    if (alive.expired()) return;
                     decoder.reset();
                 }
                 if (started) read();
             }
             else if (started) {
                 log::error("Error in websocket::read() : {}:{}", ec.value(), ec.message());
-                if (closeHandler) closeHandler(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});
-                stop();
+                close(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});
             }
         });
     }
 
+    // Has to be the last thing done: the close handler may destroy this WebSocket
+    void close(CloseEvent event) {
+        auto handler = closeHandler;
+        stop();
+        if (handler) handler(std::move(event));
+    }
+
     // A frame only refers to data owned by its sender, and writes in progress must not overlap: frames are copied in a queue
     void writeData(Frame<Net> frame) {
         auto& data = pendingWrites.emplace_back();
@@ -327,7 +335,8 @@ private:
 
     void writeNext() {
         std::vector<typename Net::ConstBuffer> buffers{Net::Buffer(std::as_const(pendingWrites.front()))};
-        Net::AsyncWrite(socket, std::move(buffers), [this](std::error_code ec, std::size_t /*bytesTransferred*/) {
+        Net::AsyncWrite(socket, std::move(buffers), [this, alive = std::weak_ptr(lifetime)](std::error_code ec, std::size_t /*bytesTransferred*/) {
+            if (alive.expired()) return;
             pendingWrites.pop_front();
             if (!ec) {
                 if (!pendingWrites.empty()) writeNext();
@@ -336,8 +345,7 @@ private:
                 pendingWrites.clear();
                 if (started) {
                     log::error("Error during write : ec.value() = {}", ec.value());
-                    if (closeHandler) closeHandler(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});
-                    if (ec != Net::Error::OperationAborted) stop();
+                    close(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});
                 }
             }
         });
-- 
2.43.0


From 15d830ff98c9db01c17e864c733b53c8f66eb1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:30 +0000
Subject: [PATCH 39/43] fix: a link whose WebSocket is closed is reported
 closed and forgotten

---
 include/weblink/WebLink.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/weblink/WebLink.hpp b/include/weblink/WebLink.hpp
index 913476f..15cdb2c 100644
--- a/include/weblink/WebLink.hpp
+++ b/include/weblink/WebLink.hpp
@@ -84,6 +84,10 @@ public:
             default: break;
             }
         });
+        ws.onClose([this](websocket::CloseEvent) {
+            auto handler = eventsHandler; // handling the event may destroy this WebLink
+            handler({WebLinkEvent::Code::closed, id});
+        });
 
         ws.start();
     }
-- 
2.43.0


From c9d50fe82096303a5de1d2d896d4ddc4c1bbc7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:20 +0000
Subject: [PATCH 40/43] fix: the name of an unknown HTTP method is not read
 beyond the table of names

---
 include/http/HTTPServer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index ab8fdc6..568f261 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -182,7 +182,7 @@ private: // clang-format off
         }
         return false;
     }
-    inline static std::array methodNames{"CONNECT", "DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT", "TRACE"};
+    inline static std::array methodNames{"CONNECT", "DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT", "TRACE", "UNDEFINED"};
 }; // clang-format on
 
 struct Response : Headers {
-- 
2.43.0


From 0407aa130f4ba31d9354ba529182b3c1b5b32d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:02 +0000
Subject: [PATCH 41/43] fix: hex dump of two buffers narrowed elements wider
 than a byte

---
 include/tooling/HexDump.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/tooling/HexDump.hpp b/include/tooling/HexDump.hpp
index b673417..305252d 100644
--- a/include/tooling/HexDump.hpp
+++ b/include/tooling/HexDump.hpp
@@ -79,10 +79,9 @@ std::ostream& operator<<(std::ostream& os, const HexDump<Container>& h) {
 ///
 /// @return  a multi-lines string with the dumped data
 [[nodiscard]] static std::string hexDump(const Buffer auto& buffer1, const Buffer auto& buffer2) {
-    std::vector<uint8_t> buffer;
-    buffer.resize(buffer1.size() + buffer2.size());
-    std::copy_n(buffer1.data(), buffer1.size(), buffer.data());
-    std::copy_n(buffer2.data(), buffer2.size(), buffer.data() + buffer1.size());
+    std::vector<std::byte> buffer;
+    for (auto bytes : {std::as_bytes(std::span(buffer1.data(), buffer1.size())), std::as_bytes(std::span(buffer2.data(), buffer2.size()))})
+        buffer.insert(buffer.end(), bytes.begin(), bytes.end());
 
     std::stringstream ss;
     ss << HexDump<decltype(buffer)>(buffer);
-- 
2.43.0


From c920f3e38fc7f62f03a5d4a185778bf2a8fd0010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:59 +0000
Subject: [PATCH 42/43] fix: the fragments of a WebSocket message were
 delivered as if the first one was all of it

---
 include/http/WebSocket.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index c82b089..e4b0ea0 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -160,6 +160,7 @@ struct Frame : public Header {
 class FrameDecoder {
 public:
     Header::Opcode frameType;
+    bool finalFrame; // false if other frames of the same message follow
 
 public:
     FrameDecoder() : payloadBuffer(sizeof(Header)) { reset(); }
@@ -179,6 +180,7 @@ public:
             headerSize = reinterpret_cast<const Header*>(input)->headerSize();
             mask = reinterpret_cast<const Header*>(input)->maskingKey();
             frameType = reinterpret_cast<const Header*>(input)->opcode();
+            finalFrame = reinterpret_cast<const Header*>(input)->FIN();
         };
         auto bufferizeHeaderData = [&](std::span<const std::byte> input) -> size_t {
             for (size_t index = 0; index < input.size(); ++index) {
@@ -276,6 +278,8 @@ public:
 private:
     std::array<std::byte, receptionBufferSize> readBuffer;
     FrameDecoder decoder;
+    std::vector<std::byte> fragments; // of the message being received
+    Header::Opcode messageType{Header::Opcode::continuation};
     std::function<void(std::string_view)> textHandler;
     std::function<void(std::span<const std::byte>)> binaryHandler;
     std::function<void(CloseEvent)> closeHandler;
@@ -292,7 +296,17 @@ private:
                      received = received.subspan(decoder.consumed())) {
                     if (!decoder.parse(received)) continue;
                     auto data = decoder.payload();
-                    switch (decoder.frameType) {
+                    auto type = decoder.frameType;
+                    if (type < Header::Opcode::connectionClose) { // a message, or a fragment of it
+                        if (type != Header::Opcode::continuation || messageType == Header::Opcode::continuation) fragments.clear();
+                        if (type != Header::Opcode::continuation) messageType = type;
+                        if (type == Header::Opcode::continuation || !decoder.finalFrame) {
+                            fragments.insert(fragments.end(), data.begin(), data.end());
+                            data = fragments;
+                        }
+                        type = decoder.finalFrame ? std::exchange(messageType, Header::Opcode::continuation) : Header::Opcode::continuation;
+                    }
+                    switch (type) {
                     case Header::Opcode::text:
                         if (textHandler) textHandler(std::string_view(reinterpret_cast<const char*>(data.data()), data.size()));
                         break;
@@ -302,6 +316,7 @@ private:
                     case Header::Opcode::connectionClose:
                         close(CloseEvent{});
                         return;
+                    case Header::Opcode::continuation: break; // the message is not complete
                     default: log::debug("Unhandled frameType");
                     };
                     if (alive.expired()) return;
-- 
2.43.0


From bdadfc5279f0ef56651dc791ec2ef18b6a9d10a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:43 +0000
Subject: [PATCH 43/43] fix: SHA-1 of messages of 512 MB or more padded with a
 truncated length

---
 include/http/Encodings.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/http/Encodings.hpp b/include/http/Encodings.hpp
index 971b506..b1b9058 100644
--- a/include/http/Encodings.hpp
+++ b/include/http/Encodings.hpp
@@ -203,12 +203,12 @@ static constexpr size_t sha1Length = 5;
     };
 
     for (auto c : input) next(static_cast<uint8_t>(c));
-    auto b = byteCount * 8;
+    auto b = static_cast<uint64_t>(byteCount) * 8;
     next(0x80);
     if (blockByteIndex > 56)
         while (blockByteIndex != 0) next(0);
     while (blockByteIndex < 56) next(0);
-    for (auto value : {uint8_t(0), uint8_t(0), uint8_t(0), uint8_t(0), uint8_t(b >> 24), uint8_t(b >> 16), uint8_t(b >> 8), uint8_t(b)}) next(value);
+    for (int shift = 56; shift >= 0; shift -= 8) next(static_cast<uint8_t>(b >> shift));
 
     return digest;
 }
-- 
2.43.0

