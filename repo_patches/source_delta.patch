From ed6c52e4f7f71b594f4c4df159d37e21d82ae63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 01/37] fix: uri::encode indexes its digit table with a
 negative value for bytes above 127

---
 include/http/Encodings.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/http/Encodings.hpp b/include/http/Encodings.hpp
index 44ab149..0a8f694 100644
--- a/include/http/Encodings.hpp
+++ b/include/http/Encodings.hpp
@@ -21,9 +21,9 @@ namespace uri {
 [[nodiscard]] inline std::string encode(std::string_view uri) {
     std::string encoded;
     static std::array digits{'0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'A', 'B', 'C', 'D', 'E', 'F'};
-    for (auto c : uri) {
+    for (unsigned char c : uri) {
         if (std::isalnum(c) || c == '-' || c == '_' || c == '.' || c == '~')
-            encoded += c;
+            encoded += static_cast<char>(c);
         else {
             encoded += "%";
             encoded += digits[static_cast<size_t>(c >> 4)];
-- 
2.43.0


From 9e5d467623f3ff9d30cefeb2ce9f388ce496de4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 02/37] fix: base64 of inputs shorter than 2 bytes reads out of
 bounds, and trailing NULs follow texts whose size is a multiple of 3

---
 include/http/Encodings.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/http/Encodings.hpp b/include/http/Encodings.hpp
index 0a8f694..99a0816 100644
--- a/include/http/Encodings.hpp
+++ b/include/http/Encodings.hpp
@@ -111,10 +111,10 @@ namespace detail {
                                     'W', 'X', 'Y', 'Z', 'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p', 'q', 'r',
                                     's', 't', 'u', 'v', 'w', 'x', 'y', 'z', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '+', '/'};
 
-    std::string output((4 * (size + 2) / 3), '\0');
+    std::string output(4 * ((size + 2) / 3), '\0');
     auto coded = output.begin();
     size_t i = 0;
-    for (; i < size - 2; i += 3) {
+    for (; i + 2 < size; i += 3) {
         *coded++ = code[(input[i] >> 2) & 0x3Fu];
         *coded++ = code[((input[i] & 0x3u) << 4) | ((input[i + 1] & 0xF0u) >> 4)];
         *coded++ = code[((input[i + 1] & 0xFu) << 2) | ((input[i + 2] & 0xC0u) >> 6)];
-- 
2.43.0


From c65f6c75b81040363b9d6ff76ef6a77ba0c3aff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 03/37] fix: sha1 only hashes the low 32 bits of the message
 length

---
 include/http/Encodings.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/Encodings.hpp b/include/http/Encodings.hpp
index 99a0816..f6991bd 100644
--- a/include/http/Encodings.hpp
+++ b/include/http/Encodings.hpp
@@ -211,7 +211,7 @@ static constexpr size_t sha1Length = 5;
     if (blockByteIndex > 56)
         while (blockByteIndex != 0) next(0);
     while (blockByteIndex < 56) next(0);
-    for (auto value : {uint8_t(0), uint8_t(0), uint8_t(0), uint8_t(0), uint8_t(b >> 24), uint8_t(b >> 16), uint8_t(b >> 8), uint8_t(b)}) next(value);
+    for (auto value : {uint8_t(b >> 56), uint8_t(b >> 48), uint8_t(b >> 40), uint8_t(b >> 32), uint8_t(b >> 24), uint8_t(b >> 16), uint8_t(b >> 8), uint8_t(b)}) next(value);
 
     return digest;
 }
-- 
2.43.0


From 66aa7403c24610e6bfcf1f1e3a29c1d46e0a41a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 04/37] fix: URI fields depend on previously parsed URIs and
 are wrong without scheme, path or query

---
 include/http/Encodings.hpp | 46 ++++++++++++++------------------------
 1 file changed, 17 insertions(+), 29 deletions(-)

diff --git a/include/http/Encodings.hpp b/include/http/Encodings.hpp
index f6991bd..b1abc23 100644
--- a/include/http/Encodings.hpp
+++ b/include/http/Encodings.hpp
@@ -66,39 +66,27 @@ namespace uri {
 //  └─┬─┘   └─────────────┬────────────┘└───────┬───────┘ └────────────┬────────────┘ └┬┘
 //  scheme          authority                  path                  query           fragment
 struct URI {
-    URI(std::string uri) : string(uri), scheme(next(string)), authority(next(string)), path(next(string)), query(next(string)),
-        fragment(next(string)), userinfo(next(authority)), host(next(authority)), port(next(authority)) {}
-        
+    URI(std::string uri) : string(std::move(uri)), scheme(view().substr(0, hasAuthority() ? schemeEnd() : 0)),
+        authority(hasAuthority() ? before(view().substr(schemeEnd() + 3), "/?#") : std::string_view{}),
+        path(before(view().substr(hasAuthority() ? schemeEnd() + 3 + authority.size() : 0), "?#")), query(after(before(view(), "#"), "?")),
+        fragment(after(view(), "#")), userinfo(authority.find('@') == npos ? std::string_view{} : before(authority, "@")),
+        host(hostPort().substr(0, hostSize())), port(after(hostPort().substr(hostSize()), ":")) {}
+
     const std::string string;
     const std::string_view scheme, authority, path, query, fragment, userinfo, host, port;
 
-private:    
-    static std::string_view next(std::string_view uri) {
-        const size_t schem{0}, autho{1}, path_{2}, quer_{3}, fragm{4}, usrnf{5}, host_{6}, port_{7}, npos = std::string_view::npos; 
-        static size_t step{port_}, mark, mark2;
-        step = (step == port_) ? schem : step + 1;
-        switch (step) {
-            case schem: mark = uri.find("://");
-                if (mark == npos) { mark = uri.size() - 3; return {}; } else return uri.substr(0, mark);
-            case autho: mark2 = uri.find("/", mark + 3);
-                if (mark2 == npos) { mark2 = uri.size() - 1; return {}; } else return uri.substr(mark + 3, mark2 - mark - 3);
-            case path_: mark = uri.find("?", mark2 + 1);
-                if (mark == npos) {
-                    mark = uri.find("#");
-                    if (mark == npos) { mark = uri.size() - 1; return uri.substr(mark2); }
-                }
-                return uri.substr(mark2, mark - mark2);
-            case quer_: mark2 = uri.find("#", mark + 1);
-                if (mark2 == npos) { mark2 = uri.size() - 1; return uri.substr(mark + 1); } else return uri.substr(mark + 1, mark2 - mark - 1);
-            case fragm: return uri.substr(mark2 + 1);
-            case usrnf: mark = uri.find("@");
-                if (mark == npos) return {}; else return uri.substr(0, mark);
-            case host_: mark2 = uri.find(":", mark + 1);
-                if (mark2 == npos) return uri.substr(mark + 1); else return uri.substr(mark + 1, mark2 - mark - 1);
-            case port_: if (mark2 != npos) return uri.substr(mark2 + 1);
-        }
-        return {};           
+private:
+    static constexpr size_t npos = std::string_view::npos;
+    static std::string_view before(std::string_view text, std::string_view delimiters) { return text.substr(0, text.find_first_of(delimiters)); }
+    static std::string_view after(std::string_view text, std::string_view delimiters) {
+        auto pos = text.find_first_of(delimiters);
+        return pos == npos ? std::string_view{} : text.substr(pos + 1);
     }
+    std::string_view view() const { return string; }
+    size_t schemeEnd() const { return view().find("://"); }
+    bool hasAuthority() const { return schemeEnd() != npos; }
+    std::string_view hostPort() const { return userinfo.data() ? authority.substr(userinfo.size() + 1) : authority; }
+    size_t hostSize() const { return std::min(hostPort().find(':', hostPort().starts_with('[') ? hostPort().find(']') : 0), hostPort().size()); }
 };
 } // namespace uri
 
-- 
2.43.0


From 0c9859246abf42f6c4ac50abd4a8d01d69e0b371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 05/37] fix: MimeType::toString yields text/css for csv

---
 include/http/MimeType.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/MimeType.hpp b/include/http/MimeType.hpp
index eeac5be..0333e7e 100644
--- a/include/http/MimeType.hpp
+++ b/include/http/MimeType.hpp
@@ -35,7 +35,7 @@ struct MimeType {
     [[nodiscard]] constexpr std::string_view toString() const {
         auto names =
           std::array{"text/plain",      "text/html", "text/css",     "application/javascript", "image/jpeg", "image/png", "image/gif", "application/json",
-                     "application/pdf", "font/ttf",  "image/x-icon", "image/svg+xml",          "image/webp", "text/css",  "text/csv"};
+                     "application/pdf", "font/ttf",  "image/x-icon", "image/svg+xml",          "image/webp", "text/csv"};
         return names[type];
     }
 };
-- 
2.43.0


From 862e2d317063d6856a5ae98f08d234be4f092ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 06/37] fix: method and header bytes being parsed are shared
 between all the connections

---
 include/http/HTTPServer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 7257cf9..584e953 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -115,6 +115,7 @@ private: // clang-format off
     enum class State { methodStart, method, URI, versionH, versionT1, versionT2, versionP, versionSlash, versionMajorStart, versionMajor, versionMinorStart,
                  versionMinor, newline1, headerLineStart, headerLws, headerName, spaceBeforeHeaderValue, headerValue, newline2, newline3, completed };
     State state { State::methodStart };    
+    std::string buffer;
     bool completeRequest(char input) {
         auto isChar = [](char c) { return c >= 0; };
         auto isCtrl = [](char c) { return (c >= 0 && c <= 31) || (c == 127); };
@@ -129,7 +130,6 @@ private: // clang-format off
             if (cond) throw BadRequestException();
         };
 
-        static std::string buffer;
         using enum State;
         switch (state) {
             case methodStart:
-- 
2.43.0


From 04dac8248225deb261e278131a20bb6375c1b146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 07/37] fix: Request::getMethodName reads out of bounds for an
 unknown or not yet parsed method

---
 include/http/HTTPServer.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 584e953..d56fabb 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -77,10 +77,10 @@ struct BadRequestException : public std::runtime_error {
 
 struct Request : Headers {
     enum class Method { Connect, Delete, Get, Head, Options, Patch, Post, Put, Trace, Undefined };
-    Method method;
+    Method method{Method::Undefined};
     std::string uri;
-    int httpVersionMajor;
-    int httpVersionMinor;
+    int httpVersionMajor{};
+    int httpVersionMinor{};
 
     void reset() {
         headers.clear();
@@ -181,7 +181,7 @@ private: // clang-format off
         }
         return false;
     }
-    inline static std::array methodNames{"CONNECT", "DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT", "TRACE"};
+    inline static std::array methodNames{"CONNECT", "DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT", "TRACE", "UNDEFINED"};
 }; // clang-format on
 
 struct Response : Headers {
-- 
2.43.0


From ea1e02973323b953f8ae6089421b1acead34c6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 08/37] fix: HTTP version numbers overflow int

---
 include/http/HTTPServer.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index d56fabb..d7ce614 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -125,6 +125,7 @@ private: // clang-format off
             default: return false;
         }};
         auto isDigit = [](char c) { return c >= '0' && c <= '9'; };
+        auto appendDigit = [](int& number, char c) { if (number < 100000000) number = number * 10 + c - '0'; };
         auto setState = [this](bool cond, State next) {
             state = next;
             if (cond) throw BadRequestException();
@@ -148,14 +149,14 @@ private: // clang-format off
             case versionT2: setState(input != 'T', versionP); break;
             case versionP: setState(input != 'P', versionSlash); break;
             case versionSlash: setState(input != '/', versionMajorStart); httpVersionMajor = 0; httpVersionMinor = 0; break;
-            case versionMajorStart: setState(!isDigit(input), versionMajor); httpVersionMajor = httpVersionMajor * 10 + input - '0'; break;
+            case versionMajorStart: setState(!isDigit(input), versionMajor); appendDigit(httpVersionMajor, input); break;
             case versionMajor: if (input == '.') state = versionMinorStart;
-                                    else if (isDigit(input)) httpVersionMajor = httpVersionMajor * 10 + input - '0';
+                                    else if (isDigit(input)) appendDigit(httpVersionMajor, input);
                                     else throw BadRequestException();
                 break;
-            case versionMinorStart: setState(!isDigit(input), versionMinor); httpVersionMinor = httpVersionMinor * 10 + input - '0'; break;
+            case versionMinorStart: setState(!isDigit(input), versionMinor); appendDigit(httpVersionMinor, input); break;
             case versionMinor: if (input == '\r') state = newline1;
-                                    else if (isDigit(input)) httpVersionMinor = httpVersionMinor * 10 + input - '0';
+                                    else if (isDigit(input)) appendDigit(httpVersionMinor, input);
                                     else throw BadRequestException();
                 break;
             case newline1: setState(input != '\n', headerLineStart); break;
-- 
2.43.0


From 66ad840ec696223ecdc269b28b32a7ead76c1fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 09/37] fix: the status line of a response being sent is
 overwritten by the next response

---
 include/http/HTTPServer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index d7ce614..7f4b7e0 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -211,7 +211,6 @@ struct Response : Headers {
     template<typename Net>
     [[nodiscard]] std::vector<typename Net::ConstBuffer> toBuffers() const {
         std::vector<typename Net::ConstBuffer> buffers;
-        static std::string httpStatus;
         httpStatus = "HTTP/1.1 " + std::to_string(statusCode) + " " + toString(statusCode) + "\r\n";
         buffers.push_back(Net::Buffer(httpStatus));
 
@@ -230,6 +229,8 @@ struct Response : Headers {
     }
 
 private:
+    mutable std::string httpStatus; // storage of the status line referenced by toBuffers
+
     [[nodiscard]] static std::string toString(StatusCode code) {
         switch (code) {
         case switchingProtocols: return "Switching Protocols";
-- 
2.43.0


From d0fbd5a3f2ccc9bf19b987f87d65ca0086a9e309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 10/37] fix: Header::setPayloadSize writes one byte past the
 length field

---
 include/http/WebSocket.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 3af01e4..f2a2154 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -99,7 +99,7 @@ struct Header {
     void setPayloadSize(size_t size) {
         raw[1] = (raw[1] & std::byte(0b10000000)) | std::byte(size < 126 ? size : size < 65536 ? 126 : 127);
         size_t len = size < 126 ? 0 : size < 65536 ? 2 : 8;
-        for (size_t i = 0; i <= len; ++i) raw[2 + i] = std::byte(size >> (8 * (len - i - 1)));
+        for (size_t i = 0; i < len; ++i) raw[2 + i] = std::byte(size >> (8 * (len - i - 1)));
     }
 
 protected:
-- 
2.43.0


From 426b222e6ea938dbb5aaed933237c383e5546cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 11/37] fix: the first buffer of a frame which was moved or
 grown does not match its header

---
 include/http/WebSocket.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index f2a2154..927e0f7 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -137,7 +137,11 @@ struct Frame : public Header {
 
     [[nodiscard]] size_t size() const { return payloadSize(); };
 
-    std::vector<typename Net::ConstBuffer> toBuffers() const { return buffers; }
+    std::vector<typename Net::ConstBuffer> toBuffers() const {
+        auto frameBuffers = buffers;
+        frameBuffers.front() = typename Net::ConstBuffer(raw.data(), headerSize());
+        return frameBuffers;
+    }
 
     /// @return size of added buffer
     size_t addBuffer(std::span<const std::byte> buffer) {
-- 
2.43.0


From bbffd6c794466507e8f911e9bbe52790c50b31eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 12/37] fix: FrameDecoder reads beyond the received data, loses
 bytes that follow a frame and mishandles short, unmasked or chunked frames

---
 include/http/WebSocket.hpp | 45 +++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 27 deletions(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 927e0f7..a85dbbf 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -81,7 +81,7 @@ struct Header {
     /// @return true if first 'size' bytes constitute a complete header
     [[nodiscard]] bool isComplete(size_t size) const {
         if (size < 2) return false;
-        return std::to_integer<uint8_t>(raw[1] & std::byte(0b1111111)) < 126 ? size >= 6 : size >= 14;
+        return size >= headerSize();
     }
 
     void setFIN(bool set) {
@@ -174,7 +174,6 @@ public:
             headerSize = reinterpret_cast<const Header*>(input)->headerSize();
             mask = reinterpret_cast<const Header*>(input)->maskingKey();
             frameType = reinterpret_cast<const Header*>(input)->opcode();
-            payloadBuffer.reserve(payloadSize);
         };
         auto bufferizeHeaderData = [&](std::span<const std::byte> input) -> size_t {
             for (size_t index = 0; index < input.size(); ++index) {
@@ -184,48 +183,40 @@ public:
             return input.size();
         };
 
+        consumedBytes = 0;
         switch (state) {
-        case DecodingState::starting:
-            if (reinterpret_cast<const Header*>(buffer.data())->isComplete(buffer.size())) {
-                reinterpret_cast<const Header*>(buffer.data())->dump();
-                decodeHeader(buffer.data());
-                if (decodePayload(buffer.subspan(headerSize, std::min(buffer.size() - headerSize, payloadSize))) == payloadSize) return true;
-                state = DecodingState::decodingPayload;
-            }
-            else {
-                bufferizeHeaderData(buffer);
-                state = DecodingState::partialHeader;
-            }
-            break;
-        case DecodingState::partialHeader: {
-            auto consumedData = bufferizeHeaderData(buffer);
-            if (headerBuffer.isComplete(headerBufferParser)) {
-                decodeHeader(headerBuffer.raw.data());
-                if (decodePayload(buffer.subspan(consumedData, std::min(buffer.size() - consumedData, payloadSize))) == payloadSize) return true;
-                state = DecodingState::decodingPayload;
-            }
-        } break;
+        case DecodingState::partialHeader:
+            consumedBytes = bufferizeHeaderData(buffer);
+            if (!headerBuffer.isComplete(headerBufferParser)) return false;
+            headerBuffer.dump();
+            decodeHeader(headerBuffer.raw.data());
+            state = DecodingState::decodingPayload;
+            [[fallthrough]];
         case DecodingState::decodingPayload: {
-            decodePayload(buffer.first(std::min(payloadSize - payloadBuffer.size(), buffer.size())));
-            return (buffer.size() >= (payloadSize - payloadBuffer.size()));
+            auto encoded = buffer.subspan(consumedBytes, std::min(payloadSize - payloadBuffer.size(), buffer.size() - consumedBytes));
+            consumedBytes += encoded.size();
+            return decodePayload(encoded) == payloadSize;
         }
         }
         return false;
     }
 
+    // @return number of bytes of the last parsed buffer which belong to the frame
+    size_t consumed() const { return consumedBytes; }
+
     void reset() {
         maskIndex = 0;
         headerBufferParser = 0;
         payloadBuffer.clear();
-        state = DecodingState::starting;
+        state = DecodingState::partialHeader;
     }
 
 private:
-    enum class DecodingState { starting, partialHeader, decodingPayload } state;
+    enum class DecodingState { partialHeader, decodingPayload } state;
     std::vector<std::byte> payloadBuffer;
     Header headerBuffer;
     size_t headerBufferParser;
-    size_t payloadSize, headerSize;
+    size_t payloadSize{}, headerSize{}, consumedBytes{};
     std::array<std::byte, 4> mask;
     uint8_t maskIndex;
 };
-- 
2.43.0


From 55bc4f3aa8a8494162a1e76bc10ddde8f0d56948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 13/37] fix: frames received in the same network read after a
 first one are dropped

---
 include/http/WebSocket.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index a85dbbf..d9a589b 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -267,7 +267,9 @@ private:
     void read() {
         socket.async_read_some(Net::Buffer(readBuffer), [this](std::error_code ec, std::size_t bytesTransferred) {
             if (!ec) {
-                if (decoder.parse(std::span(readBuffer.data(), bytesTransferred))) {
+                std::span<const std::byte> received(readBuffer.data(), bytesTransferred);
+                while (started && !received.empty() && decoder.parse(received)) {
+                    received = received.subspan(decoder.consumed());
                     auto data = decoder.payload();
                     switch (decoder.frameType) {
                     case Header::Opcode::text:
@@ -284,7 +286,7 @@ private:
                     };
                     decoder.reset();
                 }
-                read();
+                if (started) read();
             }
             else {
                 log::error("Error in websocket::read() : {}:{}", ec.value(), ec.message());
-- 
2.43.0


From 628622d4b941159f111f255a23e29114876309f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 14/37] fix: WebSocket started twice has two concurrent reads
 on the same buffer

---
 include/http/WebSocket.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index d9a589b..053e570 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -238,6 +238,7 @@ public:
     ~WebSocket() { log::debug("WebSocket destructor"); }
 
     void start() {
+        if (started) return;
         started = true;
         read();
     }
-- 
2.43.0


From 17f38658ce336c8f13872622f6c3a7019f690fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 15/37] fix: bytes of a frame being written are released before
 the asynchronous write completes

---
 include/http/WebSocket.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 053e570..2d0dea9 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -298,7 +298,13 @@ private:
     }
 
     void writeData(Frame<Net> frame) {
-        Net::AsyncWrite(socket, frame.toBuffers(), [this](std::error_code ec, std::size_t /*bytesTransferred*/) {
+        auto bytes = std::make_shared<std::vector<std::byte>>(); // keeps the data alive until write completion
+        for (auto& buffer : frame.toBuffers()) {
+            auto data = static_cast<const std::byte*>(buffer.data());
+            bytes->insert(bytes->end(), data, data + buffer.size());
+        }
+        Net::AsyncWrite(socket, std::vector<typename Net::ConstBuffer>{{bytes->data(), bytes->size()}},
+                        [this, bytes](std::error_code ec, std::size_t /*bytesTransferred*/) {
             if (ec) {
                 if (started) {
                     log::error("Error during write : ec.value() = {}", ec.value());
-- 
2.43.0


From 2802242173aea2d960d3a2940ca08ca226adec49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 16/37] fix: messages whose announced payload is not entirely
 received are accepted

---
 include/weblink/Messages.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 16453d6..198db9a 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -104,7 +104,7 @@ public:
     static const T* castFromRawData(std::span<const std::byte> data) {
         if (data.size() < sizeof(typename T::Header)) throw std::runtime_error("Not enough data to form a message Header");
         auto message = reinterpret_cast<const T*>(data.data());
-        if ((data.size() + message->getPayloadSize()) < sizeof(typename T::Header))
+        if (data.size() < sizeof(typename T::Header) + message->getPayloadSize())
             throw std::runtime_error("Not enough data to form a complete message");
         return message;
     }
-- 
2.43.0


From 029d712f4e60fa64193aafb8fa0954c2b7cd6fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 17/37] fix: decodeParameter reads the size of a parameter
 beyond the received data

---
 include/weblink/Messages.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 198db9a..86083ac 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -292,7 +292,7 @@ public:
         switch (codedType) {
         case CodedType::smallString:
             if constexpr (is_same_v<T, string>) {
-                if (data.size() < 1u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
+                if (data.size() < 2u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
                 auto size = static_cast<size_t>(data[1]);
                 if (data.size() < 2u + size) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
                 param = string(reinterpret_cast<const char*>(&data[2]), size);
@@ -302,7 +302,7 @@ public:
         case CodedType::string:
         case CodedType::exception:
             if constexpr (is_same_v<T, string>) {
-                if (data.size() < 1u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
+                if (data.size() < 3u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
                 uint16_t size;
                 copy_n(&data[1], 2, reinterpret_cast<byte*>(&size));
                 if (data.size() < 3u + size) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
@@ -322,6 +322,7 @@ public:
             break;
         case CodedType::tuple:
             if constexpr (is_tuple_v<T>) {
+                if (data.size() < 2u) throw runtime_error("Erroneous 'tuple' data feeded to msg::FunctionCall::decodeParameter");
                 auto tupleSize = static_cast<size_t>(data[1]);
                 if (tuple_size_v<T> != tupleSize)
                     throw runtime_error("Parameter is a "s + to_string(tuple_size_v<T>) +
-- 
2.43.0


From ce1a097f4fef4ae482414fe1a3fa10be4234fc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 18/37] fix: encoded booleans are never decoded

---
 include/weblink/Messages.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 86083ac..536ee25 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -290,6 +290,13 @@ public:
         if (data.size() == 0) throw runtime_error("Not enough data for msg::FunctionCall::decodeParameter");
         auto codedType = static_cast<CodedType>(data[0]);
         switch (codedType) {
+        case CodedType::booleanTrue:
+        case CodedType::booleanFalse:
+            if constexpr (is_arithmetic_v<T>) {
+                param = static_cast<T>(codedType == CodedType::booleanTrue);
+                data = data.subspan(1);
+            }
+            break;
         case CodedType::smallString:
             if constexpr (is_same_v<T, string>) {
                 if (data.size() < 2u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
-- 
2.43.0


From 1df5b61ee2207075c133f3ae870f9c7b84d333b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 19/37] fix: a parameter which has not the expected type is
 silently left undecoded

---
 include/weblink/Messages.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 536ee25..3620a9b 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -296,6 +296,8 @@ public:
                 param = static_cast<T>(codedType == CodedType::booleanTrue);
                 data = data.subspan(1);
             }
+            else
+                throw runtime_error("Wrong parameter type : boolean unexpected");
             break;
         case CodedType::smallString:
             if constexpr (is_same_v<T, string>) {
@@ -305,6 +307,8 @@ public:
                 param = string(reinterpret_cast<const char*>(&data[2]), size);
                 data = data.subspan(2 + size);
             }
+            else
+                throw runtime_error("Wrong parameter type : string unexpected");
             break;
         case CodedType::string:
         case CodedType::exception:
@@ -316,6 +320,8 @@ public:
                 param = string(reinterpret_cast<const char*>(&data[3]), size);
                 data = data.subspan(3 + size);
             }
+            else
+                throw runtime_error("Wrong parameter type : string unexpected");
             break;
         case CodedType::number:
             if constexpr (is_arithmetic_v<T>) {
@@ -326,6 +332,8 @@ public:
                 param = static_cast<T>(value);
                 data = data.subspan(1 + sizeof(value));
             }
+            else
+                throw runtime_error("Wrong parameter type : number unexpected");
             break;
         case CodedType::tuple:
             if constexpr (is_tuple_v<T>) {
@@ -342,7 +350,11 @@ public:
                 throw runtime_error("Wrong parameter type : std::tuple expected");
             break;
 
-        default: param = {};
+        case CodedType::undefined:
+            param = {};
+            data = data.subspan(1);
+            break;
+        default: throw runtime_error("Wrong parameter type");
         }
     }
 };
-- 
2.43.0


From 3a983042f47544c566447595cd4bf2a96cac7e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 20/37] fix: conversion of a number which does not fit the
 integral parameter is undefined

---
 include/weblink/Messages.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 3620a9b..74abd04 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -6,6 +6,7 @@
 #include <array>
 #include <bit>
 #include <cstddef>
+#include <limits>
 #include <span>
 #include <stdexcept>
 #include <string>
@@ -329,6 +330,9 @@ public:
                 if (data.size() < 1u + sizeof(value))
                     throw runtime_error("Erroneous 'number' data feeded to msg::FunctionCall::decodeParameter");
                 copy_n(&data[1], sizeof(value), reinterpret_cast<byte*>(&value));
+                if constexpr (is_integral_v<T> and not is_same_v<T, bool>)
+                    if (!(value > static_cast<double>(numeric_limits<T>::lowest()) - 1. && value < 2. * static_cast<double>(numeric_limits<T>::max() / 2 + 1)))
+                        throw runtime_error("Number out of the range of the parameter type");
                 param = static_cast<T>(value);
                 data = data.subspan(1 + sizeof(value));
             }
-- 
2.43.0


From 461449790eac1d83e81481e5c4f1c0bb19ccb125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 21/37] fix: FunctionReturn messages are sent with the
 callFunction command

---
 include/weblink/Messages.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 74abd04..e07ad8f 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -186,7 +186,11 @@ class FunctionCall : public MessageBase<FunctionCall> {
         return tName;
     }
 
+protected:
+    explicit FunctionCall(Command command) : head{.command = command} {}
+
 public:
+    FunctionCall() = default;
     void setParametersCount(uint8_t parametersCount) { head.parametersCount = parametersCount; }
     void setPayloadSize(uint32_t size) { head.parametersDataSize = size; }
     [[nodiscard]] uint8_t getParametersCount() const { return head.parametersCount; }
@@ -365,14 +369,8 @@ public:
 
 /// Encodes FunctionCall return values (or exceptions)
 class FunctionReturn : public FunctionCall {
-    struct Header {
-        Command command = Command::functionReturn;
-        uint8_t parametersCount = 0;
-        std::array<uint8_t, 2> padding{};
-        uint32_t parametersDataSize = 0;
-    } head;
-    static_assert(sizeof(Header) == 8, "FunctionReturn header has to be 8 bytes long");
-    friend class MessageBase<FunctionReturn>;
+public:
+    FunctionReturn() : FunctionCall(Command::functionReturn) {}
 };
 
 } // namespace webfront::msg
-- 
2.43.0


From 4efc8ea2ae4e49489870df857899bb2689494639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 22/37] fix: successive calls of a JsFunction overflow its
 buffer and announce the payload sizes of all the previous calls

---
 include/JsFunction.hpp       | 2 +-
 include/weblink/Messages.hpp | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/JsFunction.hpp b/include/JsFunction.hpp
index 5eb62f8..3dd3b01 100644
--- a/include/JsFunction.hpp
+++ b/include/JsFunction.hpp
@@ -21,7 +21,7 @@ public:
         : name(functionName), webFront(wf), webLinkId(linkId) {}
 
     void operator()(auto&&... ts) {
-        command.setParametersCount(0);
+        command.resetParameters();
         websocket::Frame<typename WebFront::Net> frame{std::span(reinterpret_cast<const std::byte*>(command.header().data()), command.header().size())};
         command.encodeParameter(name, frame);
         (((command.encodeParameter(std::forward<decltype(ts)>(ts), frame))), ...);
diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index e07ad8f..72a10d6 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -192,6 +192,11 @@ protected:
 public:
     FunctionCall() = default;
     void setParametersCount(uint8_t parametersCount) { head.parametersCount = parametersCount; }
+    void resetParameters() {
+        setParametersCount(0);
+        setPayloadSize(0);
+        encodeBufferIndex = 0;
+    }
     void setPayloadSize(uint32_t size) { head.parametersDataSize = size; }
     [[nodiscard]] uint8_t getParametersCount() const { return head.parametersCount; }
     [[nodiscard]] size_t getPayloadSize() const { return head.parametersDataSize; }
-- 
2.43.0


From d33c87201910e9d61ab7119f5e7fd7cbecf35c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 23/37] fix: a call with more parameters than its buffer can
 hold overflows it

---
 include/weblink/Messages.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 72a10d6..6ef77e1 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -214,7 +214,8 @@ public:
     void encodeParameter(T&& t, WebSocketFrame& frame) {
         using namespace std;
         using ParamType = remove_cvref_t<T>;
-        setParametersCount(getParametersCount() + 1);
+        if (encodeBufferIndex + 1 + sizeof(double) > buffer.size() || getParametersCount() == 255) throw length_error("Too many parameters");
+        setParametersCount(static_cast<uint8_t>(getParametersCount() + 1));
 
         if constexpr (is_printable<T>::value) {
             std::cout << "Param: " << typeName<T>() << " -> " << typeName<ParamType>() << " : " << t << "\n";
-- 
2.43.0


From f1c12ea984b8dfa847524132e7242e1643ade839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 24/37] fix: empty or malformed messages read out of bounds or
 throw through the network loop

---
 include/weblink/WebLink.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/weblink/WebLink.hpp b/include/weblink/WebLink.hpp
index fb4f54d..38420ea 100644
--- a/include/weblink/WebLink.hpp
+++ b/include/weblink/WebLink.hpp
@@ -47,7 +47,8 @@ public:
         ws.onMessage([this](std::span<const std::byte> data) {
             log::infoHex("onMessage(binary) :", data);
 
-            switch (static_cast<msg::Command>(data[0])) {
+            if (data.empty()) return;
+            try { switch (static_cast<msg::Command>(data[0])) {
             case msg::Command::handshake: {
                 auto command = msg::Handshake::castFromRawData(data);
                 sendCommand(msg::Ack{});
@@ -80,6 +81,9 @@ public:
             } break;
 
             default: break;
+            } }
+            catch (const std::exception& e) {
+                log::error("message ignored : {}", e.what());
             }
         });
 
-- 
2.43.0


From ad2e13f63937f3799e33892d646b846bfcf1bae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 25/37] fix: a second handshake on a link leaves a log sink
 which outlives it

---
 include/weblink/WebLink.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/weblink/WebLink.hpp b/include/weblink/WebLink.hpp
index 38420ea..400333a 100644
--- a/include/weblink/WebLink.hpp
+++ b/include/weblink/WebLink.hpp
@@ -52,6 +52,7 @@ public:
             case msg::Command::handshake: {
                 auto command = msg::Handshake::castFromRawData(data);
                 sendCommand(msg::Ack{});
+                if (logSink) log::removeSinks(logSink.value());
                 logSink =
                   log::addSinks([this](std::string_view t) { sendCommand(msg::TextCommand(msg::TxtOpcode::debugLog, t)); });
                 sameEndian = (std::endian::native == std::endian::little &&
-- 
2.43.0


From f72595027b1e8366229c5c1c60798dc28f347dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 26/37] fix: embedded file reads start with an indeterminate
 word when the previous read stopped inside it

---
 include/system/FileSystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/system/FileSystem.hpp b/include/system/FileSystem.hpp
index ea7fed2..143307d 100644
--- a/include/system/FileSystem.hpp
+++ b/include/system/FileSystem.hpp
@@ -73,7 +73,7 @@ private:
         for (size_t index = 0; (index < buffer.size()); ++index) {
             if (eof()) return index;
 
-            if (readIndex % bytesPerInt == 0) chunk = convert(data[readIndex / bytesPerInt]);
+            if (index == 0 || readIndex % bytesPerInt == 0) chunk = convert(data[readIndex / bytesPerInt]);
 
             buffer[index] = static_cast<char>(chunk.byte[readIndex % bytesPerInt]);
             readIndex++;
-- 
2.43.0


From 746de347d5fe3eeb861048e2e49f5c8342b22a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 27/37] fix: HexDump leaves its fill character on the stream
 and writes DEL as is

---
 include/tooling/HexDump.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/tooling/HexDump.hpp b/include/tooling/HexDump.hpp
index b673417..635953b 100644
--- a/include/tooling/HexDump.hpp
+++ b/include/tooling/HexDump.hpp
@@ -37,6 +37,7 @@ std::ostream& operator<<(std::ostream& os, const HexDump<Container>& h) {
     const auto buffer =
       span(reinterpret_cast<const uint8_t*>(h.buffer.data()), h.buffer.size() * sizeof(typename pointer_traits<decltype(h.buffer.data())>::element_type));
     auto iosFlags{os.flags()};
+    auto fillChar = os.fill();
     os << hex << setfill('0');
     while (address < buffer.size()) {
         os << setw(8) << address + h.startAddress;
@@ -50,11 +51,12 @@ std::ostream& operator<<(std::ostream& os, const HexDump<Container>& h) {
         }
         os << ' ';
         for (auto index = address; index < address + 16; ++index)
-            if (index < buffer.size()) os << (static_cast<char>(buffer[index]) < 32 ? '.' : index < buffer.size() ? static_cast<char>(buffer[index]) : '.');
+            if (index < buffer.size()) os << (static_cast<char>(buffer[index]) < 32 || buffer[index] == 127 ? '.' : index < buffer.size() ? static_cast<char>(buffer[index]) : '.');
         address += 16;
         if (address < buffer.size()) os << '\n';
     }
     os.flags(iosFlags);
+    os.fill(fillChar);
 
     return os;
 }
-- 
2.43.0


From 54bb0dc5678d6d7befad2bff4f783fee38f0ba6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 28/37] fix: making a buffer from an empty string calls front()
 on it

---
 include/networking/BasicNetworking.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/networking/BasicNetworking.hpp b/include/networking/BasicNetworking.hpp
index 6edd8f4..e2d140b 100644
--- a/include/networking/BasicNetworking.hpp
+++ b/include/networking/BasicNetworking.hpp
@@ -101,12 +101,12 @@ public:
 
     template<typename CharT, typename Traits, typename Alloc>
     static MutableBuffer Buffer(std::basic_string<CharT, Traits, Alloc>& d) noexcept {
-        return ToMutableBuffer(&d.front(), d.size());
+        return ToMutableBuffer(d.data(), d.size());
     }
 
     template<typename CharT, typename Traits, typename Alloc>
     static ConstBuffer Buffer(const std::basic_string<CharT, Traits, Alloc>& d) noexcept {
-        return ToConstBuffer(&d.front(), d.size());
+        return ToConstBuffer(d.data(), d.size());
     }
 
     template<typename CharT, typename Traits>
-- 
2.43.0


From 4875aad80e2d6ca61698bacb04bfdc0c18825375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 29/37] fix: functions registered with cppFunction are
 referenced after their lifetime

---
 include/WebFront.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/WebFront.hpp b/include/WebFront.hpp
index e63f5b5..75762ec 100644
--- a/include/WebFront.hpp
+++ b/include/WebFront.hpp
@@ -90,7 +90,7 @@ public:
      */
     template<typename R, typename... Args>
     void cppFunction(std::string functionName, auto&& function) {
-        cppFunctions.try_emplace(functionName, [&function](std::span<const std::byte> data) -> void {
+        cppFunctions.try_emplace(functionName, [function = std::forward<decltype(function)>(function)](std::span<const std::byte> data) mutable -> void {
             std::tuple<Args...> parameters;
             auto deserializeAndCall = [&]<std::size_t... Is>(std::tuple<Args...> & tuple, std::index_sequence<Is...>) {
                 (msg::FunctionCall::decodeParameter(std::get<Is>(tuple), data), ...);
-- 
2.43.0


From aa2c2e462af7066f97e4b783f8497123a8f0f78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:41 +0000
Subject: [PATCH 30/37] fix: decoding an empty string at the end of a message
 does not index past the data

---
 include/weblink/Messages.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 6ef77e1..87d02ba 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -315,7 +315,7 @@ public:
                 if (data.size() < 2u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
                 auto size = static_cast<size_t>(data[1]);
                 if (data.size() < 2u + size) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
-                param = string(reinterpret_cast<const char*>(&data[2]), size);
+                param = string(reinterpret_cast<const char*>(data.data() + 2), size);
                 data = data.subspan(2 + size);
             }
             else
@@ -328,7 +328,7 @@ public:
                 uint16_t size;
                 copy_n(&data[1], 2, reinterpret_cast<byte*>(&size));
                 if (data.size() < 3u + size) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
-                param = string(reinterpret_cast<const char*>(&data[3]), size);
+                param = string(reinterpret_cast<const char*>(data.data() + 3), size);
                 data = data.subspan(3 + size);
             }
             else
-- 
2.43.0


From 7bbc580602463781cfd1df04414445d56e29d5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:41 +0000
Subject: [PATCH 31/37] fix: the lowest 64-bit integer is a valid number
 parameter

---
 include/weblink/Messages.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 87d02ba..fa4d7ff 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -341,7 +341,7 @@ public:
                     throw runtime_error("Erroneous 'number' data feeded to msg::FunctionCall::decodeParameter");
                 copy_n(&data[1], sizeof(value), reinterpret_cast<byte*>(&value));
                 if constexpr (is_integral_v<T> and not is_same_v<T, bool>)
-                    if (!(value > static_cast<double>(numeric_limits<T>::lowest()) - 1. && value < 2. * static_cast<double>(numeric_limits<T>::max() / 2 + 1)))
+                    if (!((value > static_cast<double>(numeric_limits<T>::lowest()) - 1. || value == static_cast<double>(numeric_limits<T>::lowest())) && value < 2. * static_cast<double>(numeric_limits<T>::max() / 2 + 1)))
                         throw runtime_error("Number out of the range of the parameter type");
                 param = static_cast<T>(value);
                 data = data.subspan(1 + sizeof(value));
-- 
2.43.0


From dd34400f34192e1060eaf3b3f49604279d36ac3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:25 +0000
Subject: [PATCH 32/37] fix: a directory named without a trailing slash is
 served as an empty file

---
 include/system/NativeFS.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/system/NativeFS.hpp b/include/system/NativeFS.hpp
index 334a21d..fb5c7b0 100644
--- a/include/system/NativeFS.hpp
+++ b/include/system/NativeFS.hpp
@@ -13,6 +13,8 @@ namespace detail {
 class NativeRawFS {
 public:
     std::optional<File> open(std::filesystem::path path) {
+        std::error_code ec;
+        if (std::filesystem::is_directory(rootPath / path, ec)) return {};
         std::ifstream file;
         file.open(rootPath / path, std::ios::binary);
         if (file.is_open()) return File{std::move(file)};
-- 
2.43.0


From eb4e03cfda54a1df9e916f99b0a63d2a45708108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:59 +0000
Subject: [PATCH 33/37] fix: a hexadecimal dump does not depend on the
 alignment and base flags of its stream

---
 include/tooling/HexDump.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tooling/HexDump.hpp b/include/tooling/HexDump.hpp
index 635953b..c47fff5 100644
--- a/include/tooling/HexDump.hpp
+++ b/include/tooling/HexDump.hpp
@@ -38,7 +38,7 @@ std::ostream& operator<<(std::ostream& os, const HexDump<Container>& h) {
       span(reinterpret_cast<const uint8_t*>(h.buffer.data()), h.buffer.size() * sizeof(typename pointer_traits<decltype(h.buffer.data())>::element_type));
     auto iosFlags{os.flags()};
     auto fillChar = os.fill();
-    os << hex << setfill('0');
+    os << hex << right << noshowbase << setfill('0');
     while (address < buffer.size()) {
         os << setw(8) << address + h.startAddress;
         for (auto index = address; index < address + 16; ++index) {
-- 
2.43.0


From ae7582c2e7387b5117b8aa0fe8a36be036250bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:32 +0000
Subject: [PATCH 34/37] fix: dumping two buffers of wide elements loses the
 high bytes of each

---
 include/tooling/HexDump.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/tooling/HexDump.hpp b/include/tooling/HexDump.hpp
index c47fff5..52cdd5c 100644
--- a/include/tooling/HexDump.hpp
+++ b/include/tooling/HexDump.hpp
@@ -81,10 +81,12 @@ std::ostream& operator<<(std::ostream& os, const HexDump<Container>& h) {
 ///
 /// @return  a multi-lines string with the dumped data
 [[nodiscard]] static std::string hexDump(const Buffer auto& buffer1, const Buffer auto& buffer2) {
-    std::vector<uint8_t> buffer;
-    buffer.resize(buffer1.size() + buffer2.size());
-    std::copy_n(buffer1.data(), buffer1.size(), buffer.data());
-    std::copy_n(buffer2.data(), buffer2.size(), buffer.data() + buffer1.size());
+    const auto bytes1 = std::as_bytes(std::span(buffer1.data(), buffer1.size()));
+    const auto bytes2 = std::as_bytes(std::span(buffer2.data(), buffer2.size()));
+    std::vector<std::byte> buffer;
+    buffer.resize(bytes1.size() + bytes2.size());
+    std::copy_n(bytes1.data(), bytes1.size(), buffer.data());
+    std::copy_n(bytes2.data(), bytes2.size(), buffer.data() + bytes1.size());
 
     std::stringstream ss;
     ss << HexDump<decltype(buffer)>(buffer);
-- 
2.43.0


From 6bb009a2e304d1330e25e6ef21cf635af1fe7328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 35/37] fix: operator() of a type-erased function loses bound
 arguments that were moved

---
 include/utils/TypeErasedFunction.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/TypeErasedFunction.hpp b/include/utils/TypeErasedFunction.hpp
index 0b223e6..94cfd4e 100644
--- a/include/utils/TypeErasedFunction.hpp
+++ b/include/utils/TypeErasedFunction.hpp
@@ -132,7 +132,7 @@ public:
 
     template<typename T, typename... Args>
     TypeErasedFunction(T&& t, Args&&... args)
-        : function(new FunctionPointer<typename function_traits<T>::type>(std::bind(std::forward<T>(t), std::forward<Args>(args)...))),
+        : function(new FunctionPointer<typename function_traits<T>::type>(std::bind(t, args...))),
           voidFunction(new FunctionPointer<typename function_traits<T>::void_type>(std::bind(std::forward<T>(t), std::forward<Args>(args)...))) {
         std::cout << "TypeErasedFunction constructor(";
         ((std::cout << TypeName(args)), ...);
-- 
2.43.0


From 56079c381664a628750268f11c06895504da5980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 36/37] fix: the fields of a copied URI refer to the original's
 text

---
 include/http/Encodings.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/http/Encodings.hpp b/include/http/Encodings.hpp
index b1abc23..6d1d19d 100644
--- a/include/http/Encodings.hpp
+++ b/include/http/Encodings.hpp
@@ -71,6 +71,7 @@ struct URI {
         path(before(view().substr(hasAuthority() ? schemeEnd() + 3 + authority.size() : 0), "?#")), query(after(before(view(), "#"), "?")),
         fragment(after(view(), "#")), userinfo(authority.find('@') == npos ? std::string_view{} : before(authority, "@")),
         host(hostPort().substr(0, hostSize())), port(after(hostPort().substr(hostSize()), ":")) {}
+    URI(const URI& other) : URI(other.string) {}
 
     const std::string string;
     const std::string_view scheme, authority, path, query, fragment, userinfo, host, port;
-- 
2.43.0


From f95551a81498e9bf44f52789acc964afe7519ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:26 +0000
Subject: [PATCH 37/37] fix: release an upgraded connection and do not upgrade
 after a failed 101 write

---
 include/http/HTTPServer.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 7f4b7e0..2680f6b 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -407,14 +407,12 @@ private:
     void write() {
         auto self(this->shared_from_this());
         Net::AsyncWrite(socket, response.toBuffers<Net>(), [this, self](std::error_code ec, std::size_t /*bytesTransferred*/) {
-            if (protocol == Protocol::HTTPUpgrading) {
+            if (!ec && protocol == Protocol::HTTPUpgrading) {
                 protocol = Protocol::WebSocket;
                 if (onUpgrade) onUpgrade(std::move(socket), protocol);
             }
-            else {
-                if (!ec) socket.shutdown(Net::Socket::shutdown_both);
-                if (ec != Net::Error::OperationAborted) connections.stop(self);
-            }
+            else if (!ec) socket.shutdown(Net::Socket::shutdown_both);
+            if (ec != Net::Error::OperationAborted) connections.stop(self);
         });
     }
 };
-- 
2.43.0

