From 2a43b13a0891b98a61641898ac293c6af9e447c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:10 +0000
Subject: [PATCH 001/112] fix: URI::port() terminated the process for
 non-numeric ports and truncated ports above 65535

---
 src/core/include/URI.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index 214f559..893e6e6 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -2,6 +2,7 @@
 #define OPENCMW_CPP_URI_HPP
 #include <algorithm>
 #include <cassert>
+#include <charconv>
 #include <iomanip>
 #include <ios>
 #include <optional>
@@ -185,7 +186,7 @@ public:
     inline std::optional<std::string> user() const noexcept { parseAuthority(); return returnOpt(_userName); }
     inline std::optional<std::string> password() const noexcept { parseAuthority(); return returnOpt(_pwd); }
     inline std::optional<std::string> hostName() const noexcept { parseAuthority(); return returnOpt(_hostName); }
-    inline std::optional<uint16_t> port() const noexcept { parseAuthority(); return _port.empty() ? std::nullopt : std::optional(std::stoi(std::string{ _port.begin(), _port.end() }));}
+    inline std::optional<uint16_t> port() const noexcept { parseAuthority(); return parsePort(_port); }
     inline std::optional<std::string> path() const noexcept { return returnOpt(_path); }
     inline std::optional<std::string> queryParam() const noexcept { return returnOpt(_query); }
     inline std::optional<std::string> fragment() const noexcept { return returnOpt(_fragment); }
@@ -284,7 +285,7 @@ public:
             if (!uri._userName.empty())  { _userName = uri._userName; }
             if (!uri._pwd.empty())       { _pwd = uri._pwd; }
             if (!uri._hostName.empty())  { _host = uri._hostName; }
-            if (!uri._port.empty())      { _port = std::stoi(std::string(uri._port)); }
+            if (!uri._port.empty())      { _port = parsePort(uri._port); }
             if (!uri._path.empty())      { _path = uri._path; }
             if (!uri._query.empty())     { _query = uri._query; }
             if (!uri._fragment.empty())  { _fragment = uri._fragment; }
@@ -350,6 +351,12 @@ private:
         return src.empty() ? std::nullopt : std::optional<std::string>(src);
     };
 
+    static inline std::optional<uint16_t> parsePort(const std::string_view &text) noexcept { // 'nullopt' if there is no valid port number
+        uint16_t   port      = 0;
+        const auto [end, ec] = std::from_chars(text.data(), text.data() + text.size(), port);
+        return text.empty() || ec != std::errc() || end != text.data() + text.size() ? std::nullopt : std::optional<uint16_t>(port);
+    }
+
     inline void parseURI() {
         std::string_view source(_str.c_str(), _str.size());
         if constexpr (check == STRICT) {
-- 
2.43.0


From 7e86ac312afdfa94ffa5fef13780f7b546839818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:10 +0000
Subject: [PATCH 002/112] fix: URI host name and port of bracketed IPv6
 literals were split at the first colon

---
 src/core/include/URI.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index 893e6e6..a4921a9 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -466,7 +466,9 @@ private:
         } else {
             userSplit = 0;
         }
-        size_t portSplit = std::min(_authority.find_first_of(':', userSplit), _authority.length());
+        // N.B. the ':' inside a bracketed IPv6 literal, e.g. '[::1]:8080', do not separate the port
+        const size_t hostEnd   = _authority.substr(userSplit).starts_with('[') ? std::min(_authority.find_first_of(']', userSplit), _authority.length()) : userSplit;
+        size_t       portSplit = std::min(_authority.find_first_of(':', hostEnd), _authority.length());
         if (portSplit != std::string_view::npos && portSplit < _authority.length()) {
             // port defined
             _hostName = _authority.substr(userSplit, portSplit - userSplit);
-- 
2.43.0


From 46c204fd8503d27550422b95dbeb7b71815ccc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:10 +0000
Subject: [PATCH 003/112] fix: URI::decode read past the end of, and accepted,
 malformed percent escapes

---
 src/core/include/URI.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index a4921a9..f0c854d 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -163,10 +163,13 @@ public:
             char c = s[i];
             if (c == '%') {
                 // percent-encode RFC 3986 section 2.2 Reserved Characters i.e. [!#$%&'()*+,/:;=?@[]]
-                if constexpr (check == STRICT) {
-                    if (!std::isxdigit(s[i + 1])) {
-                        throw URISyntaxException(std::format("additional erroneous character '{}' found after '%' at {} of '{}'", s[i + 1], i + 1, s));
+                const auto isHexDigit = [&s](size_t pos) { return pos < s.size() && std::isxdigit(static_cast<unsigned char>(s[pos])); };
+                if (!isHexDigit(i + 1) || !isHexDigit(i + 2)) {
+                    if constexpr (check == STRICT) {
+                        throw URISyntaxException(std::format("additional erroneous character found after '%' at {} of '{}'", i + 1, s));
                     }
+                    decoded << c; // not an escape sequence
+                    continue;
                 }
                 int                d;
                 std::istringstream iss(std::string(s.substr(i + 1, 2))); // TODO find smarter conversion
-- 
2.43.0


From 59ee45bf09434d9d151a8f6f5f529f20de65861f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:10 +0000
Subject: [PATCH 004/112] fix: URI assignment kept user/password/host/port
 views into the released previous text

---
 src/core/include/URI.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index f0c854d..2d03f28 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -69,7 +69,7 @@ public:
         }
         _str              = other.str();
         auto adjustedView = [this, &other](std::string_view otherView) {
-            return std::string_view(_str.data() + std::distance(other.str().data(), otherView.data()), otherView.size());
+            return otherView.empty() ? std::string_view() : std::string_view(_str.data() + std::distance(other.str().data(), otherView.data()), otherView.size());
         };
         _scheme    = adjustedView(other._scheme);
         _authority = adjustedView(other._authority);
@@ -83,9 +83,6 @@ public:
         }
 
         _parsedAuthority = other._parsedAuthority;
-        if (!_parsedAuthority) {
-            return *this;
-        }
         _userName = adjustedView(other._userName);
         _pwd      = adjustedView(other._pwd);
         _hostName = adjustedView(other._hostName);
@@ -116,7 +113,7 @@ public:
         // small strings are copied, then adjust views
         if (_str.data() != oldBegin) {
             auto adjustView = [this, oldBegin](std::string_view &view) {
-                view = std::string_view(_str.data() + std::distance(oldBegin, view.data()), view.size());
+                view = view.empty() ? std::string_view() : std::string_view(_str.data() + std::distance(oldBegin, view.data()), view.size());
             };
 
             adjustView(_scheme);
-- 
2.43.0


From d9c8d7e1a2a21a286bc6347996a224772878f74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:10 +0000
Subject: [PATCH 005/112] fix: URI percent escapes of a trailing value-less
 query key were not decoded

---
 src/core/include/URI.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index 2d03f28..9f6aea1 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -243,7 +243,7 @@ public:
                 _queryMap[key]   = value.empty() ? std::nullopt : std::optional(value);
                 break;
             } else {
-                auto key       = std::string(_query.substr(readPos, _query.length() - readPos));
+                auto key       = decode(_query.substr(readPos, _query.length() - readPos));
                 _queryMap[key] = std::nullopt;
                 break;
             }
-- 
2.43.0


From 830ec3f7f27c161e0715d005b5de208d3d794d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:10 +0000
Subject: [PATCH 006/112] fix: URI query with a malformed parameter was
 rejected once and then accepted with its parameters partially missing

---
 src/core/include/URI.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index 9f6aea1..15e62a5 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -216,13 +216,14 @@ public:
                 throw URISyntaxException(std::format("URI query contains illegal characters: {}", _query));
             }
         }
-        size_t readPos = 0;
+        std::unordered_map<std::string, std::optional<std::string>> queryMap; // N.B. 'decode(..)' may throw
+        size_t                                                      readPos = 0;
         while (readPos < _query.length()) {
             auto keyEnd = _query.find_first_of("=;&\0", readPos);
             if (keyEnd != std::string_view::npos && keyEnd < _query.length()) {
                 auto key = decode(_query.substr(readPos, keyEnd - readPos));
                 if (_query[keyEnd] != '=') {
-                    _queryMap[key] = std::nullopt;
+                    queryMap[key] = std::nullopt;
                     readPos        = keyEnd + 1; //+1 for separator character
                     continue;
                 }
@@ -230,25 +231,26 @@ public:
                 // equal sign present
                 if (readPos >= _query.length()) {
                     // reached parameter string end
-                    _queryMap[key] = std::nullopt;
+                    queryMap[key] = std::nullopt;
                     break;
                 }
                 const auto valueEnd = _query.find_first_of(";&\0", readPos);
                 if (valueEnd != std::string_view::npos && valueEnd < _query.length()) {
-                    _queryMap[key] = std::optional(decode(_query.substr(readPos, valueEnd - readPos)));
+                    queryMap[key] = std::optional(decode(_query.substr(readPos, valueEnd - readPos)));
                     readPos        = valueEnd + 1;
                     continue;
                 }
                 const auto value = decode(_query.substr(readPos, _query.length() - readPos));
-                _queryMap[key]   = value.empty() ? std::nullopt : std::optional(value);
+                queryMap[key]   = value.empty() ? std::nullopt : std::optional(value);
                 break;
             } else {
                 auto key       = decode(_query.substr(readPos, _query.length() - readPos));
-                _queryMap[key] = std::nullopt;
+                queryMap[key] = std::nullopt;
                 break;
             }
         }
 
+        _queryMap = std::move(queryMap);
         return _queryMap;
     };
 
-- 
2.43.0


From 95261dd7c6457f6df95e8b995742f04d79224293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:10 +0000
Subject: [PATCH 007/112] fix: URI factory appended its query parameters again
 on every toString()/build()

---
 src/core/include/URI.hpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index 15e62a5..4611285 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -259,14 +259,14 @@ public:
     bool operator==(const URI &other) const noexcept { return _str == other.str(); }
 
     class UriFactory {
-        mutable std::string     _authority;
+        std::string             _authority;
         std::string             _scheme;
         std::string             _userName;
         std::string             _pwd;
         std::string             _host;
         std::optional<uint16_t> _port;
         std::string             _path;
-        mutable std::string     _query;
+        std::string             _query;
         std::string             _fragment;
         // local map to overwrite _query parameter if set
         std::unordered_map<std::string, std::optional<std::string>> _queryMap;
@@ -307,34 +307,35 @@ public:
         // clang-format on
 
         std::string toString() const {
-            if (_authority.empty()) {
+            std::string authority = _authority;
+            if (authority.empty()) {
                 const std::string optColon1 = (_pwd.empty() || _userName.empty()) ? "" : ":";
                 const std::string pwdPart   = _userName.empty() ? "" : _pwd;
                 const std::string atSign    = _userName.empty() ? "" : "@"; // after “user[:pwd]”
                 const std::string optColon2 = _port ? ":" : "";             // before port
                 const std::string portPart  = _port ? std::to_string(*_port) : "";
 
-                _authority                  = std::format("{}{}{}{}{}{}{}", _userName, optColon1, pwdPart, atSign, _host, optColon2, portPart);
+                authority                   = std::format("{}{}{}{}{}{}{}", _userName, optColon1, pwdPart, atSign, _host, optColon2, portPart);
             }
 
-            // TODO: Calling toString multiple times appends parameters over and over again
+            std::string query = _query;
             for (const auto &[key, value] : _queryMap) {
                 // RFC-3986: “key[=value]” pairs joined by ‘&’
-                const std::string ampersand  = _query.empty() ? "" : "&";
+                const std::string ampersand  = query.empty() ? "" : "&";
                 const std::string encodedKey = encode(key);
                 const std::string equalSign  = value ? "=" : "";
                 const std::string encodedVal = value ? encode(value.value()) : "";
 
-                _query += std::format("{}{}{}{}", ampersand, encodedKey, equalSign, encodedVal);
+                query += std::format("{}{}{}{}", ampersand, encodedKey, equalSign, encodedVal);
             }
 
             const std::string colon     = _scheme.empty() ? "" : ":";
-            const std::string authSlash = (_authority.empty() || _authority.starts_with("//")) ? "" : "//";
-            const std::string pathSlash = (_path.empty() || _path.starts_with('/') || _authority.empty()) ? "" : "/";
-            const std::string qMark     = (_query.empty() || _query.starts_with('?')) ? "" : "?";
+            const std::string authSlash = (authority.empty() || authority.starts_with("//")) ? "" : "//";
+            const std::string pathSlash = (_path.empty() || _path.starts_with('/') || authority.empty()) ? "" : "/";
+            const std::string qMark     = (query.empty() || query.starts_with('?')) ? "" : "?";
             const std::string hashMark  = (_fragment.empty() || _fragment.starts_with('#')) ? "" : "#";
 
-            return std::format("{}{}{}{}{}{}{}{}{}{}", _scheme, colon, authSlash, _authority, pathSlash, _path, qMark, _query, hashMark, encode(_fragment));
+            return std::format("{}{}{}{}{}{}{}{}{}{}", _scheme, colon, authSlash, authority, pathSlash, _path, qMark, query, hashMark, encode(_fragment));
         }
 
         URI build() {
-- 
2.43.0


From 8cd506c4b7054e93cd49ff8ff46b12557f27ba87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:10 +0000
Subject: [PATCH 008/112] fix: URI of a single character without scheme threw
 std::out_of_range

---
 src/core/include/URI.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index 4611285..1378fed 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -405,7 +405,7 @@ private:
             if ((source.length() > (authOffset + 1) && source[schemeSize] == '/' && source[schemeSize + 1] == '/')
                     || (schemeSize == 0 && source[schemeSize] != '/' && source[schemeSize] != '?' && source[schemeSize] != '#')) {
                 // authority isUnreserved defined starting with '//'
-                authOffset += 2;
+                authOffset = std::min(authOffset + 2, source.length());
                 authEnd    = std::min(source.find_first_of("/?#", authOffset), source.length());
                 _authority = source.substr(authOffset, authEnd - authOffset);
                 if constexpr (check == STRICT) {
-- 
2.43.0


From 2ddd96cf9f3fe2385e17adf2f3e370554585399f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:31 +0000
Subject: [PATCH 009/112] fix: base64 decoding accepted characters above 'z'
 that are not part of the alphabet

---
 src/majordomo/include/majordomo/base64pp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/base64pp.hpp b/src/majordomo/include/majordomo/base64pp.hpp
index 2717fe7..484903a 100644
--- a/src/majordomo/include/majordomo/base64pp.hpp
+++ b/src/majordomo/include/majordomo/base64pp.hpp
@@ -55,7 +55,7 @@ inline bool is_valid_base64_char(char c) {
         return true;
     }
 
-    if ((c >= 'a') && ('z')) {
+    if ((c >= 'a') && (c <= 'z')) {
         return true;
     }
 
-- 
2.43.0


From 21d7c24f1f6b17e6e8b65fd92504a3948ae4385a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:31 +0000
Subject: [PATCH 010/112] fix: SpinWait::spinUntil gave up unlimited waits and
 never timed out for a 1 ms limit

---
 src/core/include/SpinWait.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/SpinWait.hpp b/src/core/include/SpinWait.hpp
index 1ab2aa6..1e108e8 100644
--- a/src/core/include/SpinWait.hpp
+++ b/src/core/include/SpinWait.hpp
@@ -93,7 +93,7 @@ public:
 
             spinWait.spinOnce();
 
-            if (millisecondsTimeout != 1 && spinWait.nextSpinWillYield() && millisecondsTimeout <= (getTickCount() - num)) {
+            if (millisecondsTimeout != -1 && spinWait.nextSpinWillYield() && millisecondsTimeout <= (getTickCount() - num)) {
                 return false;
             }
         }
-- 
2.43.0


From 971d8a010711e595f0d53042b53ba99c6d6dd148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:03 +0000
Subject: [PATCH 011/112] fix: setThreadName read beyond the given string view
 and silently dropped names exceeding the OS limit

---
 src/core/include/ThreadAffinity.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/include/ThreadAffinity.hpp b/src/core/include/ThreadAffinity.hpp
index 1f2c1dc..870851a 100644
--- a/src/core/include/ThreadAffinity.hpp
+++ b/src/core/include/ThreadAffinity.hpp
@@ -139,7 +139,8 @@ inline void setThreadName(const std::string_view &threadName, thread_type auto &
     if (handle == 0U) {
         throw std::system_error(THREAD_UNINITIALISED, thread_exception(), std::format("setThreadName({}, thread_type)", threadName, detail::getThreadName(handle)));
     }
-    if (int rc = pthread_setname_np(handle, threadName.data()); rc < 0) {
+    const std::string name(threadName.substr(0, THREAD_MAX_NAME_LENGTH - 1)); // N.B. null-terminated and within the OS limit
+    if (int rc = pthread_setname_np(handle, name.c_str()); rc != 0) {
         throw std::system_error(rc, thread_exception(), std::format("setThreadName({},{}) - error code '{}'", threadName, detail::getThreadName(handle), rc));
     }
 #endif
-- 
2.43.0


From 97f71d0852b9546edeb43e032d9e3be925bddaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:03 +0000
Subject: [PATCH 012/112] fix: BasicSetting::acquire did not compile for the
 real-time side of a real-time mutable setting

---
 src/disruptor/include/BasicSetting.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disruptor/include/BasicSetting.hpp b/src/disruptor/include/BasicSetting.hpp
index 5acc64c..ba7e1b0 100644
--- a/src/disruptor/include/BasicSetting.hpp
+++ b/src/disruptor/include/BasicSetting.hpp
@@ -93,8 +93,9 @@ public:
     [[nodiscard]] std::conditional_t<mutableBy == MutableOption::RealTimeMutable && threadType == AccessType::RealTime, T, const T> &acquire() noexcept {
         if constexpr (threadType == AccessType::RealTime) {
             return _settingStore.realtimeAcquire();
+        } else {
+            return _settingStore.nonRealtimeAcquire();
         }
-        return _settingStore.nonRealtimeAcquire();
     }
 
     template<AccessType threadType>
-- 
2.43.0


From 312bb480c1a75ce7863df1912a6d492a796718dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:03 +0000
Subject: [PATCH 013/112] fix: value replaced by the real-time thread was
 invisible to it and undone by its next access

---
 src/disruptor/include/BasicSetting.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/disruptor/include/BasicSetting.hpp b/src/disruptor/include/BasicSetting.hpp
index ba7e1b0..63fd225 100644
--- a/src/disruptor/include/BasicSetting.hpp
+++ b/src/disruptor/include/BasicSetting.hpp
@@ -284,10 +284,10 @@ public:
 
     template<typename... Args>
     void realtimeReplace(Args &&...args) {
-        T    obj(std::forward<Args>(args)...);
+        realtimeCopy = T(std::forward<Args>(args)...);
 
-        auto idx  = acquireIndex();
-        data[idx] = std::move(obj);
+        auto idx     = acquireIndex();
+        data[idx]    = realtimeCopy;
         releaseIndex(idx);
     }
 
-- 
2.43.0


From 4028c08081c35b83032ef2dc22f2ab5dfae0d81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:22 +0000
Subject: [PATCH 014/112] fix: get() of a BasicSetting access guard did not
 compile

---
 src/disruptor/include/BasicSetting.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disruptor/include/BasicSetting.hpp b/src/disruptor/include/BasicSetting.hpp
index 63fd225..95cc4ca 100644
--- a/src/disruptor/include/BasicSetting.hpp
+++ b/src/disruptor/include/BasicSetting.hpp
@@ -146,13 +146,13 @@ public:
 
         // read-only access
         constexpr          operator const SettingType &() const noexcept { return *_currentValue; } // NOSONAR - implicit conversion intended
-        constexpr const T &get() const noexcept { return _currentValue; }
+        constexpr const T &get() const noexcept { return *_currentValue; }
         constexpr const T *operator->() const noexcept { return _currentValue; }
 
         // read-write access
         constexpr operator SettingType &() noexcept { return *_currentValue; } // NOSONAR - implicit conversion intended
         template<bool b = true>
-        requires enableMutableAccess T &get() noexcept { return _currentValue; }
+        requires enableMutableAccess T &get() noexcept { return *_currentValue; }
         template<bool b = true>
         requires enableMutableAccess T &operator=(const T &newVal) {
             *_currentValue = newVal;
-- 
2.43.0


From aeae38a1383e9c2a5c2f5ef584d7d743a9584c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:12 +0000
Subject: [PATCH 015/112] fix: TimingCtx remembers a selector without the
 prefix as invalid

The first access threw, every further one silently took the selector for ALL.
---
 src/core/include/TimingCtx.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/include/TimingCtx.hpp b/src/core/include/TimingCtx.hpp
index 425fe40..dca9691 100644
--- a/src/core/include/TimingCtx.hpp
+++ b/src/core/include/TimingCtx.hpp
@@ -125,6 +125,7 @@ public:
         }
 
         if (!upperCaseSelector.starts_with(SELECTOR_PREFIX)) {
+            _hash = 0;
             throw std::invalid_argument(std::format("Invalid tag '{}'", selector.value()));
         }
         auto upperCaseSelectorView = std::string_view{ upperCaseSelector.data() + SELECTOR_PREFIX.length(), upperCaseSelector.size() - SELECTOR_PREFIX.length() };
-- 
2.43.0


From a2940ff87974075156af95cfb6d1360fc6992bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:12 +0000
Subject: [PATCH 016/112] fix: TimingCtx rejects selector values which are no
 int32

Out-of-range values were read as 0 and trailing characters were ignored.
---
 src/core/include/TimingCtx.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/TimingCtx.hpp b/src/core/include/TimingCtx.hpp
index dca9691..1fcddd8 100644
--- a/src/core/include/TimingCtx.hpp
+++ b/src/core/include/TimingCtx.hpp
@@ -158,7 +158,7 @@ public:
 
             if (WILDCARD != valueString) {
                 int32_t intValue = 0;
-                if (const auto result = std::from_chars(valueString.data(), valueString.data() + valueString.size(), intValue); result.ec == std::errc::invalid_argument) {
+                if (const auto result = std::from_chars(valueString.data(), valueString.data() + valueString.size(), intValue); result.ec != std::errc{} || result.ptr != valueString.data() + valueString.size()) {
                     _hash = 0;
                     throw std::invalid_argument(std::format("Value: '{}' in '{}' is not a valid integer", valueString, tag));
                 }
-- 
2.43.0


From d77549f9df677cf57cd7e55e6caeffc1da3c2bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:12 +0000
Subject: [PATCH 017/112] fix: TimingCtx evaluates the selector of both
 operands

A changed selector of the right-hand side was ignored by matches(), == and <=>.
---
 src/core/include/TimingCtx.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/include/TimingCtx.hpp b/src/core/include/TimingCtx.hpp
index 1fcddd8..efe9b78 100644
--- a/src/core/include/TimingCtx.hpp
+++ b/src/core/include/TimingCtx.hpp
@@ -57,7 +57,7 @@ public:
     [[nodiscard]] int32_t gid() const { parse(); return _gid; }
 
     // these are not commutative, and must not be confused with operator==
-    [[nodiscard]] bool matches(const TimingCtx &other) const { parse(); return wildcardMatch(_cid, other._cid) && wildcardMatch(_sid, other._sid) && wildcardMatch(_pid, other._pid) && wildcardMatch(_gid, other._gid); }
+    [[nodiscard]] bool matches(const TimingCtx &other) const { parse(); other.parse(); return wildcardMatch(_cid, other._cid) && wildcardMatch(_sid, other._sid) && wildcardMatch(_pid, other._pid) && wildcardMatch(_gid, other._gid); }
 
     [[nodiscard]] bool matchesWithBpcts(const TimingCtx &other) const {
         auto match = [](units::isq::Time auto lhs, units::isq::Time auto rhs) { return rhs == 0 || lhs == rhs; };
@@ -68,10 +68,12 @@ public:
 
     [[nodiscard]] auto operator<=>(const TimingCtx &other) const {
         parse();
+        other.parse();
         return std::tie(_cid, _sid, _pid, _gid, bpcts.value()) <=> std::tie(other._cid, other._sid, other._pid, other._gid, other.bpcts.value());
     }
     [[nodiscard]] bool operator==(const TimingCtx &other) const {
         parse();
+        other.parse();
         return bpcts == other.bpcts && _cid == other._cid && _sid == other._sid && _pid == other._pid && _gid == other._gid;
     }
 
-- 
2.43.0


From 101ab8cf524267cc7519ee568d9409e6c8598aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:12 +0000
Subject: [PATCH 018/112] fix: TimingCtx::toString and hash may throw

They evaluate the selector, which throws if it is invalid: as noexcept functions they terminated the process.
---
 src/core/include/TimingCtx.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/include/TimingCtx.hpp b/src/core/include/TimingCtx.hpp
index efe9b78..a4bcede 100644
--- a/src/core/include/TimingCtx.hpp
+++ b/src/core/include/TimingCtx.hpp
@@ -78,7 +78,7 @@ public:
     }
 
     template<bool forceParse = true>
-    [[nodiscard]] std::string toString() const noexcept(forceParse) {
+    [[nodiscard]] std::string toString() const {
         if constexpr (forceParse) {
             parse();
         }
@@ -99,7 +99,7 @@ public:
         return std::format("{}{}", SELECTOR_PREFIX, opencmw::join(segments, ":"));
     }
 
-    [[nodiscard]] std::size_t hash() const noexcept {
+    [[nodiscard]] std::size_t hash() const {
         parse();
         std::size_t seed = 0;
         detail::hash_combine(seed, _cid);
@@ -217,7 +217,7 @@ ENABLE_REFLECTION_FOR(opencmw::TimingCtx, selector, bpcts);
 namespace std {
 template<>
 struct hash<opencmw::TimingCtx> {
-    [[nodiscard]] size_t operator()(const opencmw::TimingCtx &ctx) const noexcept {
+    [[nodiscard]] size_t operator()(const opencmw::TimingCtx &ctx) const {
         return ctx.hash();
     }
 };
-- 
2.43.0


From e2d6bce93a28b9b4d6398d94057dd4f8edc3dcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:12 +0000
Subject: [PATCH 019/112] fix: NumberFilter does not match numbers which are
 out of range

They were all taken for 0.
---
 src/core/include/Filters.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/include/Filters.hpp b/src/core/include/Filters.hpp
index f407d8c..e963b3a 100644
--- a/src/core/include/Filters.hpp
+++ b/src/core/include/Filters.hpp
@@ -45,11 +45,11 @@ class NumberFilter : public AbstractFilter {
 public:
     bool operator()(std::string_view notified, std::string_view subscribed) const override {
         T          subscribedNumber = {};
-        if (const auto rc = parseNumber(subscribed, subscribedNumber); rc == std::errc::invalid_argument) {
+        if (const auto rc = parseNumber(subscribed, subscribedNumber); rc != std::errc{}) {
             return false;
         }
         T          notifiedNumber = {};
-        if (const auto rc = parseNumber(notified, notifiedNumber); rc == std::errc::invalid_argument) {
+        if (const auto rc = parseNumber(notified, notifiedNumber); rc != std::errc{}) {
             return false;
         }
 
-- 
2.43.0


From d24a20d776b166b2140e4e104f417024f3c97871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:12 +0000
Subject: [PATCH 020/112] fix: compile-time MIME::getType returns the first
 matching type

As documented and as it does at run-time.
---
 src/core/include/MIME.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/include/MIME.hpp b/src/core/include/MIME.hpp
index 20fea23..c464577 100644
--- a/src/core/include/MIME.hpp
+++ b/src/core/include/MIME.hpp
@@ -162,7 +162,7 @@ constexpr const MimeType &getType(const std::string_view &mimeType) noexcept {
         constexpr auto lowerCaseCompare = [](const char ch1, const char ch2) constexpr noexcept -> bool { return detail::toLower(ch1) == detail::toLower(ch2); };
         detail::static_for<std::size_t, 0, ALL.size()>([&](auto i) {
             constexpr auto type = std::get<i>(ALL);
-            if (std::search(mimeType.begin(), mimeType.end(), type.typeName().begin(), type.typeName().end(), lowerCaseCompare) != mimeType.end()) {
+            if (index == SIZE_MAX && std::search(mimeType.begin(), mimeType.end(), type.typeName().begin(), type.typeName().end(), lowerCaseCompare) != mimeType.end()) {
                 index = i;
             }
         });
@@ -204,7 +204,7 @@ constexpr const MimeType &getTypeByFileName(const std::string_view &fileName) {
             constexpr auto extRange = std::get<i>(ALL).fileExtensions();
             detail::static_for<std::size_t, 0, extRange.size()>([&](auto j) {
                 constexpr auto ext = extRange[j];
-                if (ends_with(fileName, ext)) {
+                if (index == SIZE_MAX && ends_with(fileName, ext)) {
                     index = i;
                 }
             });
-- 
2.43.0


From 37c76c7b9adbb81991c09dc1ad1654f6d85b511e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:12 +0000
Subject: [PATCH 021/112] fix: collection::remove of a reference to one of its
 elements

std::remove overwrote the value it was comparing with.
---
 src/core/include/collection.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/include/collection.hpp b/src/core/include/collection.hpp
index 9cbfcf8..2a7504b 100644
--- a/src/core/include/collection.hpp
+++ b/src/core/include/collection.hpp
@@ -69,7 +69,8 @@ public:
     requires std::disjunction_v<std::is_same<std::decay_t<T>, Ts>...>
     void remove(T &&e) noexcept {
         auto &vec = std::get<std::vector<std::decay_t<T>>>(_items);
-        vec.erase(std::remove(vec.begin(), vec.end(), std::forward<T>(e)), vec.end());
+        const std::decay_t<T> value = std::forward<T>(e); // N.B. 'e' may refer to an element of this collection
+        vec.erase(std::remove(vec.begin(), vec.end(), value), vec.end());
     }
 
     template<typename... F>
-- 
2.43.0


From d475d938db9361ce75671c2c30899dcad0e83d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:12 +0000
Subject: [PATCH 022/112] fix: Annotated does not move from lvalues

Assigning a non-const lvalue to an Annotated<std::string> emptied the source.
---
 src/core/include/opencmw.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/opencmw.hpp b/src/core/include/opencmw.hpp
index 4c2d0a9..3bbb4d7 100644
--- a/src/core/include/opencmw.hpp
+++ b/src/core/include/opencmw.hpp
@@ -393,7 +393,7 @@ struct Annotated<T, Q, description, modifier, groups...> : public T { // inherit
 
     template<typename U>
     requires (std::is_assignable_v<T, U>)
-    Annotated(U&& u) : T(std::move(u)) {}
+    Annotated(U&& u) : T(std::forward<U>(u)) {}
 
     [[nodiscard]] constexpr std::string_view getUnit() const noexcept { return unitStr.c_str(); }
     [[nodiscard]] constexpr std::string_view getQuantity() const noexcept { return quantityStr.c_str(); }
-- 
2.43.0


From d809de0ae4cf57080e08c2a4538b59fc0876c6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:10 +0000
Subject: [PATCH 023/112] fix: overflow in the java compatible string hash

Signed overflow is undefined: the hash of most field names longer than six characters relied on it.
---
 src/core/include/opencmw.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/include/opencmw.hpp b/src/core/include/opencmw.hpp
index 3bbb4d7..952ac3c 100644
--- a/src/core/include/opencmw.hpp
+++ b/src/core/include/opencmw.hpp
@@ -535,11 +535,11 @@ struct ConstExprMap {
  * @return hash value of the string
  */
 inline constexpr int hash(const std::string_view &string) noexcept {
-    int h = 0;
+    uint32_t h = 0; // N.B. unsigned: wraps around like Java's int
     for (char c : string) {
-        h = h * 31 + static_cast<int>(c);
+        h = h * 31U + static_cast<uint32_t>(c);
     }
-    return h;
+    return static_cast<int>(h);
 }
 
 // Exception types
-- 
2.43.0


From e9bfa44da7717942322c4524e3543f28c394b190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:14 +0000
Subject: [PATCH 024/112] fix: thread pool shutdown flag is read and written by
 several threads

---
 src/core/include/ThreadPool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/ThreadPool.hpp b/src/core/include/ThreadPool.hpp
index 4997002..e15f01f 100644
--- a/src/core/include/ThreadPool.hpp
+++ b/src/core/include/ThreadPool.hpp
@@ -227,7 +227,7 @@ class BasicThreadPool {
     static std::string           generateName() { return std::format("BasicThreadPool#{}", _globalPoolId.fetch_add(1)); }
 
     std::atomic<bool>            _initialised = ATOMIC_FLAG_INIT;
-    bool                         _shutdown    = false;
+    std::atomic<bool>            _shutdown    = false;
 
     std::condition_variable      _condition;
     std::atomic<std::size_t>     _numTaskedQueued = 0U; // cache for _taskQueue.size()
-- 
2.43.0


From 7523f1858edff4eed06578b5ae77cd0afb7fc569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:15 +0000
Subject: [PATCH 025/112] fix: thread pool may be shut down more than once

---
 src/core/include/ThreadPool.hpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/core/include/ThreadPool.hpp b/src/core/include/ThreadPool.hpp
index e15f01f..c1edff1 100644
--- a/src/core/include/ThreadPool.hpp
+++ b/src/core/include/ThreadPool.hpp
@@ -261,11 +261,7 @@ public:
     }
 
     ~BasicThreadPool() {
-        _shutdown = true;
-        _condition.notify_all();
-        for (auto &t : _threads) {
-            t.join();
-        }
+        requestShutdown();
     }
 
     BasicThreadPool(const BasicThreadPool &)                     = delete;
@@ -286,9 +282,7 @@ public:
     void                      requestShutdown() {
         _shutdown = true;
         _condition.notify_all();
-        for (auto &t : _threads) {
-            t.join();
-        }
+        joinAllThreads();
     }
     [[nodiscard]] bool isShutdown() const { return _shutdown; }
 
@@ -367,6 +361,22 @@ public:
     }
 
 private:
+    void joinAllThreads() {
+        while (true) {
+            std::list<std::thread> threads;
+            {
+                std::scoped_lock lock(_threadListMutex);
+                threads.swap(_threads);
+            }
+            if (threads.empty()) {
+                return;
+            }
+            for (auto &t : threads) {
+                t.join();
+            }
+        }
+    }
+
     void cleanupFinishedThreads() {
         std::scoped_lock lock(_threadListMutex);
         // TODO:
-- 
2.43.0


From 52189a9ab4b8260cb2a3091c489e9850a6c55e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:15 +0000
Subject: [PATCH 026/112] fix: lost wake-ups of the thread pool's sleeping
 threads

---
 src/core/include/ThreadPool.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/core/include/ThreadPool.hpp b/src/core/include/ThreadPool.hpp
index c1edff1..4790ddd 100644
--- a/src/core/include/ThreadPool.hpp
+++ b/src/core/include/ThreadPool.hpp
@@ -229,6 +229,7 @@ class BasicThreadPool {
     std::atomic<bool>            _initialised = ATOMIC_FLAG_INIT;
     std::atomic<bool>            _shutdown    = false;
 
+    std::mutex                   _conditionMutex;
     std::condition_variable      _condition;
     std::atomic<std::size_t>     _numTaskedQueued = 0U; // cache for _taskQueue.size()
     std::atomic<std::size_t>     _numTasksRunning = 0U;
@@ -280,7 +281,10 @@ public:
     [[nodiscard]] bool        isInitialised() const { return _initialised.load(std::memory_order::acquire); }
     void                      waitUntilInitialised() const { _initialised.wait(false); }
     void                      requestShutdown() {
-        _shutdown = true;
+        {
+            std::scoped_lock lock(_conditionMutex);
+            _shutdown = true;
+        }
         _condition.notify_all();
         joinAllThreads();
     }
@@ -322,6 +326,9 @@ public:
         _numTaskedQueued.fetch_add(1U);
 
         _taskQueue.push(createTask<taskName, priority, cpuID>(FWD(func), FWD(args)...));
+        { // wait until no thread is between checking for new tasks and going to sleep
+            std::scoped_lock lock(_conditionMutex);
+        }
         _condition.notify_one();
         if constexpr (taskType == TaskType::IO_BOUND) {
             spinWait.spinOnce();
@@ -476,8 +483,6 @@ private:
         constexpr uint32_t N_SPIN       = 1 << 8;
         uint32_t           noop_counter = 0;
         const auto         threadID     = _numThreads.fetch_add(1);
-        std::mutex         mutex;
-        std::unique_lock   lock(mutex);
         auto               lastUsed = std::chrono::steady_clock::now();
         if (numThreads() >= _minThreads) {
             std::atomic_store_explicit(&_initialised, true, std::memory_order_release);
@@ -510,6 +515,7 @@ private:
                 noop_counter = noop_counter / 2;
                 cleanupFinishedThreads();
 
+                std::unique_lock lock(_conditionMutex);
                 _condition.wait_for(lock, keepAliveDuration, [this] { return numTasksQueued() > 0 || isShutdown(); });
             }
             // check if this thread is to be kept
-- 
2.43.0


From 674d0605973e1cbccb9edaa3aa32dc7e74f11710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:15 +0000
Subject: [PATCH 027/112] fix: BasicThreadPool::execute does not move from
 lvalue callables

---
 src/core/include/ThreadPool.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/include/ThreadPool.hpp b/src/core/include/ThreadPool.hpp
index 4790ddd..02c2791 100644
--- a/src/core/include/ThreadPool.hpp
+++ b/src/core/include/ThreadPool.hpp
@@ -440,10 +440,11 @@ private:
     template<const basic_fixed_string taskName = "", uint32_t priority = 0, int32_t cpuID = -1, std::invocable Callable, typename... Args>
     auto createTask(Callable &&func, Args &&...funcArgs) {
         const auto getTask = [&recycledTasks = _recycledTasks](Callable &&f, Args &&...args) {
+            using Func     = std::decay_t<Callable>;
             auto extracted = recycledTasks.pop();
             if (extracted.empty()) {
                 if constexpr (sizeof...(Args) == 0) {
-                    extracted.push_front(Task{ .id = _taskID.fetch_add(1U) + 1U, .func = std::move(f) });
+                    extracted.push_front(Task{ .id = _taskID.fetch_add(1U) + 1U, .func = Func(FWD(f)) });
                 } else {
                     extracted.push_front(Task{ .id = _taskID.fetch_add(1U) + 1U, .func = std::move(std::bind_front(FWD(f), FWD(args)...)) });
                 }
@@ -451,7 +452,7 @@ private:
                 auto &task = extracted.front();
                 task.id    = _taskID.fetch_add(1U) + 1U;
                 if constexpr (sizeof...(Args) == 0) {
-                    task.func = std::move(f);
+                    task.func = Func(FWD(f));
                 } else {
                     task.func = std::move(std::bind_front(FWD(f), FWD(args)...));
                 }
-- 
2.43.0


From 57726855b89e0083c491ec28a9fb6584057fc344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:15 +0000
Subject: [PATCH 028/112] fix: thread pool affinity is applied to its threads
 instead of the caller

---
 src/core/include/ThreadPool.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/include/ThreadPool.hpp b/src/core/include/ThreadPool.hpp
index 02c2791..f1d1ae1 100644
--- a/src/core/include/ThreadPool.hpp
+++ b/src/core/include/ThreadPool.hpp
@@ -405,12 +405,12 @@ private:
         thread::setThreadSchedulingParameter(_schedulingPolicy, _schedulingPriority, thread);
         if (!_affinityMask.empty()) {
             if (taskType == TaskType::IO_BOUND) {
-                thread::setThreadAffinity(_affinityMask);
+                thread::setThreadAffinity(_affinityMask, thread);
                 return;
             }
             const std::vector<bool> affinityMask = distributeThreadAffinityAcrossCores(_affinityMask, threadID);
             std::cout << std::format("{}#{} affinity mask: {}", _poolName, threadID, opencmw::join(affinityMask, ",")) << std::endl;
-            thread::setThreadAffinity(affinityMask);
+            thread::setThreadAffinity(affinityMask, thread);
         }
     }
 
-- 
2.43.0


From 883917c2afd4db98dbba999d0f5b207af81b1eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:15 +0000
Subject: [PATCH 029/112] fix: thread pool with more threads than cores in its
 affinity mask

---
 src/core/include/ThreadPool.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/include/ThreadPool.hpp b/src/core/include/ThreadPool.hpp
index f1d1ae1..6a401d6 100644
--- a/src/core/include/ThreadPool.hpp
+++ b/src/core/include/ThreadPool.hpp
@@ -419,10 +419,12 @@ private:
             return {};
         }
         std::vector<bool> affinityMask;
+        const auto        nCores = static_cast<std::size_t>(std::count(globalAffinityMask.begin(), globalAffinityMask.end(), true));
+        const std::size_t nSlots = std::max<std::size_t>(1, std::min<std::size_t>(_minThreads, nCores)); // threads share cores if there are more than cores
         std::size_t       coreCount = 0;
         for (bool value : globalAffinityMask) {
             if (value) {
-                affinityMask.push_back(coreCount++ % _minThreads == threadID);
+                affinityMask.push_back(coreCount++ % nSlots == threadID % nSlots);
             } else {
                 affinityMask.push_back(false);
             }
-- 
2.43.0


From 33fef99149059e020cc7c7ffac4f8d4be630db7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:15 +0000
Subject: [PATCH 030/112] fix: thread pool constraints are set for running
 threads only

---
 src/core/include/ThreadPool.hpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/core/include/ThreadPool.hpp b/src/core/include/ThreadPool.hpp
index 6a401d6..1af4671 100644
--- a/src/core/include/ThreadPool.hpp
+++ b/src/core/include/ThreadPool.hpp
@@ -239,6 +239,7 @@ class BasicThreadPool {
     std::mutex                   _threadListMutex;
     std::atomic<std::size_t>     _numThreads = 0U;
     std::list<std::thread>       _threads;
+    std::list<std::thread>       _finishedThreads; // no longer used, to be joined
 
     std::vector<bool>            _affinityMask;
     thread::Policy               _schedulingPolicy   = thread::Policy::OTHER;
@@ -373,7 +374,8 @@ private:
             std::list<std::thread> threads;
             {
                 std::scoped_lock lock(_threadListMutex);
-                threads.swap(_threads);
+                threads.splice(threads.end(), _threads);
+                threads.splice(threads.end(), _finishedThreads);
             }
             if (threads.empty()) {
                 return;
@@ -385,18 +387,25 @@ private:
     }
 
     void cleanupFinishedThreads() {
+        std::list<std::thread> finished;
+        {
+            std::scoped_lock lock(_threadListMutex);
+            finished.swap(_finishedThreads);
+        }
+        for (auto &t : finished) {
+            t.join();
+        }
+    }
+
+    void retireThisThread() {
         std::scoped_lock lock(_threadListMutex);
-        // TODO:
-        // (C++Ref) A thread that has finished executing code, but has not yet been
-        // joined is still considered an active thread of execution and is
-        // therefore joinable.
-        // std::erase_if(_threads, [](auto &thread) { return !thread.joinable(); });
+        if (auto it = std::find_if(_threads.begin(), _threads.end(), [](const auto &t) { return t.get_id() == std::this_thread::get_id(); }); it != _threads.end()) {
+            _finishedThreads.splice(_finishedThreads.end(), _threads, it);
+        }
     }
 
     void updateThreadConstraints() {
         std::scoped_lock lock(_threadListMutex);
-        // std::erase_if(_threads, [](auto &thread) { return !thread.joinable(); });
-
         std::for_each(_threads.begin(), _threads.end(), [this, threadID = std::size_t{ 0 }](auto &thread) mutable { this->updateThreadConstraints(threadID++, thread); });
     }
 
@@ -540,6 +549,7 @@ private:
                             _recycledTasks.clear();
                             _taskQueue.clear();
                         }
+                        retireThisThread();
                         running = false;
                         break;
                     }
-- 
2.43.0


From ea89f89b3e7b21207884d1f224e39c6b9f7ffbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:32 +0000
Subject: [PATCH 031/112] fix: thread pool keep-alive time may be set while its
 threads are running

---
 src/core/include/ThreadPool.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/include/ThreadPool.hpp b/src/core/include/ThreadPool.hpp
index 1af4671..67d24ba 100644
--- a/src/core/include/ThreadPool.hpp
+++ b/src/core/include/ThreadPool.hpp
@@ -251,7 +251,7 @@ class BasicThreadPool {
 
 public:
     std::chrono::microseconds sleepDuration     = 1ms;
-    std::chrono::milliseconds keepAliveDuration = 10s;
+    std::atomic<std::chrono::milliseconds> keepAliveDuration = std::chrono::milliseconds(10s); // may be changed while the pool's threads are running
 
     BasicThreadPool(const std::string_view &name = generateName(), uint32_t min = std::thread::hardware_concurrency(), uint32_t max = std::thread::hardware_concurrency())
         : _poolName(name), _minThreads(min), _maxThreads(max) {
@@ -528,7 +528,7 @@ private:
                 cleanupFinishedThreads();
 
                 std::unique_lock lock(_conditionMutex);
-                _condition.wait_for(lock, keepAliveDuration, [this] { return numTasksQueued() > 0 || isShutdown(); });
+                _condition.wait_for(lock, keepAliveDuration.load(), [this] { return numTasksQueued() > 0 || isShutdown(); });
             }
             // check if this thread is to be kept
             auto timeDiffSinceLastUsed = std::chrono::steady_clock::now() - lastUsed;
@@ -540,7 +540,7 @@ private:
                     _taskQueue.clear();
                 }
                 running = false;
-            } else if (timeDiffSinceLastUsed > keepAliveDuration) { // decrease to the minimum of _minThreads in a thread safe way
+            } else if (timeDiffSinceLastUsed > keepAliveDuration.load()) { // decrease to the minimum of _minThreads in a thread safe way
                 unsigned long nThreads = numThreads();
                 while (nThreads > minThreads()) { // compare and swap loop
                     if (_numThreads.compare_exchange_weak(nThreads, nThreads - 1, std::memory_order_acq_rel)) {
-- 
2.43.0


From 9fa81a488c1f9462d2dec57eca67c0b076b816af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:39 +0000
Subject: [PATCH 032/112] fix: minimum of sequences that advance while they are
 compared

---
 src/disruptor/include/disruptor/Sequence.hpp | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/disruptor/include/disruptor/Sequence.hpp b/src/disruptor/include/disruptor/Sequence.hpp
index f5eb3fa..9221033 100644
--- a/src/disruptor/include/disruptor/Sequence.hpp
+++ b/src/disruptor/include/disruptor/Sequence.hpp
@@ -62,18 +62,10 @@ inline std::int64_t getMinimumSequence(const std::vector<std::shared_ptr<Sequenc
     if (sequences.empty()) {
         return minimum;
     }
-#if not defined(_LIBCPP_VERSION)
-    return std::min(minimum, std::ranges::min(sequences, std::less{}, [](const auto &sequence) noexcept { return sequence->value(); })->value());
-#else
-    std::vector<int64_t> v;
-    v.reserve(sequences.size());
-    for (auto &sequence : sequences) {
-        v.push_back(sequence->value());
+    for (const auto &sequence : sequences) { // N.B. each value is read only once since it may advance concurrently
+        minimum = std::min(minimum, sequence->value());
     }
-    // std::for_each(sequences.begin(), sequences.end(), [v](const auto &sequence) noexcept { v.push_back(8); });
-    auto min = std::min_element(v.begin(), v.end());
-    return (*min < minimum) ? *min : minimum;
-#endif
+    return minimum;
 }
 
 inline void addSequences(std::shared_ptr<std::vector<std::shared_ptr<Sequence>>> &sequences, const Sequence &cursor, const std::vector<std::shared_ptr<Sequence>> &sequencesToAdd) {
-- 
2.43.0


From 08a1d5f9bf71d935da2f9ab412193d7eea007287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:39 +0000
Subject: [PATCH 033/112] fix: publication flags of the multi-producer ring
 buffer are shared between threads

---
 src/disruptor/include/disruptor/ClaimStrategy.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/disruptor/include/disruptor/ClaimStrategy.hpp b/src/disruptor/include/disruptor/ClaimStrategy.hpp
index bffe15f..c72c512 100644
--- a/src/disruptor/include/disruptor/ClaimStrategy.hpp
+++ b/src/disruptor/include/disruptor/ClaimStrategy.hpp
@@ -116,7 +116,7 @@ template<std::size_t SIZE, WaitStrategy WAIT_STRATEGY>
 class MultiThreadedStrategy {
     alignas(kCacheLine) Sequence &_cursor;
     alignas(kCacheLine) WAIT_STRATEGY &_waitStrategy;
-    alignas(kCacheLine) std::array<std::int32_t, SIZE> _availableBuffer; // tracks the state of each ringbuffer slot
+    alignas(kCacheLine) std::array<std::atomic<std::int32_t>, SIZE> _availableBuffer; // tracks the state of each ringbuffer slot
     alignas(kCacheLine) std::shared_ptr<Sequence> _gatingSequenceCache = std::make_shared<Sequence>();
     static constexpr std::int32_t _indexMask                           = SIZE - 1;
     static constexpr std::int32_t _indexShift                          = ceillog2(SIZE);
@@ -218,7 +218,7 @@ public:
         const auto index = calculateIndex(sequence);
         const auto flag  = calculateAvailabilityFlag(sequence);
 
-        return _availableBuffer[static_cast<std::size_t>(index)] == flag;
+        return _availableBuffer[static_cast<std::size_t>(index)].load(std::memory_order_acquire) == flag;
     }
 
     [[nodiscard]] OPENCMW_FORCEINLINE std::int64_t getHighestPublishedSequence(const std::int64_t lowerBound, const std::int64_t availableSequence) const noexcept {
@@ -233,7 +233,7 @@ public:
 
 private:
     void                              setAvailable(std::int64_t sequence) noexcept { setAvailableBufferValue(calculateIndex(sequence), calculateAvailabilityFlag(sequence)); }
-    OPENCMW_FORCEINLINE void          setAvailableBufferValue(std::size_t index, std::int32_t flag) noexcept { _availableBuffer[index] = flag; }
+    OPENCMW_FORCEINLINE void          setAvailableBufferValue(std::size_t index, std::int32_t flag) noexcept { _availableBuffer[index].store(flag, std::memory_order_release); }
     [[nodiscard]] OPENCMW_FORCEINLINE std::int32_t calculateAvailabilityFlag(const std::int64_t sequence) const noexcept { return static_cast<std::int32_t>(static_cast<std::uint64_t>(sequence) >> _indexShift); }
     [[nodiscard]] OPENCMW_FORCEINLINE std::size_t calculateIndex(const std::int64_t sequence) const noexcept { return static_cast<std::size_t>(static_cast<std::int32_t>(sequence) & _indexMask); }
 };
-- 
2.43.0


From f2cc169ee4dcd9894e7b9c4d16e7e743f4892f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:39 +0000
Subject: [PATCH 034/112] fix: alert flag of a sequence barrier is shared
 between threads

---
 src/disruptor/include/disruptor/ProcessingSequenceBarrier.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disruptor/include/disruptor/ProcessingSequenceBarrier.hpp b/src/disruptor/include/disruptor/ProcessingSequenceBarrier.hpp
index e6ab764..55cf655 100644
--- a/src/disruptor/include/disruptor/ProcessingSequenceBarrier.hpp
+++ b/src/disruptor/include/disruptor/ProcessingSequenceBarrier.hpp
@@ -24,7 +24,7 @@ class ProcessingSequenceBarrier : public ISequenceBarrier, public std::enable_sh
     WAIT_STRATEGY                                          &_waitStrategyRef;
     EventStore<T>                                          &_sequenceProviderRef;
 
-    bool                                                    _alerted = false;
+    std::atomic<bool>                                       _alerted = false;
 
 public:
     ProcessingSequenceBarrier(const std::shared_ptr<EventStore<T>> &sequenceProvider,
-- 
2.43.0


From d48fe14f628dcb9d1bd7deb51c503d4d3f0c92f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:39 +0000
Subject: [PATCH 035/112] fix: claiming a slot does not publish slots that were
 claimed before

---
 src/disruptor/include/disruptor/ClaimStrategy.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/disruptor/include/disruptor/ClaimStrategy.hpp b/src/disruptor/include/disruptor/ClaimStrategy.hpp
index c72c512..52d871a 100644
--- a/src/disruptor/include/disruptor/ClaimStrategy.hpp
+++ b/src/disruptor/include/disruptor/ClaimStrategy.hpp
@@ -57,8 +57,6 @@ public:
         auto wrapPoint    = nextSequence - static_cast<std::int64_t>(SIZE);
 
         if (const auto cachedGatingSequence = _cachedValue; wrapPoint > cachedGatingSequence || cachedGatingSequence > _nextValue) {
-            _cursor.setValue(_nextValue);
-
             SpinWait     spinWait;
             std::int64_t minSequence;
             while (wrapPoint > (minSequence = detail::getMinimumSequence(dependents, _nextValue))) {
-- 
2.43.0


From cec1e3fa6ce5f2bd1b1bcd59114250ae582a3e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:28 +0000
Subject: [PATCH 036/112] fix: gating sequences may be added and removed while
 events are published

---
 .../include/disruptor/ClaimStrategy.hpp          | 16 ++++++++--------
 src/disruptor/include/disruptor/RingBuffer.hpp   | 12 ++++++------
 src/disruptor/include/disruptor/Sequence.hpp     |  7 +++++++
 3 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/disruptor/include/disruptor/ClaimStrategy.hpp b/src/disruptor/include/disruptor/ClaimStrategy.hpp
index 52d871a..5132eda 100644
--- a/src/disruptor/include/disruptor/ClaimStrategy.hpp
+++ b/src/disruptor/include/disruptor/ClaimStrategy.hpp
@@ -39,7 +39,7 @@ public:
     SingleThreadedStrategy(const SingleThreadedStrategy &&) = delete;
     void operator=(const SingleThreadedStrategy &)          = delete;
 
-    bool hasAvailableCapacity(const std::vector<std::shared_ptr<Sequence>> &dependents, const int requiredCapacity, const std::int64_t /*cursorValue*/) const noexcept {
+    bool hasAvailableCapacity(const auto &dependents, const int requiredCapacity, const std::int64_t /*cursorValue*/) const noexcept {
         if (const std::int64_t wrapPoint = (_nextValue + requiredCapacity) - static_cast<std::int64_t>(SIZE); wrapPoint > _cachedValue || _cachedValue > _nextValue) {
             auto minSequence = detail::getMinimumSequence(dependents, _nextValue);
             _cachedValue     = minSequence;
@@ -50,7 +50,7 @@ public:
         return true;
     }
 
-    std::int64_t next(const std::vector<std::shared_ptr<Sequence>> &dependents, const std::int32_t n_slots_to_claim = 1) noexcept {
+    std::int64_t next(const auto &dependents, const std::int32_t n_slots_to_claim = 1) noexcept {
         assert((n_slots_to_claim > 0 && n_slots_to_claim < static_cast<std::int32_t>(SIZE)) && "n_slots_to_claim must be > 0 and < bufferSize");
 
         auto nextSequence = _nextValue + n_slots_to_claim;
@@ -72,7 +72,7 @@ public:
         return nextSequence;
     }
 
-    std::int64_t tryNext(const std::vector<std::shared_ptr<Sequence>> &dependents, const std::int32_t n_slots_to_claim) {
+    std::int64_t tryNext(const auto &dependents, const std::int32_t n_slots_to_claim) {
         assert((n_slots_to_claim > 0) && "n_slots_to_claim must be > 0");
 
         if (!hasAvailableCapacity(dependents, n_slots_to_claim, 0 /* unused cursor value */)) {
@@ -85,7 +85,7 @@ public:
         return nextSequence;
     }
 
-    std::int64_t getRemainingCapacity(const std::vector<std::shared_ptr<Sequence>> &dependents) const noexcept {
+    std::int64_t getRemainingCapacity(const auto &dependents) const noexcept {
         const auto consumed = detail::getMinimumSequence(dependents, _nextValue);
         const auto produced = _nextValue;
 
@@ -132,7 +132,7 @@ public:
     MultiThreadedStrategy(const MultiThreadedStrategy &&)       = delete;
     void               operator=(const MultiThreadedStrategy &) = delete;
 
-    [[nodiscard]] bool hasAvailableCapacity(const std::vector<std::shared_ptr<Sequence>> &dependents, const std::int64_t requiredCapacity, const std::int64_t cursorValue) const noexcept {
+    [[nodiscard]] bool hasAvailableCapacity(const auto &dependents, const std::int64_t requiredCapacity, const std::int64_t cursorValue) const noexcept {
         const auto wrapPoint = (cursorValue + requiredCapacity) - static_cast<std::int64_t>(SIZE);
 
         if (const auto cachedGatingSequence = _gatingSequenceCache->value(); wrapPoint > cachedGatingSequence || cachedGatingSequence > cursorValue) {
@@ -146,7 +146,7 @@ public:
         return true;
     }
 
-    [[nodiscard]] std::int64_t next(const std::vector<std::shared_ptr<Sequence>> &dependents, const std::int32_t n_slots_to_claim = 1) {
+    [[nodiscard]] std::int64_t next(const auto &dependents, const std::int32_t n_slots_to_claim = 1) {
         assert((n_slots_to_claim > 0) && "n_slots_to_claim must be > 0");
 
         std::int64_t current;
@@ -180,7 +180,7 @@ public:
         return next;
     }
 
-    [[nodiscard]] std::int64_t tryNext(const std::vector<std::shared_ptr<Sequence>> &dependents, const std::int32_t n_slots_to_claim = 1) {
+    [[nodiscard]] std::int64_t tryNext(const auto &dependents, const std::int32_t n_slots_to_claim = 1) {
         assert((n_slots_to_claim > 0) && "n_slots_to_claim must be > 0");
 
         std::int64_t current;
@@ -198,7 +198,7 @@ public:
         return next;
     }
 
-    [[nodiscard]] std::int64_t getRemainingCapacity(const std::vector<std::shared_ptr<Sequence>> &dependents) const noexcept {
+    [[nodiscard]] std::int64_t getRemainingCapacity(const auto &dependents) const noexcept {
         const auto produced = _cursor.value();
         const auto consumed = detail::getMinimumSequence(dependents, produced);
 
diff --git a/src/disruptor/include/disruptor/RingBuffer.hpp b/src/disruptor/include/disruptor/RingBuffer.hpp
index 369e87d..7a92b90 100644
--- a/src/disruptor/include/disruptor/RingBuffer.hpp
+++ b/src/disruptor/include/disruptor/RingBuffer.hpp
@@ -44,10 +44,10 @@ public:
     }
 
     [[nodiscard]] constexpr std::int32_t                    bufferSize() const noexcept override { return SIZE; }
-    [[nodiscard]] bool                                      hasAvailableCapacity(std::int32_t requiredCapacity) const noexcept override { return _claimStrategy->hasAvailableCapacity(*_gatingSequences, requiredCapacity, _cursor->value()); }
-    [[nodiscard]] std::int64_t                              next(std::int32_t n_slots_to_claim = 1) noexcept override { return _claimStrategy->next(*_gatingSequences, n_slots_to_claim); }
-    [[nodiscard]] std::int64_t                              tryNext(std::int32_t n_slots_to_claim = 1) override { return _claimStrategy->tryNext(*_gatingSequences, n_slots_to_claim); }
-    [[nodiscard]] std::int64_t                              getRemainingCapacity() const noexcept override { return _claimStrategy->getRemainingCapacity(*_gatingSequences); }
+    [[nodiscard]] bool                                      hasAvailableCapacity(std::int32_t requiredCapacity) const noexcept override { return _claimStrategy->hasAvailableCapacity(_gatingSequences, requiredCapacity, _cursor->value()); }
+    [[nodiscard]] std::int64_t                              next(std::int32_t n_slots_to_claim = 1) noexcept override { return _claimStrategy->next(_gatingSequences, n_slots_to_claim); }
+    [[nodiscard]] std::int64_t                              tryNext(std::int32_t n_slots_to_claim = 1) override { return _claimStrategy->tryNext(_gatingSequences, n_slots_to_claim); }
+    [[nodiscard]] std::int64_t                              getRemainingCapacity() const noexcept override { return _claimStrategy->getRemainingCapacity(_gatingSequences); }
     void                                                    publish(std::int64_t sequence) override { _claimStrategy->publish(sequence); }
     [[nodiscard]] OPENCMW_FORCEINLINE bool                  isAvailable(std::int64_t sequence) const noexcept override { return _claimStrategy->isAvailable(sequence); }
     [[nodiscard]] std::int64_t                              getHighestPublishedSequence(std::int64_t nextSequence, std::int64_t availableSequence) const noexcept override { return _claimStrategy->getHighestPublishedSequence(nextSequence, availableSequence); }
@@ -55,8 +55,8 @@ public:
     [[nodiscard]] bool                                      isPublished(std::int64_t sequence) const noexcept override { return isAvailable(sequence); }
     void                                                    addGatingSequences(const std::vector<std::shared_ptr<Sequence>> &gatingSequences) override { detail::addSequences(_gatingSequences, *_cursor, gatingSequences); }
     bool                                                    removeGatingSequence(const std::shared_ptr<Sequence> &sequence) override { return detail::removeSequence(_gatingSequences, sequence); }
-    std::shared_ptr<std::vector<std::shared_ptr<Sequence>>> getGatingSequences() const noexcept override { return _gatingSequences; }
-    [[nodiscard]] std::int64_t                              getMinimumGatingSequence() const noexcept override { return detail::getMinimumSequence(*_gatingSequences, _cursor->value()); }
+    std::shared_ptr<std::vector<std::shared_ptr<Sequence>>> getGatingSequences() const noexcept override { return std::atomic_load_explicit(&_gatingSequences, std::memory_order_acquire); }
+    [[nodiscard]] std::int64_t                              getMinimumGatingSequence() const noexcept override { return detail::getMinimumSequence(_gatingSequences, _cursor->value()); }
     [[nodiscard]] auto                                      claimStrategy() { return _claimStrategy; }
     [[nodiscard]] auto                                      waitStrategy() { return _waitStrategy; }
     [[nodiscard]] auto                                      cursorSequence() { return _cursor; }
diff --git a/src/disruptor/include/disruptor/Sequence.hpp b/src/disruptor/include/disruptor/Sequence.hpp
index 9221033..811d869 100644
--- a/src/disruptor/include/disruptor/Sequence.hpp
+++ b/src/disruptor/include/disruptor/Sequence.hpp
@@ -68,6 +68,13 @@ inline std::int64_t getMinimumSequence(const std::vector<std::shared_ptr<Sequenc
     return minimum;
 }
 
+/**
+ * Get the minimum of a list of sequences that may be exchanged concurrently by addSequences(..) and removeSequence(..).
+ */
+inline std::int64_t getMinimumSequence(const std::shared_ptr<std::vector<std::shared_ptr<Sequence>>> &sequences, std::int64_t minimum = std::numeric_limits<std::int64_t>::max()) noexcept {
+    return getMinimumSequence(*std::atomic_load_explicit(&sequences, std::memory_order_acquire), minimum);
+}
+
 inline void addSequences(std::shared_ptr<std::vector<std::shared_ptr<Sequence>>> &sequences, const Sequence &cursor, const std::vector<std::shared_ptr<Sequence>> &sequencesToAdd) {
     std::int64_t                                            cursorSequence;
     std::shared_ptr<std::vector<std::shared_ptr<Sequence>>> updatedSequences;
-- 
2.43.0


From 37fe3734b0f49639ffb463564476c15c51b65da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:28 +0000
Subject: [PATCH 037/112] fix: a refused second start of a disruptor does not
 skip events

---
 src/disruptor/include/disruptor/Disruptor.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disruptor/include/disruptor/Disruptor.hpp b/src/disruptor/include/disruptor/Disruptor.hpp
index 209d61b..45ed14c 100644
--- a/src/disruptor/include/disruptor/Disruptor.hpp
+++ b/src/disruptor/include/disruptor/Disruptor.hpp
@@ -259,9 +259,10 @@ public:
      * \returns the configured ring buffer
      */
     std::shared_ptr<EventStore<T>> start() {
+        checkOnlyStartedOnce();
+
         _ringBuffer->addGatingSequences(_consumerRepository->getLastSequenceInChain(true));
 
-        checkOnlyStartedOnce();
         for (auto &&consumerInfo : *_consumerRepository) {
             consumerInfo->start(_executor);
         }
-- 
2.43.0


From 2633db4d971d0d12a2ae48e25082e99b4acbd64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:28 +0000
Subject: [PATCH 038/112] fix: disruptor with worker pools did not compile

---
 src/disruptor/include/disruptor/Disruptor.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/disruptor/include/disruptor/Disruptor.hpp b/src/disruptor/include/disruptor/Disruptor.hpp
index 45ed14c..b993433 100644
--- a/src/disruptor/include/disruptor/Disruptor.hpp
+++ b/src/disruptor/include/disruptor/Disruptor.hpp
@@ -345,7 +345,7 @@ public:
      * \returns event for the sequence
      */
     T &operator[](std::int64_t sequence) const {
-        return _ringBuffer[sequence];
+        return (*_ringBuffer)[sequence];
     }
 
     /**
@@ -385,9 +385,12 @@ public:
 
     std::shared_ptr<EventHandlerGroupType> createWorkerPool(const std::vector<std::shared_ptr<Sequence>> &barrierSequences,
             const std::vector<std::shared_ptr<IWorkHandler<T>>>                                          &workHandlers) {
-        auto sequenceBarrier = _ringBuffer->newBarrier(barrierSequences);
+        checkNotStarted();
+
+        auto sequenceBarrier = newBarrier(_ringBuffer, barrierSequences);
         auto workerPool      = std::make_shared<WorkerPool<T>>(_ringBuffer, sequenceBarrier, _exceptionHandler, workHandlers);
         _consumerRepository->add(workerPool, sequenceBarrier);
+        _consumerRepository->unMarkEventProcessorsAsEndOfChain(barrierSequences);
 
         return std::make_shared<EventHandlerGroupType>(this->shared_from_this(), _consumerRepository, workerPool->getWorkerSequences());
     }
-- 
2.43.0


From 9d9e1bdfe94b6f8ac73c690d6a1b0a7ec2e3b0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:06 +0000
Subject: [PATCH 039/112] fix: halting an event processor before its thread
 came to run is not lost

---
 .../include/disruptor/BatchEventProcessor.hpp       | 13 +++++++++----
 src/disruptor/include/disruptor/WorkProcessor.hpp   | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/disruptor/include/disruptor/BatchEventProcessor.hpp b/src/disruptor/include/disruptor/BatchEventProcessor.hpp
index b857e96..950cf87 100644
--- a/src/disruptor/include/disruptor/BatchEventProcessor.hpp
+++ b/src/disruptor/include/disruptor/BatchEventProcessor.hpp
@@ -24,6 +24,7 @@ template<typename T>
 class BatchEventProcessor : public IEventProcessor {
 private:
     std::atomic<bool>                     _running{ false };
+    std::atomic<bool>                     _haltRequested{ false };
     std::shared_ptr<EventStore<T>>        _dataProvider;
     EventStore<T>                        &_dataProviderRef;
     std::shared_ptr<ISequenceBarrier>     _sequenceBarrier;
@@ -74,7 +75,7 @@ public:
      * \see ISequenceBarrier::Alert
      */
     void halt() override {
-        _running = false;
+        _haltRequested = true;
         _sequenceBarrier->alert();
     }
 
@@ -82,7 +83,7 @@ public:
      * \see IEventProcessor::IsRunning
      */
     bool isRunning() const override {
-        return _running;
+        return _running && !_haltRequested;
     }
 
     /**
@@ -106,6 +107,9 @@ public:
         }
 
         _sequenceBarrierRef.clearAlert();
+        if (_haltRequested) { // before this thread came to run -> keep the alert
+            _sequenceBarrierRef.alert();
+        }
 
         notifyStart();
 
@@ -127,7 +131,7 @@ public:
             } catch (const TimeoutException &) {
                 notifyTimeout(_sequenceRef.value());
             } catch (const AlertException &) {
-                if (_running == false) {
+                if (_haltRequested) {
                     break;
                 }
             } catch (const std::exception &ex) {
@@ -138,7 +142,8 @@ public:
         }
 
         notifyShutdown();
-        _running = false;
+        _haltRequested = false;
+        _running       = false;
     }
 
 private:
diff --git a/src/disruptor/include/disruptor/WorkProcessor.hpp b/src/disruptor/include/disruptor/WorkProcessor.hpp
index 0ae3a70..51704ab 100644
--- a/src/disruptor/include/disruptor/WorkProcessor.hpp
+++ b/src/disruptor/include/disruptor/WorkProcessor.hpp
@@ -31,6 +31,7 @@ private:
     struct PrivateKey {};
 
     std::atomic<std::int32_t>             _running{ 0 };
+    std::atomic<bool>                     _haltRequested{ false };
     std::shared_ptr<Sequence>             _sequence = std::make_shared<Sequence>();
     std::shared_ptr<EventStore<T>>        _ringBuffer;
     std::shared_ptr<ISequenceBarrier>     _sequenceBarrier;
@@ -98,11 +99,11 @@ public:
      * Signal that this IEventProcessor should stop when it has finished consuming at the next clean break. It will call ISequenceBarrier::alert() to notify the thread to check status.
      */
     void halt() override {
-        _running = 0;
+        _haltRequested = true;
         _sequenceBarrier->alert();
     }
 
-    [[nodiscard]] bool isRunning() const override { return _running == 1; }
+    [[nodiscard]] bool isRunning() const override { return _running == 1 && !_haltRequested; }
 
     /**
      * It is ok to have another thread re-run this method after a halt().
@@ -112,6 +113,9 @@ public:
             throw std::logic_error("Thread is already running");
         }
         _sequenceBarrier->clearAlert();
+        if (_haltRequested) { // before this thread came to run -> keep the alert
+            _sequenceBarrier->alert();
+        }
 
         notifyStart();
 
@@ -141,7 +145,7 @@ public:
             } catch (const TimeoutException &) {
                 notifyTimeout(_sequence->value());
             } catch (const AlertException &) {
-                if (_running == 0) {
+                if (_haltRequested) {
                     break;
                 }
             } catch (std::exception &ex) {
@@ -152,7 +156,8 @@ public:
 
         notifyShutdown();
 
-        _running = 0;
+        _haltRequested = false;
+        _running       = 0;
     }
 
 private:
-- 
2.43.0


From b531c1c08f5cb1aae2dcad3903dc46a391c1a5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:32 +0000
Subject: [PATCH 040/112] fix: an event processor that ended with an exception
 is not running

---
 .../include/disruptor/BatchEventProcessor.hpp        | 11 +++++++++--
 src/disruptor/include/disruptor/WorkProcessor.hpp    | 12 +++++++++---
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/disruptor/include/disruptor/BatchEventProcessor.hpp b/src/disruptor/include/disruptor/BatchEventProcessor.hpp
index 950cf87..9356ed6 100644
--- a/src/disruptor/include/disruptor/BatchEventProcessor.hpp
+++ b/src/disruptor/include/disruptor/BatchEventProcessor.hpp
@@ -105,6 +105,7 @@ public:
         if (_running.exchange(true)) {
             throw std::runtime_error("Thread is already running");
         }
+        const ResetOnExit resetOnExit{ *this }; // N.B. also if the exception handler throws
 
         _sequenceBarrierRef.clearAlert();
         if (_haltRequested) { // before this thread came to run -> keep the alert
@@ -142,11 +143,17 @@ public:
         }
 
         notifyShutdown();
-        _haltRequested = false;
-        _running       = false;
     }
 
 private:
+    struct ResetOnExit {
+        BatchEventProcessor &processor;
+        ~ResetOnExit() {
+            processor._haltRequested = false;
+            processor._running       = false;
+        }
+    };
+
     void notifyTimeout(std::int64_t availableSequence) const {
         try {
             if (_timeoutHandler)
diff --git a/src/disruptor/include/disruptor/WorkProcessor.hpp b/src/disruptor/include/disruptor/WorkProcessor.hpp
index 51704ab..7a4fb1c 100644
--- a/src/disruptor/include/disruptor/WorkProcessor.hpp
+++ b/src/disruptor/include/disruptor/WorkProcessor.hpp
@@ -112,6 +112,7 @@ public:
         if (std::atomic_exchange(&_running, 1) != 0) {
             throw std::logic_error("Thread is already running");
         }
+        const ResetOnExit resetOnExit{ *this }; // N.B. also if the exception handler throws
         _sequenceBarrier->clearAlert();
         if (_haltRequested) { // before this thread came to run -> keep the alert
             _sequenceBarrier->alert();
@@ -155,12 +156,17 @@ public:
         }
 
         notifyShutdown();
-
-        _haltRequested = false;
-        _running       = 0;
     }
 
 private:
+    struct ResetOnExit {
+        WorkProcessor &processor;
+        ~ResetOnExit() {
+            processor._haltRequested = false;
+            processor._running       = 0;
+        }
+    };
+
     void notifyTimeout(std::int64_t availableSequence) {
         try {
             if (_timeoutHandler != nullptr)
-- 
2.43.0


From 3aa213a65e0d3ab49946cb2c8f32d588dd3f41e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:37 +0000
Subject: [PATCH 041/112] fix: disruptor dependencies on event handlers did not
 compile

---
 src/disruptor/include/disruptor/ConsumerRepository.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disruptor/include/disruptor/ConsumerRepository.hpp b/src/disruptor/include/disruptor/ConsumerRepository.hpp
index 1dbf525..cde36e9 100644
--- a/src/disruptor/include/disruptor/ConsumerRepository.hpp
+++ b/src/disruptor/include/disruptor/ConsumerRepository.hpp
@@ -63,7 +63,7 @@ public:
     std::shared_ptr<IEventProcessor> getEventProcessorFor(const std::shared_ptr<IEventHandler<T>> &eventHandler) {
         auto it = _eventProcessorInfoByEventHandler.find(eventHandler);
         if (it == _eventProcessorInfoByEventHandler.end() || it->second == nullptr) {
-            throw std::invalid_argument(std::format("The event handler {} is not processing events.", eventHandler));
+            throw std::invalid_argument(std::format("The event handler {} is not processing events.", static_cast<const void *>(eventHandler.get())));
         }
 
         auto &&eventProcessorInfo = it->second;
-- 
2.43.0


From 1b66cf2a3e4d6a82995a9b6076f878c62bd4dbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:23 +0000
Subject: [PATCH 042/112] fix: overflow of the time when a disruptor is shut
 down without timeout

---
 src/disruptor/include/disruptor/Disruptor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disruptor/include/disruptor/Disruptor.hpp b/src/disruptor/include/disruptor/Disruptor.hpp
index b993433..7682b90 100644
--- a/src/disruptor/include/disruptor/Disruptor.hpp
+++ b/src/disruptor/include/disruptor/Disruptor.hpp
@@ -301,7 +301,7 @@ public:
     void shutdown(Duration timeout) {
         const auto waitInfinitely = timeout == Duration::max();
 
-        const auto timeoutAt      = Clock::now() + timeout;
+        const auto timeoutAt      = waitInfinitely ? Clock::now() : Clock::now() + timeout;
         while (hasBacklog()) {
             if (!waitInfinitely && timeout.count() >= 0 && Clock::now() > timeoutAt)
                 throw std::runtime_error("timeout encountered during shutdown");
-- 
2.43.0


From fb5228d36c4263c3b53d24e338a32c6683179d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:51 +0000
Subject: [PATCH 043/112] fix: swapping and moving an IoBuffer keeps memory
 with its allocator and leaves the source empty

---
 src/serialiser/include/IoBuffer.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/serialiser/include/IoBuffer.hpp b/src/serialiser/include/IoBuffer.hpp
index 305341b..7998f77 100644
--- a/src/serialiser/include/IoBuffer.hpp
+++ b/src/serialiser/include/IoBuffer.hpp
@@ -269,15 +269,21 @@ public:
     [[nodiscard]] IoBuffer(IoBuffer &&other) noexcept
         : _allocator(other._allocator.resource())
         , _buffer(std::exchange(other._buffer, nullptr))
-        , _position(other._position)
-        , _size(other._size)
-        , _capacity(other._capacity) {}
+        , _position(std::exchange(other._position, 0LU))
+        , _size(std::exchange(other._size, 0LU))
+        , _capacity(std::exchange(other._capacity, 0LU)) {}
 
     constexpr ~IoBuffer() {
         freeInternalBuffer();
     }
 
     constexpr void swap(IoBuffer &other) {
+        // N.B. the memory has to stay with the allocator it came from, polymorphic allocators are not assignable
+        const Allocator allocator(_allocator.resource());
+        std::destroy_at(&_allocator);
+        std::construct_at(&_allocator, other._allocator.resource());
+        std::destroy_at(&other._allocator);
+        std::construct_at(&other._allocator, allocator.resource());
         std::swap(_position, other._position);
         std::swap(_size, other._size);
         std::swap(_capacity, other._capacity);
-- 
2.43.0


From 831aea252307ff2790487fcd2dd2fdb3fb61f8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:32 +0000
Subject: [PATCH 044/112] fix: reading beyond the end of an IoBuffer is refused

---
 src/serialiser/include/IoBuffer.hpp           | 52 +++++++++++++------
 .../include/IoSerialiserCmwLight.hpp          | 10 ++--
 src/serialiser/include/IoSerialiserYaS.hpp    | 10 ++--
 3 files changed, 45 insertions(+), 27 deletions(-)

diff --git a/src/serialiser/include/IoBuffer.hpp b/src/serialiser/include/IoBuffer.hpp
index 7998f77..1a05802 100644
--- a/src/serialiser/include/IoBuffer.hpp
+++ b/src/serialiser/include/IoBuffer.hpp
@@ -204,8 +204,20 @@ private:
         }
     }
 
-    std::string_view extractStringView() const noexcept {
-        const auto strLength = static_cast<std::size_t>(swapEndian(get<int32_t>()) - 1);
+    /// wire data is not trusted: values which are not completely contained in the buffer are refused
+    OPENCMW_FORCEINLINE constexpr void checkAvailable(const std::size_t nElements, const std::size_t elementSize) const {
+        if (_position > _size || nElements > (_size - _position) / elementSize) {
+            throw std::out_of_range(std::format("requested {} x {} bytes at position {} are out-of-range [0,{}]", nElements, elementSize, _position, _size));
+        }
+    }
+
+    std::string_view extractStringView() const {
+        const auto wireLength = swapEndian(get<int32_t>());
+        if (wireLength <= 0) {
+            throw std::out_of_range(std::format("invalid string length {} at position {}", wireLength, _position));
+        }
+        checkAvailable(static_cast<std::size_t>(wireLength), 1LU);
+        const auto strLength = static_cast<std::size_t>(wireLength - 1);
         auto       start     = reinterpret_cast<const char *>(_buffer + _position);
         _position += strLength + 1LU; // +1 for the zero-terminating byte
         return { start, strLength };
@@ -330,7 +342,7 @@ public:
     template<typename R, bool checkRange = true>
     OPENCMW_FORCEINLINE constexpr R &at(const size_t index) noexcept(!checkRange) {
         if constexpr (checkRange) {
-            if (index >= _size) {
+            if (index >= _size || sizeof(R) > _size - index) {
                 throw std::out_of_range(std::format("requested index {} is out-of-range [0,{}]", index, _size));
             }
         }
@@ -420,8 +432,9 @@ public:
     }
 
     template<typename R, typename RawType = std::remove_cvref_t<R>>
-    [[nodiscard]] OPENCMW_FORCEINLINE constexpr R get() const noexcept {
+    [[nodiscard]] OPENCMW_FORCEINLINE constexpr R get() const {
         if constexpr (Number<R>) {
+            checkAvailable(1LU, sizeof(R));
             const std::size_t localPosition = _position;
             _position += sizeof(R);
             R value;
@@ -436,21 +449,26 @@ public:
         }
     }
 
-    template<ArrayOrVector Container, bool checkRange = false>
-    OPENCMW_FORCEINLINE constexpr Container &getArray(Container &input, const std::size_t requestedSize = SIZE_MAX) const noexcept(!checkRange) {
+    template<ArrayOrVector Container>
+    OPENCMW_FORCEINLINE constexpr Container &getArray(Container &input, const std::size_t requestedSize = SIZE_MAX) const {
         using R                        = Container::value_type;
-        const auto        arraySize    = std::min(static_cast<std::size_t>(get<int32_t>()), _size - _position);
-        const std::size_t minArraySize = std::min(arraySize, requestedSize);
+        const auto        wireSize     = get<int32_t>();
+        if (wireSize < 0) {
+            throw std::out_of_range(std::format("invalid array size {} at position {}", wireSize, _position));
+        }
+        if constexpr (StringLike<R>) {
+            checkAvailable(static_cast<std::size_t>(wireSize), sizeof(int32_t) + sizeof(char));
+        } else {
+            checkAvailable(static_cast<std::size_t>(wireSize), sizeof(R));
+        }
+        const std::size_t minArraySize = std::min(static_cast<std::size_t>(wireSize), requestedSize);
 
         if constexpr (opencmw::is_vector<Container>) {
             input.resize(minArraySize);
         } else if constexpr (opencmw::is_array<Container>) {
-            if constexpr (checkRange) {
-                if (std::tuple_size_v<Container> < minArraySize) {
-                    throw std::out_of_range(std::format("std::array<SupportedType, size = {}> wire-format size does not match design {}", std::tuple_size_v<Container>, minArraySize));
-                }
+            if (std::tuple_size_v<Container> < minArraySize) {
+                throw std::out_of_range(std::format("std::array<SupportedType, size = {}> wire-format size does not match design {}", std::tuple_size_v<Container>, minArraySize));
             }
-            assert(std::tuple_size_v<Container> >= minArraySize && "std::array<SupportedType, size> wire-format size does not match design");
         }
 
         if constexpr (std::is_trivially_copyable_v<R> && !std::is_same_v<R, bool> && !opencmw::StringLike<R>) {
@@ -466,14 +484,14 @@ public:
     }
 
     template<SupportedType R>
-    OPENCMW_FORCEINLINE constexpr std::vector<R> getArray(std::vector<R> &&input = std::vector<R>(), const std::size_t requestedSize = SIZE_MAX) noexcept { return getArray(input, requestedSize); }
+    OPENCMW_FORCEINLINE constexpr std::vector<R> getArray(std::vector<R> &&input = std::vector<R>(), const std::size_t requestedSize = SIZE_MAX) { return getArray(input, requestedSize); }
     template<SupportedType R, std::size_t size>
-    [[maybe_unused]] OPENCMW_FORCEINLINE constexpr std::array<R, size> getArray(std::array<R, size> &&input = std::array<R, size>(), const std::size_t requestedSize = size) noexcept { return getArray(input, requestedSize); }
+    [[maybe_unused]] OPENCMW_FORCEINLINE constexpr std::array<R, size> getArray(std::array<R, size> &&input = std::array<R, size>(), const std::size_t requestedSize = size) { return getArray(input, requestedSize); }
 
     template<StringArray R, typename T = typename R::value_type>
-    [[nodiscard]] OPENCMW_FORCEINLINE constexpr R &get(R &input, const std::size_t requestedSize = SIZE_MAX) noexcept { return getArray(input, requestedSize); }
+    [[nodiscard]] OPENCMW_FORCEINLINE constexpr R &get(R &input, const std::size_t requestedSize = SIZE_MAX) { return getArray(input, requestedSize); }
     template<StringArray R, typename T = typename R::value_type>
-    [[nodiscard]] OPENCMW_FORCEINLINE constexpr R get(R &&input = R(), const std::size_t requestedSize = SIZE_MAX) noexcept { return getArray(std::forward<R>(input), requestedSize); }
+    [[nodiscard]] OPENCMW_FORCEINLINE constexpr R get(R &&input = R(), const std::size_t requestedSize = SIZE_MAX) { return getArray(std::forward<R>(input), requestedSize); }
 };
 
 } // namespace opencmw
diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index 0809df6..1989ca9 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -83,7 +83,7 @@ struct IoSerialiser<CmwLight, T> {
         buffer.put(value);
     }
 
-    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) noexcept {
+    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) {
         value = buffer.get<T>();
     }
 };
@@ -96,7 +96,7 @@ struct IoSerialiser<CmwLight, T> {
         buffer.put(value);
     }
 
-    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) noexcept {
+    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) {
         value = buffer.get<T>();
     }
 };
@@ -127,7 +127,7 @@ struct IoSerialiser<CmwLight, T> {
         buffer.put(value);
     }
 
-    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) noexcept {
+    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) {
         const int nx = buffer.get<int32_t>();
         const int ny = buffer.get<int32_t>();
         buffer.getArray(value, nx * ny);
@@ -179,7 +179,7 @@ struct IoSerialiser<CmwLight, T> {
         buffer.put(value.elements()); // todo: account for strides and offsets (possibly use iterators?)
     }
 
-    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) noexcept {
+    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) {
         const std::array<int32_t, T::n_dims_> dimWire = buffer.getArray<int32_t, T::n_dims_>();
         for (auto i = 0U; i < T::n_dims_; i++) {
             value.dimensions()[i] = static_cast<T::size_t_>(dimWire[i]);
@@ -227,7 +227,7 @@ struct IoSerialiser<CmwLight, std::set<MemberType>> {
         }
     }
 
-    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const &field, std::set<MemberType> &value) noexcept {
+    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const &field, std::set<MemberType> &value) {
         value.clear();
         auto n_elems = buffer.get<int32_t>();
         for (int i = 0; i < n_elems; i++) {
diff --git a/src/serialiser/include/IoSerialiserYaS.hpp b/src/serialiser/include/IoSerialiserYaS.hpp
index 3896885..0e1ccfe 100644
--- a/src/serialiser/include/IoSerialiserYaS.hpp
+++ b/src/serialiser/include/IoSerialiserYaS.hpp
@@ -84,7 +84,7 @@ struct IoSerialiser<YaS, T> {
     OPENCMW_FORCEINLINE constexpr static void    serialise(IoBuffer &buffer, FieldDescription auto const    &/*field*/, const T &value) noexcept {
         buffer.put(value);
     }
-    OPENCMW_FORCEINLINE constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) noexcept {
+    OPENCMW_FORCEINLINE constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) {
         value = buffer.get<T>();
     }
 };
@@ -95,7 +95,7 @@ struct IoSerialiser<YaS, T> {
     OPENCMW_FORCEINLINE constexpr static void    serialise(IoBuffer &buffer, FieldDescription auto const    &/*field*/, const T &value) noexcept {
         buffer.put<opencmw::IoBuffer::MetaInfo::WITH, T>(value); // N.B. ensure that the wrapped value and not the annotation itself is serialised
     }
-    OPENCMW_FORCEINLINE constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) noexcept {
+    OPENCMW_FORCEINLINE constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) {
         value = buffer.get<std::string>();
     }
 };
@@ -107,7 +107,7 @@ struct IoSerialiser<YaS, T> {
         buffer.put(std::array<int32_t, 1>{ static_cast<int32_t>(value.size()) });
         buffer.put(value);
     }
-    OPENCMW_FORCEINLINE constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) noexcept {
+    OPENCMW_FORCEINLINE constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) {
         buffer.getArray<int32_t, 1>();
         buffer.getArray(value);
     }
@@ -126,7 +126,7 @@ struct IoSerialiser<YaS, T> {
         buffer.put(dims);
         buffer.put(value.elements()); // todo: account for strides and offsets (possibly use iterators?)
     }
-    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) noexcept {
+    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) {
         const std::array<int32_t, T::n_dims_> dimWire = buffer.getArray<int32_t, T::n_dims_>();
         for (auto i = 0U; i < T::n_dims_; i++) {
             value.dimensions()[i] = static_cast<typename T::size_t_>(dimWire[i]);
@@ -155,7 +155,7 @@ struct IoSerialiser<YaS, std::set<V>> {
             buffer.put(v);
         }
     }
-    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, std::set<V> &value) noexcept {
+    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, std::set<V> &value) {
         auto           size = buffer.getArray<int32_t, 1>();
         std::vector<V> data{ size[0] };
         buffer.getArray(data, static_cast<size_t>(size[0]));
-- 
2.43.0


From 2a1055a3b0ef5286e97a0e9c0ffffdf06d126a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:48 +0000
Subject: [PATCH 045/112] fix: multi-array dimensions received from the wire
 have to match the elements

---
 src/serialiser/include/IoSerialiser.hpp       | 21 +++++++++++++++++++
 .../include/IoSerialiserCmwLight.hpp          | 15 +++----------
 src/serialiser/include/IoSerialiserJson.hpp   | 15 +++----------
 src/serialiser/include/IoSerialiserYaS.hpp    | 15 +++----------
 4 files changed, 30 insertions(+), 36 deletions(-)

diff --git a/src/serialiser/include/IoSerialiser.hpp b/src/serialiser/include/IoSerialiser.hpp
index 570460f..5d7011a 100644
--- a/src/serialiser/include/IoSerialiser.hpp
+++ b/src/serialiser/include/IoSerialiser.hpp
@@ -165,6 +165,27 @@ OPENCMW_FORCEINLINE int32_t findMemberIndex(const std::string_view &fieldName) n
 
 namespace detail {
 
+/// takes over dimensions and elements received from the wire, N.B. these are not trusted to match
+template<MultiArrayType T>
+constexpr void assignMultiArray(T &value, const std::array<int32_t, T::n_dims_> &dimensions, std::vector<typename T::value_type> &&elements) {
+    std::array<typename T::size_t_, T::n_dims_> dims{};
+    uint64_t                                    elementCount = 1U;
+    for (std::size_t i = 0U; i < T::n_dims_; i++) {
+        if (dimensions[i] < 0) {
+            throw ProtocolException("invalid multi-array dimension {}", dimensions[i]);
+        }
+        dims[i] = static_cast<typename T::size_t_>(dimensions[i]);
+        elementCount *= dims[i];
+        if (elementCount > std::numeric_limits<int32_t>::max()) {
+            throw ProtocolException("multi-array dimensions {} exceed the number of elements {}", dims, elements.size());
+        }
+    }
+    if (elementCount != elements.size()) {
+        throw ProtocolException("multi-array dimensions {} do not match the number of elements {}", dims, elements.size());
+    }
+    value = T(std::move(elements), std::move(dims));
+}
+
 template<ReflectableClass T>
 constexpr int16_t getNumberOfNonNullSubfields(const T &value) {
     int16_t fields = 0;
diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index 1989ca9..5c64ca6 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -181,18 +181,9 @@ struct IoSerialiser<CmwLight, T> {
 
     constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) {
         const std::array<int32_t, T::n_dims_> dimWire = buffer.getArray<int32_t, T::n_dims_>();
-        for (auto i = 0U; i < T::n_dims_; i++) {
-            value.dimensions()[i] = static_cast<T::size_t_>(dimWire[i]);
-        }
-        value.element_count()        = value.dimensions()[T::n_dims_ - 1];
-        value.stride(T::n_dims_ - 1) = 1;
-        value.offset(T::n_dims_ - 1) = 0;
-        for (auto i = T::n_dims_ - 1; i > 0; i--) {
-            value.element_count() *= value.dimensions()[i - 1];
-            value.stride(i - 1) = value.stride(i) * value.dimensions()[i];
-            value.offset(i - 1) = 0;
-        }
-        buffer.getArray(value.elements());
+        std::vector<typename T::value_type> elements;
+        buffer.getArray(elements);
+        detail::assignMultiArray(value, dimWire, std::move(elements));
     }
 };
 
diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index a99220b..2c1116e 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -517,26 +517,17 @@ struct IoSerialiser<Json, T> {
         }
         std::array<int32_t, T::n_dims_> dimWire;
         IoSerialiser<Json, std::array<int32_t, T::n_dims_>>::deserialise(buffer, fieldHeader, dimWire);
-        for (auto i = 0U; i < T::n_dims_; i++) {
-            value.dimensions()[i] = static_cast<T::size_t_>(dimWire[i]);
-        }
-        value.element_count()        = value.dimensions()[T::n_dims_ - 1];
-        value.stride(T::n_dims_ - 1) = 1;
-        value.offset(T::n_dims_ - 1) = 0;
-        for (auto i = T::n_dims_ - 1; i > 0; i--) {
-            value.element_count() *= value.dimensions()[i - 1];
-            value.stride(i - 1) = value.stride(i) * value.dimensions()[i];
-            value.offset(i - 1) = 0;
-        }
         FieldHeaderReader<Json>::get<ProtocolCheck::ALWAYS>(buffer, info, fieldHeader);
         if (fieldHeader.intDataType != IoSerialiser<Json, std::vector<V>>::getDataTypeId() || fieldHeader.fieldName != "values"sv) {
             throw ProtocolException("expected multi-array values");
         }
-        IoSerialiser<Json, std::vector<V>>::deserialise(buffer, fieldHeader, value.elements());
+        std::vector<V> elements;
+        IoSerialiser<Json, std::vector<V>>::deserialise(buffer, fieldHeader, elements);
         FieldHeaderReader<Json>::get<ProtocolCheck::ALWAYS>(buffer, info, fieldHeader);
         if (fieldHeader.intDataType != IoSerialiser<Json, END_MARKER>::getDataTypeId()) {
             throw ProtocolException("expected end marker");
         }
+        detail::assignMultiArray(value, dimWire, std::move(elements));
     }
 };
 
diff --git a/src/serialiser/include/IoSerialiserYaS.hpp b/src/serialiser/include/IoSerialiserYaS.hpp
index 0e1ccfe..316c9a6 100644
--- a/src/serialiser/include/IoSerialiserYaS.hpp
+++ b/src/serialiser/include/IoSerialiserYaS.hpp
@@ -128,18 +128,9 @@ struct IoSerialiser<YaS, T> {
     }
     constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) {
         const std::array<int32_t, T::n_dims_> dimWire = buffer.getArray<int32_t, T::n_dims_>();
-        for (auto i = 0U; i < T::n_dims_; i++) {
-            value.dimensions()[i] = static_cast<typename T::size_t_>(dimWire[i]);
-        }
-        value.element_count()        = value.dimensions()[T::n_dims_ - 1];
-        value.stride(T::n_dims_ - 1) = 1;
-        value.offset(T::n_dims_ - 1) = 0;
-        for (auto i = T::n_dims_ - 1; i > 0; i--) {
-            value.element_count() *= value.dimensions()[i - 1];
-            value.stride(i - 1) = value.stride(i) * value.dimensions()[i];
-            value.offset(i - 1) = 0;
-        }
-        buffer.getArray(value.elements());
+        std::vector<typename T::value_type> elements;
+        buffer.getArray(elements);
+        detail::assignMultiArray(value, dimWire, std::move(elements));
     }
 };
 
-- 
2.43.0


From 4105593f57803af0adcf350342c879aa3c5f1b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:48 +0000
Subject: [PATCH 046/112] fix: YaS field headers, sets and maps received from
 the wire are validated

---
 src/serialiser/include/IoSerialiserYaS.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserYaS.hpp b/src/serialiser/include/IoSerialiserYaS.hpp
index 316c9a6..509a167 100644
--- a/src/serialiser/include/IoSerialiserYaS.hpp
+++ b/src/serialiser/include/IoSerialiserYaS.hpp
@@ -148,7 +148,7 @@ struct IoSerialiser<YaS, std::set<V>> {
     }
     constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, std::set<V> &value) {
         auto           size = buffer.getArray<int32_t, 1>();
-        std::vector<V> data{ size[0] };
+        std::vector<V> data;
         buffer.getArray(data, static_cast<size_t>(size[0]));
         value.clear();
         std::copy(data.begin(), data.end(), std::inserter(value, value.begin()));
@@ -207,7 +207,6 @@ struct IoSerialiser<YaS, T> {
 
         const auto     keyType   = buffer.get<uint8_t>();
         std::vector<K> keys;
-        keys.reserve(nElements);
         if constexpr (is_supported_number<K> || is_stringlike<K>) {
             if (yas::getDataTypeId<K>() != keyType) {
                 throw ProtocolException("key type mismatch for field {} - required {} ({}) vs. have {}", field.fieldName, yas::getDataTypeId<K>(), typeid(K).name(), keyType);
@@ -242,14 +241,19 @@ struct IoSerialiser<YaS, T> {
         } else if (valueType == yas::getDataTypeId<OTHER>()) {
             std::string value_type_name           = buffer.get<std::string>();
             std::string value_type_name_secondary = buffer.get<std::string>();
-            auto        value_elements            = static_cast<std::size_t>(buffer.get<int32_t>());
+            const auto  value_elements            = static_cast<uint32_t>(buffer.get<int32_t>());
+            if (nElements != value_elements) {
+                throw ProtocolException("value array length mismatch for field {} - required {} vs. have {}", field.fieldName, nElements, value_elements);
+            }
+            value.clear();
             for (std::size_t i = 0; i < value_elements; i++) {
+                const std::string     subfieldName = std::format("{}[{}]", field.fieldName, i);
                 FieldDescriptionShort subfield{
                     .headerStart       = buffer.position(),
                     .dataStartPosition = buffer.position(),
                     .dataEndPosition   = 0U,
                     .subfields         = 0,
-                    .fieldName         = std::format("{}[{}]", field.fieldName, i),
+                    .fieldName         = subfieldName,
                     .intDataType       = IoSerialiser<YaS, V>::getDataTypeId(),
                     .hierarchyDepth    = static_cast<uint8_t>(field.hierarchyDepth + 1),
                 };
@@ -378,6 +382,9 @@ struct FieldHeaderReader<YaS> {
         const auto dataStartOffset = static_cast<uint64_t>(buffer.get<int32_t>());
         const auto dataSize        = static_cast<uint64_t>(buffer.get<int32_t>());
         result.fieldName           = buffer.get<std::string_view>(); // full field name
+        if (dataStartOffset < buffer.position() - result.headerStart || dataStartOffset > buffer.size() - result.headerStart || dataSize > buffer.size() - result.headerStart - dataStartOffset) { // N.B. covers also negative values
+            throw ProtocolException("illegal field header {} at position {}: data offset {} and size {} vs. buffer size {}", result.fieldName, result.headerStart, dataStartOffset, dataSize, buffer.size());
+        }
         result.dataStartPosition   = result.headerStart + dataStartOffset;
         result.dataEndPosition     = result.headerStart + dataStartOffset + dataSize;
         // the following information is optional
-- 
2.43.0


From e40c8f08507899a3758b69b893b6c40fc45f0c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:48 +0000
Subject: [PATCH 047/112] fix: fields which are not taken over are skipped also
 by formats without field size

---
 src/serialiser/include/IoSerialiser.hpp | 35 ++++++++++++++-----------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/serialiser/include/IoSerialiser.hpp b/src/serialiser/include/IoSerialiser.hpp
index 5d7011a..9a067f4 100644
--- a/src/serialiser/include/IoSerialiser.hpp
+++ b/src/serialiser/include/IoSerialiser.hpp
@@ -271,6 +271,20 @@ OPENCMW_FORCEINLINE void moveToFieldEndBufferPosition(IoBuffer &buffer, const Fi
     }
 }
 
+template<SerialiserProtocol protocol>
+constexpr void skipField(IoBuffer &buffer, const FieldDescriptionLong &field) {
+    if (field.dataEndPosition != std::numeric_limits<size_t>::max()) {
+        moveToFieldEndBufferPosition(buffer, field);
+    } else { // use deserialise OTHER to continue parsing the data just to skip it for formats which do not include the field size in the header
+        if constexpr (requires { IoSerialiser<protocol, OTHER>::deserialise(buffer, field, OTHER_INST); }) {
+            if (field.intDataType == IoSerialiser<protocol, START_MARKER>::getDataTypeId()) {
+                buffer.set_position(field.dataStartPosition - 1); // reset buffer position for the nested deserialiser to read again
+            }
+            IoSerialiser<protocol, OTHER>::deserialise(buffer, field, OTHER_INST);
+        }
+    }
+}
+
 template<ProtocolCheck check, typename... ErrorArgs>
 neverinline constexpr void handleDeserialisationError(DeserialiserInfo &info, std::format_string<ErrorArgs...> errorFormat, ErrorArgs &&...errorArgs) noexcept(check != ProtocolCheck::ALWAYS) {
     const auto text = std::format(errorFormat, std::forward<ErrorArgs>(errorArgs)...);
@@ -342,16 +356,7 @@ constexpr void deserialise(IoBuffer &buffer, ReflectableClass auto &value, Deser
                 handleDeserialisationError<check>(info, "missing field (type:{}) {}::{} at buffer[{}, size:{}]", field.intDataType, parent.fieldName, field.fieldName, buffer.position(), buffer.size());
                 info.additionalFields.emplace_back(std::make_tuple(std::format("{}::{}", parent.fieldName, field.fieldName), field.intDataType));
             }
-            if (field.dataEndPosition != std::numeric_limits<size_t>::max()) {
-                moveToFieldEndBufferPosition(buffer, field);
-            } else { // use deserialise OTHER to continue parsing the data just to skip it for formats which do not include the field size in the header
-                if constexpr (requires { IoSerialiser<protocol, OTHER>::deserialise(buffer, field, OTHER_INST); }) {
-                    if (field.intDataType == IoSerialiser<protocol, START_MARKER>::getDataTypeId()) {
-                        buffer.set_position(field.dataStartPosition - 1); // reset buffer position for the nested deserialiser to read again
-                    }
-                    IoSerialiser<protocol, OTHER>::deserialise(buffer, field, OTHER_INST);
-                }
-            }
+            skipField<protocol>(buffer, field);
             continue;
         }
 
@@ -361,14 +366,14 @@ constexpr void deserialise(IoBuffer &buffer, ReflectableClass auto &value, Deser
 
             using MemberType = std::remove_reference_t<decltype(getAnnotatedMember(unwrapPointer(member(value))))>;
             if constexpr (!is_writable(member) || is_static(member)) {
-                moveToFieldEndBufferPosition(buffer, field);
+                skipField<protocol>(buffer, field);
                 return;
             } else if constexpr (isReflectableClass<MemberType>()) {
                 field.intDataType = IoSerialiser<protocol, START_MARKER>::getDataTypeId();
             } else {
                 constexpr int requestedType = IoSerialiser<protocol, MemberType>::getDataTypeId();
                 if (requestedType != field.intDataType && requestedType != IoSerialiser<protocol, OTHER>::getDataTypeId()) { // mismatching data-type
-                    moveToFieldEndBufferPosition(buffer, field);
+                    skipField<protocol>(buffer, field);
                     if constexpr (check == ProtocolCheck::IGNORE) {
                         return; // don't write -> skip to next
                     }
@@ -385,17 +390,17 @@ constexpr void deserialise(IoBuffer &buffer, ReflectableClass auto &value, Deser
                     }
                     if (std::string_view(unwrapPointer(member(value)).getUnit()).compare(field.unit)) { // error on unit mismatch
                         handleDeserialisationError<check>(info, "mismatched field unit for {}::{} - requested unit '{}' received '{}'", member.declarator.name, member.name, unwrapPointer(member(value)).getUnit(), field.unit);
-                        moveToFieldEndBufferPosition(buffer, field);
+                        skipField<protocol>(buffer, field);
                         return;
                     }
                     if (std::string_view(unwrapPointer(member(value)).getQuantity()).compare(field.quantity)) { // error on unit mismatch
                         handleDeserialisationError<check>(info, "mismatched field quantity for {}::{} - requested quantity '{}' received '{}'", member.declarator.name, member.name, unwrapPointer(member(value)).getQuantity(), field.quantity);
-                        moveToFieldEndBufferPosition(buffer, field);
+                        skipField<protocol>(buffer, field);
                         return;
                     }
                     if (is_readonly(unwrapPointer(member(value)).getModifier())) { // should not set field via external reference
                         handleDeserialisationError<check>(info, "mismatched field access modifier for {}::{} - requested '{}' received '{}'", member.declarator.name, member.name, (unwrapPointer(member(value)).getModifier()), field.modifier);
-                        moveToFieldEndBufferPosition(buffer, field);
+                        skipField<protocol>(buffer, field);
                         return;
                     }
                 }
-- 
2.43.0


From 55ff112463dc431409a0d6b2ea971e27ec63dc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:32 +0000
Subject: [PATCH 048/112] fix: array sizes in CmwLight data received from the
 wire are validated

---
 .../include/IoSerialiserCmwLight.hpp          | 25 +++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index 5c64ca6..54b7b9c 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -17,6 +17,13 @@ namespace cmwlight {
 
 void skipString(IoBuffer &buffer);
 
+inline void skipElements(IoBuffer &buffer, const int32_t nElements, const std::size_t elementSize) {
+    if (nElements < 0 || static_cast<std::size_t>(nElements) > (buffer.size() - buffer.position()) / elementSize) {
+        throw ProtocolException("cannot skip {} elements of size {} at position {} of {}", nElements, elementSize, buffer.position(), buffer.size());
+    }
+    buffer.set_position(buffer.position() + static_cast<std::size_t>(nElements) * elementSize);
+}
+
 template<typename T>
 void skipRawArray(IoBuffer &buffer) {
     if constexpr (is_stringlike<T>) {
@@ -24,7 +31,7 @@ void skipRawArray(IoBuffer &buffer) {
             skipString(buffer);
         }
     } else {
-        buffer.skip(buffer.get<int32_t>() * static_cast<int32_t>(sizeof(T)));
+        skipElements(buffer, buffer.get<int32_t>(), sizeof(T));
     }
 }
 
@@ -38,8 +45,8 @@ inline void skipString(IoBuffer &buffer) { skipRawArray<char>(buffer); }
 
 template<typename T>
 void skipMultiArray(IoBuffer &buffer) {
-    buffer.skip(buffer.get<int32_t>() * static_cast<int32_t>(sizeof(int32_t))); // skip size header
-    skipRawArray<T>(buffer);                                                      // skip elements
+    skipElements(buffer, buffer.get<int32_t>(), sizeof(int32_t)); // skip size header
+    skipRawArray<T>(buffer);                                      // skip elements
 }
 
 template<typename T>
@@ -128,9 +135,12 @@ struct IoSerialiser<CmwLight, T> {
     }
 
     constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) {
-        const int nx = buffer.get<int32_t>();
-        const int ny = buffer.get<int32_t>();
-        buffer.getArray(value, nx * ny);
+        const auto nx = static_cast<int64_t>(buffer.get<int32_t>());
+        const auto ny = static_cast<int64_t>(buffer.get<int32_t>());
+        if (nx < 0 || ny < 0) {
+            throw ProtocolException("illegal array dimensions {} x {}", nx, ny);
+        }
+        buffer.getArray(value, static_cast<std::size_t>(nx * ny));
     }
 };
 
@@ -223,12 +233,13 @@ struct IoSerialiser<CmwLight, std::set<MemberType>> {
         auto n_elems = buffer.get<int32_t>();
         for (int i = 0; i < n_elems; i++) {
             MemberType            v;
+            const std::string     subfieldName = std::format("{}[{}]", field.fieldName, i);
             FieldDescriptionShort subfield{
                 .headerStart       = buffer.position(),
                 .dataStartPosition = buffer.position(),
                 .dataEndPosition   = 0U,
                 .subfields         = 0,
-                .fieldName         = std::format("{}[{}]", field.fieldName, i),
+                .fieldName         = subfieldName,
                 .intDataType       = IoSerialiser<CmwLight, MemberType>::getDataTypeId(),
                 .hierarchyDepth    = static_cast<uint8_t>(field.hierarchyDepth + 1),
             };
-- 
2.43.0


From 33e5544d18a533628c6fbe26a30895078c686904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:32 +0000
Subject: [PATCH 049/112] fix: unknown nested structures and maps in CmwLight
 data are skipped

---
 src/serialiser/include/IoSerialiserCmwLight.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index 54b7b9c..74b1a72 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -319,6 +319,21 @@ struct IoSerialiser<CmwLight, OTHER> {
         else if (typeId == getTypeIdMultiArray<char       , 2>() || typeId == getTypeIdMultiArray<char       , 3>()) { skipMultiArray<char       >(buffer); }
         else if (typeId == getTypeIdMultiArray<std::string, 2>() || typeId == getTypeIdMultiArray<std::string, 3>()) { skipMultiArray<std::string>(buffer); }
         // nested
+        else if (typeId == getTypeId<START_MARKER>()) {
+            constexpr uint8_t MAX_HIERARCHY_DEPTH = 250U;
+            if (field.hierarchyDepth >= MAX_HIERARCHY_DEPTH) {
+                throw ProtocolException("nested data exceeds the maximum hierarchy depth {}", MAX_HIERARCHY_DEPTH);
+            }
+            buffer.set_position(field.dataStartPosition);
+            for (auto i = buffer.get<int32_t>(); i > 0; i--) {
+                FieldDescriptionShort subField;
+                subField.hierarchyDepth    = static_cast<uint8_t>(field.hierarchyDepth + 1U);
+                subField.fieldName         = buffer.get<std::string_view>();
+                subField.intDataType       = buffer.get<uint8_t>();
+                subField.dataStartPosition = buffer.position();
+                deserialise(buffer, subField, OTHER_INST);
+            }
+        }
         // unsupported
         else { throw ProtocolException(std::format("Skipping data type {} is not supported", typeId)); }
         // clang-format on
-- 
2.43.0


From a2647a85809af5a80326c50f23502d338f342939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:32 +0000
Subject: [PATCH 050/112] fix: a CmwLight map does not disturb the fields that
 follow it

---
 src/serialiser/include/IoSerialiserCmwLight.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index 74b1a72..e3fb88a 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -462,11 +462,12 @@ struct IoSerialiser<CmwLight, std::map<std::string, ValueType>> {
         }
     }
 
-    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto &parent, std::map<std::string, ValueType> &value) {
+    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const &parent, std::map<std::string, ValueType> &value) {
         using protocol         = CmwLight;
         constexpr auto   check = ProtocolCheck::IGNORE;
-        IoSerialiser<protocol, START_MARKER>::deserialise(buffer, parent, START_MARKER_INST);
-        auto             field = detail::newFieldHeader<CmwLight, true>(buffer, "", parent.hierarchyDepth, ValueType{}, parent.subfields);
+        auto             field = detail::newFieldHeader<CmwLight, true>(buffer, "", parent.hierarchyDepth, ValueType{}, 0);
+        IoSerialiser<protocol, START_MARKER>::deserialise(buffer, field, START_MARKER_INST); // N.B. must not change the number of remaining fields of the parent
+        value.clear();
         while (buffer.position() < buffer.size()) {
             DeserialiserInfo info;
             auto previousSubFields = field.subfields;
@@ -496,7 +497,7 @@ struct IoSerialiser<CmwLight, std::map<std::string, ValueType>> {
             } else {
                 constexpr int requestedType = IoSerialiser<protocol, ValueType>::getDataTypeId();
                 if (requestedType != field.intDataType && requestedType != IoSerialiser<protocol, OTHER>::getDataTypeId()) { // mismatching data-type
-                    detail::moveToFieldEndBufferPosition(buffer, field);
+                    detail::skipField<protocol>(buffer, field);
                     detail::handleDeserialisationError<check>(info, "mismatched field type for map field {} - requested type: {} (typeID: {}) got: {}", field.fieldName, typeName<ValueType>, requestedType, field.intDataType);
                     continue;
                 }
-- 
2.43.0


From 53733dbf3fe9adc85a6896d44e79e6ae259289b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:39 +0000
Subject: [PATCH 051/112] fix: JSON numbers are read neither beyond the end of
 the buffer nor truncated

---
 src/serialiser/include/IoSerialiserJson.hpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index 2c1116e..890c958 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -399,16 +399,10 @@ struct IoSerialiser<Json, T> {
     constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) {
         const auto start = buffer.position();
         const auto data  = reinterpret_cast<const char *>(buffer.data());
-        // N.B. assumes that any reasonable number representation has a maximum of 30 characters
-        const auto stop = start + 30;
-
-        //        auto     stop  = 0;
-        //        for (size_t i = start; i < buffer.size(); i++) {
-        //            if (!json::isNumberChar(buffer.data()[i])) {
-        //                stop = i;
-        //                break;
-        //            }
-        //        }
+        if (start >= buffer.size()) {
+            throw ProtocolException("error parsing number at buffer position: {} - size: {}", start, buffer.size());
+        }
+        const auto stop = buffer.size(); // N.B. the length of a number is not limited
         if constexpr (std::is_floating_point_v<T>) {
             const auto result = fast_float::from_chars(data + start, data + stop, value);
             if (result.ec != std::errc()) {
-- 
2.43.0


From 6964181cc862f156fbb8062271c1083e62d9a49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:39 +0000
Subject: [PATCH 052/112] fix: skipping malformed JSON values ends, literals at
 the end of the buffer are accepted

---
 src/serialiser/include/IoSerialiserJson.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index 890c958..c8cceeb 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -188,9 +188,13 @@ inline void skipField(IoBuffer &buffer) {
 }
 
  constexpr void skipNumber(IoBuffer &buffer) {
-    while (isNumberChar(buffer.get<uint8_t>())) {
+    const auto start = buffer.position();
+    while (buffer.position() < buffer.size() && isNumberChar(buffer.at<uint8_t>(buffer.position()))) {
+        buffer.skip<false>(1);
+    }
+    if (buffer.position() == start) { // N.B. would not make any progress on malformed data
+        throw ProtocolException("json malformed, unexpected '{}' at buffer position {}", buffer.at<char>(start), start);
     }
-    buffer.skip<false>(-1);
 }
 
  constexpr void skipArray(IoBuffer &buffer) {
@@ -220,11 +224,11 @@ inline void skipField(IoBuffer &buffer) {
         skipArray(buffer);
     } else if (firstChar == '"') {
         std::ignore = readString(buffer);
-    } else if (buffer.size() - buffer.position() > 5 && buffer.asString(buffer.position(), 5) == "false") {
+    } else if (buffer.size() - buffer.position() >= 5 && buffer.asString(buffer.position(), 5) == "false") {
         buffer.skip<false>(5);
-    } else if (buffer.size() - buffer.position() > 4 && buffer.asString(buffer.position(), 4) == "true") {
+    } else if (buffer.size() - buffer.position() >= 4 && buffer.asString(buffer.position(), 4) == "true") {
         buffer.skip<false>(4);
-    } else if (buffer.size() - buffer.position() > 4 && buffer.asString(buffer.position(), 4) == "null") {
+    } else if (buffer.size() - buffer.position() >= 4 && buffer.asString(buffer.position(), 4) == "null") {
         buffer.skip<false>(4);
     } else { // skip number
         skipNumber(buffer);
@@ -362,12 +366,12 @@ struct IoSerialiser<Json, bool> {
     }
     constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, bool &value) {
         using namespace std::string_view_literals;
-        if (buffer.size() - buffer.position() > 5 && buffer.asString(buffer.position(), 5) == "false"sv) {
+        if (buffer.size() - buffer.position() >= 5 && buffer.asString(buffer.position(), 5) == "false"sv) {
             buffer.skip<false>(5);
             value = false;
             return;
         }
-        if (buffer.size() - buffer.position() > 4 && buffer.asString(buffer.position(), 4) == "true"sv) {
+        if (buffer.size() - buffer.position() >= 4 && buffer.asString(buffer.position(), 4) == "true"sv) {
             buffer.skip<false>(4);
             value = false;
             value = true;
-- 
2.43.0


From 750f0c42723fadc322d3ddc22c092882b83294d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:39 +0000
Subject: [PATCH 053/112] fix: skipping deeply nested JSON values does not
 exhaust the stack

---
 src/serialiser/include/IoSerialiserJson.hpp | 25 ++++++++++++---------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index c8cceeb..cd4ece5 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -156,9 +156,11 @@ template<typename T, size_t N>
     }
 }
 
- constexpr void skipValue(IoBuffer &buffer);
+constexpr std::size_t MAX_NESTING_DEPTH = 512; // protects the stack against hostile data
 
-inline void skipField(IoBuffer &buffer) {
+ constexpr void skipValue(IoBuffer &buffer, std::size_t depth = 0U);
+
+inline void skipField(IoBuffer &buffer, const std::size_t depth = 0U) {
     consumeWhitespace(buffer);
     std::ignore = readString(buffer);
     consumeWhitespace(buffer);
@@ -166,17 +168,17 @@ inline void skipField(IoBuffer &buffer) {
         throw ProtocolException("json malformed, no colon between key/value");
     }
     consumeWhitespace(buffer);
-    skipValue(buffer);
+    skipValue(buffer, depth);
     consumeWhitespace(buffer);
 }
 
- constexpr void skipObject(IoBuffer &buffer) {
+ constexpr void skipObject(IoBuffer &buffer, const std::size_t depth = 0U) {
     if (buffer.get<uint8_t>() != '{') {
         throw ProtocolException("error: expected {");
     }
     consumeWhitespace(buffer);
     while (buffer.at<uint8_t>(buffer.position()) != '}') {
-        skipField(buffer);
+        skipField(buffer, depth);
         if (buffer.at<uint8_t>(buffer.position()) == '}') break;
         if (buffer.get<uint8_t>() != ',') {
             throw ProtocolException("Expected comma to separate object fields");
@@ -197,13 +199,13 @@ inline void skipField(IoBuffer &buffer) {
     }
 }
 
- constexpr void skipArray(IoBuffer &buffer) {
+ constexpr void skipArray(IoBuffer &buffer, const std::size_t depth = 0U) {
     if (buffer.get<uint8_t>() != '[') {
         throw ProtocolException("error: expected [");
     }
     consumeWhitespace(buffer);
     while (buffer.at<uint8_t>(buffer.position()) != ']') {
-        skipValue(buffer);
+        skipValue(buffer, depth);
         consumeWhitespace(buffer);
         if (buffer.at<uint8_t>(buffer.position()) == ']') break;
         if (buffer.get<uint8_t>() != ',') {
@@ -215,13 +217,16 @@ inline void skipField(IoBuffer &buffer) {
     consumeWhitespace(buffer);
 }
 
- constexpr void skipValue(IoBuffer &buffer) {
+ constexpr void skipValue(IoBuffer &buffer, const std::size_t depth) {
+    if (depth > MAX_NESTING_DEPTH) {
+        throw ProtocolException("json nesting depth exceeds {} at buffer position {}", MAX_NESTING_DEPTH, buffer.position());
+    }
     consumeWhitespace(buffer);
     const auto firstChar = buffer.at<int8_t>(buffer.position());
     if (firstChar == '{') {
-        skipObject(buffer);
+        skipObject(buffer, depth + 1U);
     } else if (firstChar == '[') {
-        skipArray(buffer);
+        skipArray(buffer, depth + 1U);
     } else if (firstChar == '"') {
         std::ignore = readString(buffer);
     } else if (buffer.size() - buffer.position() >= 5 && buffer.asString(buffer.position(), 5) == "false") {
-- 
2.43.0


From 91a7bd6fb0d6f07d2e0a18f7a5bb72b339ebe7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:39 +0000
Subject: [PATCH 054/112] fix: control characters in JSON strings are escaped

---
 src/serialiser/include/IoSerialiserJson.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index cd4ece5..59d5b79 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -59,6 +59,10 @@ template<StringLike T>
             buffer.put('t');
             break;
         default:
+            if (static_cast<uint8_t>(c) < 0x20U) { // remaining control characters are not allowed to be unescaped
+                buffer.put<IoBuffer::MetaInfo::WITHOUT>(std::format("\\u{:04x}", static_cast<unsigned>(static_cast<uint8_t>(c))));
+                break;
+            }
             buffer.put(c);
             break;
         }
@@ -105,7 +109,13 @@ inline std::string readString(IoBuffer &buffer) {
                     throw ProtocolException("illegal hex number {} at position {} of {}", buffer.asString(buffer.position(), 4), buffer.position(), buffer.size());
                 }
                 buffer.skip<false>(4); // skip escaped unicode char
-                result += '_';         // todo: implement parsing the actual unicode characters
+                unsigned codePoint = 0U;
+                std::from_chars(data, data + 4, codePoint, 16);
+                if (codePoint < 0x80U) {
+                    result += static_cast<char>(codePoint);
+                } else {
+                    result += '_'; // todo: implement parsing the actual non-ASCII unicode characters
+                }
                 break;
             }
             default:
-- 
2.43.0


From a06f11c99dda14a43098d732bb79da0875701752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:39 +0000
Subject: [PATCH 055/112] fix: JSON maps keep their values and may be empty

---
 src/serialiser/include/IoSerialiserJson.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index 59d5b79..9aa1a85 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -600,16 +600,18 @@ requires(is_stringlike<typename T::key_type>) struct IoSerialiser<Json, T> {
             memberField.fieldName = entry.first;
             FieldHeaderWriter<Json>::put<IoBuffer::WITHOUT>(buffer, memberField, entry.second);
         }
-        buffer.resize(buffer.size() - 2); // remove trailing comma
+        if (!value.empty()) {
+            buffer.resize(buffer.size() - 2); // remove trailing comma
+        }
         buffer.put<IoBuffer::MetaInfo::WITHOUT>("\n}\n"sv);
     }
     static void deserialise(IoBuffer &buffer, FieldDescription auto const &field, T &value) {
         using namespace std::string_view_literals;
         DeserialiserInfo     info{};
         FieldDescriptionLong fieldHeader{ .headerStart = 0, .dataStartPosition = 0, .dataEndPosition = 0, .subfields = 0, .fieldName = ""sv, .unit = ""sv, .description = ""sv, .modifier = UNKNOWN, .intDataType = IoSerialiser<Json, V>::getDataTypeId(), .hierarchyDepth = static_cast<uint8_t>(field.hierarchyDepth + 1U) };
+        value.clear();
         for (FieldHeaderReader<Json>::get<ProtocolCheck::ALWAYS>(buffer, info, fieldHeader); fieldHeader.intDataType != IoSerialiser<Json, END_MARKER>::getDataTypeId(); FieldHeaderReader<Json>::get<ProtocolCheck::ALWAYS>(buffer, info, fieldHeader)) {
-            auto fieldValue = value[std::string(fieldHeader.fieldName)];
-            IoSerialiser<Json, V>::deserialise(buffer, fieldHeader, fieldValue);
+            IoSerialiser<Json, V>::deserialise(buffer, fieldHeader, value[std::string(fieldHeader.fieldName)]);
         }
     }
 };
-- 
2.43.0


From 9822345c3cc3ddea1230494d082f1dda71c85871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:39 +0000
Subject: [PATCH 056/112] fix: YAML data with more elements than a std::array
 are refused

---
 src/serialiser/include/IoSerialiserYAML.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/serialiser/include/IoSerialiserYAML.hpp b/src/serialiser/include/IoSerialiserYAML.hpp
index b398074..7e03fc0 100644
--- a/src/serialiser/include/IoSerialiserYAML.hpp
+++ b/src/serialiser/include/IoSerialiserYAML.hpp
@@ -239,6 +239,8 @@ inline void fieldParser(const std::string_view &data, ContainerType &value) {
         while (!(token = stringTokenizer(parse, ',')).empty()) {
             if constexpr (requires { value.resize(2); }) {
                 value.resize(value.size() + 1);
+            } else if (tokenSize >= value.size()) {
+                throw ProtocolException("error parsing array from string '{}' -- more than {} elements", data, value.size());
             }
             fieldParser<true>(token, value[tokenSize++]);
         }
@@ -256,6 +258,8 @@ inline void fieldParser(const std::string_view &data, ContainerType &value) {
         }
         if constexpr (requires { value.resize(2); }) {
             value.resize(value.size() + 1);
+        } else if (tokenSize >= value.size()) {
+            throw ProtocolException("error parsing array from string '{}' -- more than {} elements", data, value.size());
         }
         fieldParser<true>(token.substr(2), value[tokenSize++]);
     }
-- 
2.43.0


From ea174f52cfbadfe9709feabe42aee951b5f988e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:28 +0000
Subject: [PATCH 057/112] fix: reading malformed JSON ends also with lenient
 checks

---
 src/serialiser/include/IoSerialiserJson.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index 9aa1a85..665e163 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -369,6 +369,11 @@ struct FieldHeaderReader<Json> {
         }
 
         detail::handleDeserialisationError<protocolCheckVariant>(info, "json malformed, unexpected '{}' at buffer position {}", buffer.at<char>(buffer.position()), buffer.position());
+        // there is no known position to continue from
+        buffer.set_position(buffer.size());
+        result.intDataType       = IoSerialiser<Json, END_MARKER>::getDataTypeId();
+        result.dataStartPosition = buffer.position();
+        result.dataEndPosition   = std::numeric_limits<size_t>::max();
     }
 };
 
-- 
2.43.0


From 83f5007c6fc01716348e1ecf9d5a2cab73f95f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:28 +0000
Subject: [PATCH 058/112] fix: annotated fields can be read from formats
 without meta information

---
 src/serialiser/include/IoSerialiser.hpp     | 5 +++--
 src/serialiser/include/IoSerialiserJson.hpp | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/serialiser/include/IoSerialiser.hpp b/src/serialiser/include/IoSerialiser.hpp
index 9a067f4..7de16d9 100644
--- a/src/serialiser/include/IoSerialiser.hpp
+++ b/src/serialiser/include/IoSerialiser.hpp
@@ -388,12 +388,13 @@ constexpr void deserialise(IoBuffer &buffer, ReflectableClass auto &value, Deser
                     if (is_private(unwrapPointer(member(value)).getModifier())) { // warn for private access
                         handleDeserialisationError<check>(info, "private/internal field access for {}::{} - description: {}", member.declarator.name, member.name, unwrapPointer(member(value)).getDescription());
                     }
-                    if (std::string_view(unwrapPointer(member(value)).getUnit()).compare(field.unit)) { // error on unit mismatch
+                    const bool hasMetaInfo = field.modifier != UNKNOWN; // N.B. CmwLight and JSON do not carry any meta information to be compared
+                    if (hasMetaInfo && std::string_view(unwrapPointer(member(value)).getUnit()).compare(field.unit)) { // error on unit mismatch
                         handleDeserialisationError<check>(info, "mismatched field unit for {}::{} - requested unit '{}' received '{}'", member.declarator.name, member.name, unwrapPointer(member(value)).getUnit(), field.unit);
                         skipField<protocol>(buffer, field);
                         return;
                     }
-                    if (std::string_view(unwrapPointer(member(value)).getQuantity()).compare(field.quantity)) { // error on unit mismatch
+                    if (hasMetaInfo && std::string_view(unwrapPointer(member(value)).getQuantity()).compare(field.quantity)) { // error on unit mismatch
                         handleDeserialisationError<check>(info, "mismatched field quantity for {}::{} - requested quantity '{}' received '{}'", member.declarator.name, member.name, unwrapPointer(member(value)).getQuantity(), field.quantity);
                         skipField<protocol>(buffer, field);
                         return;
diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index 665e163..74241fd 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -325,6 +325,7 @@ struct FieldHeaderReader<Json> {
     template<ProtocolCheck protocolCheckVariant>
     constexpr static void get(IoBuffer &buffer, DeserialiserInfo &info, FieldDescription auto &result) {
         result.headerStart = buffer.position();
+        result.modifier    = UNKNOWN; // N.B. JSON does not carry any meta information
         json::consumeWhitespace(buffer);
         if (buffer.at<char8_t>(buffer.position()) == ',') { // move to next field
             buffer.skip<false>(1);
-- 
2.43.0


From e01c25cf7a5a6ebb6862d540df962965ac790e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:28 +0000
Subject: [PATCH 059/112] fix: YAML fields that follow a nested structure are
 read without complaint

---
 src/serialiser/include/IoSerialiserYAML.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserYAML.hpp b/src/serialiser/include/IoSerialiserYAML.hpp
index 7e03fc0..26960b9 100644
--- a/src/serialiser/include/IoSerialiserYAML.hpp
+++ b/src/serialiser/include/IoSerialiserYAML.hpp
@@ -548,6 +548,7 @@ struct FieldHeaderReader<YAML> {
     template<ProtocolCheck check>
     constexpr static void get(IoBuffer &buffer, const DeserialiserInfo & /*info*/, FieldDescription auto &result) {
         using namespace yaml::detail;
+        const auto startPosition = buffer.position();
         while (true) {
             const auto line = peekLine(buffer);
             if (const auto leftStrippedLine = line.substr(line.find_first_not_of(' ')); !leftStrippedLine.starts_with('#') && !leftStrippedLine.starts_with('\n')) {
@@ -577,8 +578,8 @@ struct FieldHeaderReader<YAML> {
 
         if (result.fieldName.size() != 0 && newHierarchyDepth < result.hierarchyDepth) { // end marker
             result.intDataType       = IoSerialiser<YAML, END_MARKER>::getDataTypeId();
-            result.dataStartPosition = result.headerStart;
-            result.dataEndPosition   = result.headerStart;
+            result.dataStartPosition = startPosition; // N.B. comments before the next field are not part of the sub-structure
+            result.dataEndPosition   = startPosition;
             return;
         }
         result.hierarchyDepth = newHierarchyDepth;
-- 
2.43.0


From 1e6f269bee5c67da24eeab42b5e0896c683c0b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:51 +0000
Subject: [PATCH 060/112] fix: any non-zero byte is read as boolean 'true'

---
 src/serialiser/include/IoBuffer.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/serialiser/include/IoBuffer.hpp b/src/serialiser/include/IoBuffer.hpp
index 1a05802..e168a6d 100644
--- a/src/serialiser/include/IoBuffer.hpp
+++ b/src/serialiser/include/IoBuffer.hpp
@@ -433,7 +433,9 @@ public:
 
     template<typename R, typename RawType = std::remove_cvref_t<R>>
     [[nodiscard]] OPENCMW_FORCEINLINE constexpr R get() const {
-        if constexpr (Number<R>) {
+        if constexpr (std::is_same_v<RawType, bool>) {
+            return get<uint8_t>() != 0U; // N.B. other bit patterns than 0 and 1 are not valid for 'bool'
+        } else if constexpr (Number<R>) {
             checkAvailable(1LU, sizeof(R));
             const std::size_t localPosition = _position;
             _position += sizeof(R);
-- 
2.43.0


From 7c34b95afad740df1499f337380a76f5c2352580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:05 +0000
Subject: [PATCH 061/112] fix: the result of CtxSetting::get() owns its value
 instead of referring to a temporary

---
 src/disruptor/include/Transactions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disruptor/include/Transactions.hpp b/src/disruptor/include/Transactions.hpp
index 607d586..20f0a7f 100644
--- a/src/disruptor/include/Transactions.hpp
+++ b/src/disruptor/include/Transactions.hpp
@@ -47,7 +47,7 @@ struct TransactionResult {
 template<typename T>
 struct CtxResult {
     const TimingCtx           timingCtx;
-    const settings::node<T>  &settingValue;
+    const settings::node<T>   settingValue;
 
     explicit(false) constexpr operator TimingCtx const &() const noexcept { return timingCtx; }
     explicit(false) constexpr operator T const &() const noexcept { return settingValue; }
-- 
2.43.0


From 10ed0bfb0692b8a181c0771ee83ce8b2459b401e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:05 +0000
Subject: [PATCH 062/112] fix: concurrent readers of a setting do not race on
 the time of the last access

---
 src/disruptor/include/Transactions.hpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/disruptor/include/Transactions.hpp b/src/disruptor/include/Transactions.hpp
index 20f0a7f..003871e 100644
--- a/src/disruptor/include/Transactions.hpp
+++ b/src/disruptor/include/Transactions.hpp
@@ -29,7 +29,17 @@ struct alignas(disruptor::kCacheLine) node {
     node()                        = default;
     explicit node(T &&in)
         : value(std::make_shared<T>(FWD(in))){};
-    constexpr void            touch() const noexcept { lastAccess = std::chrono::system_clock::now(); }
+    node(const node &other) noexcept
+        : value(other.value), validSince(other.validSince), lastAccess(other.accessTime()) {}
+    node &operator=(const node &other) noexcept {
+        value      = other.value;
+        validSince = other.validSince;
+        lastAccess = other.accessTime();
+        return *this;
+    }
+    // N.B. readers update the time of the last access of a shared node concurrently
+    void                      touch() const noexcept { std::atomic_ref(lastAccess).store(std::chrono::system_clock::now(), std::memory_order_relaxed); }
+    [[nodiscard]] TimeStamp   accessTime() const noexcept { return std::atomic_ref(lastAccess).load(std::memory_order_relaxed); }
     explicit(false) constexpr operator T const &() const noexcept { return *value; }
 };
 static_assert(sizeof(node<int>) % disruptor::kCacheLine == 0, "node size must be cache line aligned");
@@ -284,9 +294,9 @@ public:
             while (std::atomic_compare_exchange_strong(&_transactionListLock, &expected, true)) // spin-lock
                 ;
 #if not defined(__EMSCRIPTEN__) and (not defined(__clang__) or (__clang_major__ >= 16))
-            const auto [first, last] = std::ranges::remove_if(_transactionList, [&now, this](const auto &setting) { return setting.second.lastAccess - now + TimeDiff{ timeOutTransactions } < TimeDiff{ 0 }; });
+            const auto [first, last] = std::ranges::remove_if(_transactionList, [&now, this](const auto &setting) { return setting.second.accessTime() - now + TimeDiff{ timeOutTransactions } < TimeDiff{ 0 }; });
 #else
-            const auto first = std::remove_if(_transactionList.begin(), _transactionList.end(), [&now, this](const auto &setting) { return setting.second.lastAccess - now + TimeDiff{ timeOutTransactions } < TimeDiff{ 0 }; });
+            const auto first = std::remove_if(_transactionList.begin(), _transactionList.end(), [&now, this](const auto &setting) { return setting.second.accessTime() - now + TimeDiff{ timeOutTransactions } < TimeDiff{ 0 }; });
             const auto last  = _transactionList.end();
 #endif
             _transactionList.erase(first, last);
@@ -302,7 +312,7 @@ public:
         if constexpr (timeOut > 0) {
             auto tailPosition = _sequenceTail->value();
             while (tailPosition != _sequenceHead->value()) {
-                if ((*_ringBuffer)[tailPosition].lastAccess - now + TimeDiff{ timeOut } < TimeDiff{ 0 }) {
+                if ((*_ringBuffer)[tailPosition].accessTime() - now + TimeDiff{ timeOut } < TimeDiff{ 0 }) {
                     tailPosition = _sequenceTail->incrementAndGet();
                 } else {
                     tailPosition++;
@@ -467,7 +477,7 @@ private:
 
     void retireOldSettings(auto &settingsMap, const TimeStamp &now = std::chrono::system_clock::now()) const noexcept {
         for (auto it = settingsMap.begin(); it != settingsMap.end();) {
-            if (it->second.lastAccess - now + TimeDiff{ timeOut } < TimeDiff{ 0 }) {
+            if (it->second.accessTime() - now + TimeDiff{ timeOut } < TimeDiff{ 0 }) {
                 it = settingsMap.erase(it);
             } else {
                 ++it;
-- 
2.43.0


From a88962196304494d8dfad6e42750c412d625465c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:05 +0000
Subject: [PATCH 063/112] fix: the list of staged transactions is really
 locked, also while one of them is committed

---
 src/disruptor/include/Transactions.hpp | 67 +++++++++-----------------
 1 file changed, 22 insertions(+), 45 deletions(-)

diff --git a/src/disruptor/include/Transactions.hpp b/src/disruptor/include/Transactions.hpp
index 003871e..b0fe7e5 100644
--- a/src/disruptor/include/Transactions.hpp
+++ b/src/disruptor/include/Transactions.hpp
@@ -7,6 +7,7 @@
 #include <concepts>
 #include <functional>
 #include <list>
+#include <mutex>
 #include <unordered_map>
 #include <utility>
 
@@ -109,7 +110,7 @@ requires(opencmw::is_power2_v<N_HISTORY> &&N_HISTORY > 8) class SettingBase {
     alignas(disruptor::kCacheLine) std::shared_ptr<Sequence> _sequenceHead = std::make_shared<Sequence>();
     alignas(disruptor::kCacheLine) std::shared_ptr<Sequence> _sequenceTail = std::make_shared<Sequence>(0);
     alignas(disruptor::kCacheLine) mutable ReaderWriterLock _historyLock{};
-    alignas(disruptor::kCacheLine) mutable std::atomic<bool> _transactionListLock{ false };
+    alignas(disruptor::kCacheLine) mutable std::mutex _transactionListLock{};
     std::list<std::pair<TransactionToken, settings::node<T>>> _transactionList;
     alignas(disruptor::kCacheLine) const std::function<U(const U &, T &&)> _onCommit;
 
@@ -146,9 +147,7 @@ public:
             return { isCommitted, now };
         }
 
-        bool expected = false;
-        while (std::atomic_compare_exchange_strong(&_transactionListLock, &expected, true)) // spin-lock
-            ;
+        std::unique_lock guard(_transactionListLock);
 #if not defined(__EMSCRIPTEN__) and (not defined(__clang__) or (__clang_major__ >= 16))
         if (auto it = std::ranges::find_if(_transactionList, [&transactionToken](const auto &pair) { return pair.first == transactionToken; }); it != _transactionList.end()) {
 #else
@@ -158,7 +157,7 @@ public:
         } else {
             _transactionList.push_back(std::make_pair(transactionToken, settings::node<T>(FWD(t))));
         }
-        std::atomic_store_explicit(&_transactionListLock, false, std::memory_order_release);
+        guard.unlock();
 
         retireExpired();
         return { false, now };
@@ -169,34 +168,21 @@ public:
     }
 
     TransactionResult commit(const TransactionToken &transactionToken, const TimeStamp &now = std::chrono::system_clock::now()) {
-        bool expected  = false;
-        bool submitted = false;
-        while (std::atomic_compare_exchange_strong(&_transactionListLock, &expected, true)) // spin-lock
-            ;
-
-#if not defined(__EMSCRIPTEN__) and (not defined(__clang__) or (__clang_major__ >= 16))
-        const auto [first, last] = std::ranges::remove_if(_transactionList, [&transactionToken, &submitted, this, &now](const auto &setting) {
-            if (transactionToken == NullToken<TransactionToken> || setting.first == transactionToken) {
-                commit(std::move(*setting.second.value), now);
-                submitted = true;
-                return true;
-            }
-            return false;
-        });
-#else
-        const auto first = std::remove_if(_transactionList.begin(), _transactionList.end(), [&transactionToken, &submitted, this, &now](const auto &setting) {
-            if (transactionToken == NullToken<TransactionToken> || setting.first == transactionToken) {
-                commit(std::move(*setting.second.value), now);
-                submitted = true;
-                return true;
+        std::list<std::pair<TransactionToken, settings::node<T>>> transactions;
+        {
+            std::lock_guard guard(_transactionListLock);
+            for (auto it = _transactionList.begin(); it != _transactionList.end();) {
+                const auto next = std::next(it);
+                if (transactionToken == NullToken<TransactionToken> || it->first == transactionToken) {
+                    transactions.splice(transactions.end(), _transactionList, it);
+                }
+                it = next;
             }
-            return false;
-        });
-        const auto last  = _transactionList.end();
-#endif
-
-        _transactionList.erase(first, last);
-        std::atomic_store_explicit(&_transactionListLock, false, std::memory_order_release);
+        }
+        bool submitted = false;
+        for (auto &[token, setting] : transactions) {
+            submitted = commit(std::move(*setting.value), now).isCommitted || submitted;
+        }
 
         return { submitted, now };
     }
@@ -218,16 +204,13 @@ public:
 
     std::vector<TransactionToken> getPendingTransactions() const {
         std::vector<TransactionToken> result;
-        bool                          expected = false;
-        while (std::atomic_compare_exchange_strong(&_transactionListLock, &expected, true)) // spin-lock
-            ;
+        std::lock_guard               guard(_transactionListLock);
         result.reserve(_transactionList.size());
 #if not defined(__EMSCRIPTEN__) and (not defined(__clang__) or (__clang_major__ >= 16))
         std::ranges::transform(_transactionList, std::back_inserter(result), [](const auto &setting) { return setting.first; });
 #else
         std::transform(_transactionList.begin(), _transactionList.end(), std::back_inserter(result), [](const auto &setting) { return setting.first; });
 #endif
-        std::atomic_store_explicit(&_transactionListLock, false, std::memory_order_release);
         return result;
     }
 
@@ -258,10 +241,8 @@ public:
     }
 
     bool retireStaged(const TransactionToken &transactionToken = NullToken<TransactionToken>) {
-        bool retired  = false;
-        bool expected = false;
-        while (std::atomic_compare_exchange_strong(&_transactionListLock, &expected, true)) // spin-lock
-            ;
+        bool            retired = false;
+        std::lock_guard guard(_transactionListLock);
 
 #if not defined(__EMSCRIPTEN__) and (not defined(__clang__) or (__clang_major__ >= 16))
         auto [first, last] = std::ranges::remove_if(_transactionList, [&transactionToken, &retired, this](const auto &setting) {
@@ -282,7 +263,6 @@ public:
         auto last  = _transactionList.end();
 #endif
         _transactionList.erase(first, last);
-        std::atomic_store_explicit(&_transactionListLock, false, std::memory_order_release);
 
         return retired;
     }
@@ -290,9 +270,7 @@ public:
     void retireExpired(const TimeStamp &now = std::chrono::system_clock::now()) {
         if (timeOutTransactions > 0) {
             // time-out old transactions
-            bool expected = false;
-            while (std::atomic_compare_exchange_strong(&_transactionListLock, &expected, true)) // spin-lock
-                ;
+            std::lock_guard guard(_transactionListLock);
 #if not defined(__EMSCRIPTEN__) and (not defined(__clang__) or (__clang_major__ >= 16))
             const auto [first, last] = std::ranges::remove_if(_transactionList, [&now, this](const auto &setting) { return setting.second.accessTime() - now + TimeDiff{ timeOutTransactions } < TimeDiff{ 0 }; });
 #else
@@ -300,7 +278,6 @@ public:
             const auto last  = _transactionList.end();
 #endif
             _transactionList.erase(first, last);
-            std::atomic_store_explicit(&_transactionListLock, false, std::memory_order_release);
         }
 
         auto guard = _historyLock.scopedGuard<ReaderWriterLockType::WRITE>();
-- 
2.43.0


From f168df1eef8e1e68e41ccd575b110b013f7617cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:05 +0000
Subject: [PATCH 064/112] fix: concurrent commits of a setting take effect one
 after the other, failing ones are reported

---
 src/disruptor/include/Transactions.hpp | 30 ++++++++++++++------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/disruptor/include/Transactions.hpp b/src/disruptor/include/Transactions.hpp
index b0fe7e5..ad25d9a 100644
--- a/src/disruptor/include/Transactions.hpp
+++ b/src/disruptor/include/Transactions.hpp
@@ -110,6 +110,7 @@ requires(opencmw::is_power2_v<N_HISTORY> &&N_HISTORY > 8) class SettingBase {
     alignas(disruptor::kCacheLine) std::shared_ptr<Sequence> _sequenceHead = std::make_shared<Sequence>();
     alignas(disruptor::kCacheLine) std::shared_ptr<Sequence> _sequenceTail = std::make_shared<Sequence>(0);
     alignas(disruptor::kCacheLine) mutable ReaderWriterLock _historyLock{};
+    alignas(disruptor::kCacheLine) std::mutex _commitLock{}; // serialises the read-modify-publish cycle of concurrent writers
     alignas(disruptor::kCacheLine) mutable std::mutex _transactionListLock{};
     std::list<std::pair<TransactionToken, settings::node<T>>> _transactionList;
     alignas(disruptor::kCacheLine) const std::function<U(const U &, T &&)> _onCommit;
@@ -135,13 +136,7 @@ public:
 
     TransactionResult stage(T &&t, const TransactionToken &transactionToken = NullToken<TransactionToken>, const TimeStamp &now = std::chrono::system_clock::now()) {
         if (transactionToken.empty()) {
-            const auto isCommitted = _ringBuffer->tryPublishEvent([&t, this, &now](Node &&eventData, std::int64_t sequence) {
-                const auto oldValue  = get();
-                eventData.value      = std::make_shared<U>(_onCommit(*oldValue.value, FWD(t)));
-                eventData.validSince = now;
-                eventData.lastAccess = now;
-                _sequenceHead->setValue(sequence);
-            });
+            const auto isCommitted = publish([&t, this](const U &oldValue) -> U { return _onCommit(oldValue, FWD(t)); }, now);
             retireExpired();
 
             return { isCommitted, now };
@@ -191,13 +186,7 @@ public:
     requires std::is_invocable_r_v<U, Fn &&, const U &>
     bool
     modifySetting(Fn &&modFunction, const TimeStamp &now = std::chrono::system_clock::now()) {
-        const auto result = _ringBuffer->tryPublishEvent([this, &modFunction, &now](Node &&eventData, std::int64_t sequence) {
-            const auto oldValue  = get();
-            eventData.value      = std::make_shared<U>(modFunction(*oldValue.value));
-            eventData.validSince = now;
-            eventData.lastAccess = now;
-            _sequenceHead->setValue(sequence);
-        });
+        const auto result = publish(FWD(modFunction), now);
         retireExpired();
         return result;
     }
@@ -297,6 +286,19 @@ public:
             }
         }
     }
+
+private:
+    template<class Fn>
+    bool publish(Fn &&modFunction, const TimeStamp &now) {
+        std::lock_guard guard(_commitLock);
+        auto            newValue = std::make_shared<U>(std::invoke(FWD(modFunction), static_cast<const U &>(*get().value)));
+        return _ringBuffer->tryPublishEvent([this, &newValue, &now](Node &&eventData, std::int64_t sequence) {
+            eventData.value      = std::move(newValue);
+            eventData.validSince = now;
+            eventData.lastAccess = now;
+            _sequenceHead->setValue(sequence);
+        });
+    }
 };
 
 template<std::movable T, std::size_t N_HISTORY, typename TimeDiff = std::chrono::seconds, int timeOut = -1>
-- 
2.43.0


From b8b0136ddea0e12fa188015445ad252d06c2cd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:05 +0000
Subject: [PATCH 065/112] fix: the setting history cannot be retired while it
 is searched

---
 src/disruptor/include/Transactions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disruptor/include/Transactions.hpp b/src/disruptor/include/Transactions.hpp
index ad25d9a..3f202a7 100644
--- a/src/disruptor/include/Transactions.hpp
+++ b/src/disruptor/include/Transactions.hpp
@@ -129,7 +129,7 @@ public:
         _ringBuffer->addGatingSequences(std::vector{ _sequenceHead, _sequenceTail });
     }
     [[nodiscard]] std::size_t nHistory() const noexcept {
-        _historyLock.scopedGuard<ReaderWriterLockType::READ>();
+        auto guard = _historyLock.scopedGuard<ReaderWriterLockType::READ>();
         return static_cast<std::size_t>(_sequenceHead->value() - _sequenceTail->value() + 1);
     }
     ReaderWriterLock &historyLock() noexcept { return _historyLock; }
@@ -204,8 +204,8 @@ public:
     }
 
     [[nodiscard]] Node get(const TimeStamp &timeStamp) const {
-        auto lHead = _sequenceHead->value();
         auto guard = _historyLock.scopedGuard<ReaderWriterLockType::READ>(); // to prevent the writer/clean-up task to potentially expire a node at the tail
+        auto lHead = _sequenceHead->value();
         while ((*_ringBuffer)[lHead].validSince > timeStamp && lHead != _sequenceTail->value()) {
             lHead--;
         }
-- 
2.43.0


From 830dbb0dfd8105402b81ac151bb3b11e19d563f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:05 +0000
Subject: [PATCH 066/112] fix: an expired setting does not retire a recently
 used one in its place

---
 src/disruptor/include/Transactions.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/disruptor/include/Transactions.hpp b/src/disruptor/include/Transactions.hpp
index 3f202a7..da7b42e 100644
--- a/src/disruptor/include/Transactions.hpp
+++ b/src/disruptor/include/Transactions.hpp
@@ -277,12 +277,8 @@ public:
         // expire old settings based on time
         if constexpr (timeOut > 0) {
             auto tailPosition = _sequenceTail->value();
-            while (tailPosition != _sequenceHead->value()) {
-                if ((*_ringBuffer)[tailPosition].accessTime() - now + TimeDiff{ timeOut } < TimeDiff{ 0 }) {
-                    tailPosition = _sequenceTail->incrementAndGet();
-                } else {
-                    tailPosition++;
-                }
+            while (tailPosition != _sequenceHead->value() && (*_ringBuffer)[tailPosition].accessTime() - now + TimeDiff{ timeOut } < TimeDiff{ 0 }) {
+                tailPosition = _sequenceTail->incrementAndGet();
             }
         }
     }
-- 
2.43.0


From 18373c57deffe4d94527468b66f26876f4988dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:05 +0000
Subject: [PATCH 067/112] fix: CtxSetting::retireExpired() keeps settings
 without time-out and does not change values in use

---
 src/disruptor/include/Transactions.hpp | 29 +++++++++++++++-----------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/disruptor/include/Transactions.hpp b/src/disruptor/include/Transactions.hpp
index da7b42e..4f26899 100644
--- a/src/disruptor/include/Transactions.hpp
+++ b/src/disruptor/include/Transactions.hpp
@@ -283,6 +283,16 @@ public:
         }
     }
 
+    /// replaces the newest value without adding to the history, N.B. values are shared with readers and thus immutable
+    template<class Fn>
+    requires std::is_invocable_r_v<U, Fn &&, const U &>
+    void rewriteLatest(Fn &&modFunction) {
+        std::lock_guard guard(_commitLock);
+        auto            newValue     = std::make_shared<U>(std::invoke(FWD(modFunction), static_cast<const U &>(*get().value)));
+        auto            historyGuard = _historyLock.scopedGuard<ReaderWriterLockType::WRITE>();
+        (*_ringBuffer)[_sequenceHead->value()].value = std::move(newValue);
+    }
+
 private:
     template<class Fn>
     bool publish(Fn &&modFunction, const TimeStamp &now) {
@@ -391,9 +401,14 @@ public:
     [[nodiscard]] std::size_t                   nCtxHistory(const std::int64_t idx = 0) const { return _setting.get(idx).value->size(); }
     [[nodiscard]] std::vector<TransactionToken> getPendingTransactions() const { return _setting.getPendingTransactions(); }
     void                                        retireExpired(const TimeStamp &now = std::chrono::system_clock::now()) {
-        _setting.historyLock().template scopedGuard<ReaderWriterLockType::WRITE>();
         _setting.retireExpired(now);
-        retireOldSettings(*_setting.get().value, now);
+        if constexpr (timeOut > 0) {
+            _setting.rewriteLatest([&now](const std::unordered_map<TimingCtx, settings::node<T>> &oldSetting) {
+                auto newSetting = oldSetting;
+                std::erase_if(newSetting, [&now](const auto &pair) { return pair.second.accessTime() - now + TimeDiff{ timeOut } < TimeDiff{ 0 }; });
+                return newSetting;
+            });
+        }
     }
     template<bool exactMatch = false>
     [[maybe_unused]] bool retire(const TimingCtx &ctx, const TimeStamp &now = std::chrono::system_clock::now()) {
@@ -449,16 +464,6 @@ private:
         }
         return { NullTimingCtx, settings::node<T>(T{}) }; // implicitly stored non-multiplexed value
     }
-
-    void retireOldSettings(auto &settingsMap, const TimeStamp &now = std::chrono::system_clock::now()) const noexcept {
-        for (auto it = settingsMap.begin(); it != settingsMap.end();) {
-            if (it->second.accessTime() - now + TimeDiff{ timeOut } < TimeDiff{ 0 }) {
-                it = settingsMap.erase(it);
-            } else {
-                ++it;
-            }
-        }
-    }
 };
 
 } // namespace opencmw
-- 
2.43.0


From 0230bb8521f5f7af4c2603bbcb8a3cf40047e2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:29 +0000
Subject: [PATCH 068/112] fix: concurrent clean-ups of a setting do not retire
 more of its history than intended

---
 src/disruptor/include/Transactions.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/disruptor/include/Transactions.hpp b/src/disruptor/include/Transactions.hpp
index 4f26899..bfbdf3b 100644
--- a/src/disruptor/include/Transactions.hpp
+++ b/src/disruptor/include/Transactions.hpp
@@ -269,6 +269,7 @@ public:
             _transactionList.erase(first, last);
         }
 
+        std::lock_guard commitGuard(_commitLock); // N.B. several writers may hold the history lock at the same time
         auto guard = _historyLock.scopedGuard<ReaderWriterLockType::WRITE>();
         // expire old settings based on count
         while (_sequenceTail->value() != _sequenceHead->value() && (_sequenceHead->value() - _sequenceTail->value() > static_cast<std::int64_t>(N_HISTORY - BUFFER_MARGIN))) {
-- 
2.43.0


From 5a2f53b0151797018fcb21c1fe0b5ee31807df13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:10 +0000
Subject: [PATCH 069/112] fix: the broker prefers the most specific service
 that matches a request

---
 src/majordomo/include/majordomo/Broker.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index c0c9e73..ee16548 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -762,7 +762,7 @@ private:
             auto n  = removeSlash(name);
             auto sn = removeSlash(serviceName);
             if (!sn.starts_with(n)) continue;
-            if (!bestService || lessByLength(n, bestServiceName)) {
+            if (!bestService || lessByLength(bestServiceName, n)) {
                 bestServiceName = n;
                 bestService     = std::addressof(service);
             }
-- 
2.43.0


From 4e0256ab112672038583cc3fc70d48d7d1882cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:48 +0000
Subject: [PATCH 070/112] fix: requests that are queued in the broker do not
 wait for the next message to arrive

---
 src/majordomo/include/majordomo/Broker.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index ee16548..d23feee 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -516,7 +516,7 @@ public:
             anythingReceived |= receiveMessage(_subSocket);
             anythingReceived |= receivePubMessage(_pubSocket);
 
-            processClients();
+            anythingReceived |= processClients(); // there may be more requests than messages received, e.g. from REST clients
 
             if (loopCount % 10 == 0) { // perform maintenance task every 10th iteration
                 purgeWorkers();
@@ -847,13 +847,15 @@ private:
         }
     }
 
-    void processClients() {
+    bool processClients() {
+        bool anythingProcessed = false;
         for (auto &[senderId, client] : _clients) {
             if (client.requests.empty())
                 continue;
 
             auto clientMessage = std::move(client.requests.front());
             client.requests.pop_front();
+            anythingProcessed = true;
 
             if (auto service = bestMatchingService(clientMessage.serviceName)) {
                 if (service->internalHandler) {
@@ -869,7 +871,7 @@ private:
                     service->putMessage(std::move(clientMessage));
                     dispatch(*service);
                 }
-                return;
+                return true;
             }
 
             // not implemented -- reply according to Majordomo Management Interface (MMI) as defined in http://rfc.zeromq.org/spec:8
@@ -889,6 +891,8 @@ private:
                 zmq::send(std::move(reply), client.socket.value()).assertSuccess();
             }
         }
+
+        return anythingProcessed;
     }
 
     void purgeClients() {
-- 
2.43.0


From ca2c80237fa5841b4debd2feca8ef282249ec6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:26 +0000
Subject: [PATCH 071/112] fix: a worker that sent a partial reply is not given
 further requests before the final one

---
 src/majordomo/include/majordomo/Broker.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index d23feee..93ac7d9 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -986,7 +986,8 @@ private:
         case mdp::Command::Partial:
         case mdp::Command::Final: {
             if (knownWorker) {
-                auto client = _clients.find(message.serviceName); // serviceName=clientSourceID
+                const bool isFinal = message.command == mdp::Command::Final;
+                auto       client  = _clients.find(message.serviceName); // serviceName=clientSourceID
                 if (client == _clients.end()) {
                     return; // drop if client unknown/disappeared
                 }
@@ -1002,7 +1003,9 @@ private:
                     zmq::send(std::move(message), client->second.socket.value()).assertSuccess();
                 }
 
-                workerWaiting(worker);
+                if (isFinal) { // more is to come after a partial reply, the worker is still busy
+                    workerWaiting(worker);
+                }
             } else {
                 disconnectWorker(worker);
             }
-- 
2.43.0


From 14aa06af5ff517726fefc8dc5e884343042f7e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:09 +0000
Subject: [PATCH 072/112] fix: a worker that announces itself repeatedly is
 queued only once

---
 src/majordomo/include/majordomo/Broker.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 93ac7d9..a8ea4eb 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -825,7 +825,10 @@ private:
         // TODO
         // waiting.addLast(worker);
         auto service = _services.find(worker.serviceName);
-        service->second.waiting.push_back(&worker);
+        auto &waiting = service->second.waiting;
+        if (std::ranges::find(waiting, &worker) == waiting.end()) { // e.g. if the worker announced itself more than once
+            waiting.push_back(&worker);
+        }
         worker.expiry = updatedWorkerExpiry();
         dispatch(service->second);
     }
-- 
2.43.0


From 2e9326030c8102fbd891167aeb6eca87e07f9495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:09 +0000
Subject: [PATCH 073/112] fix: a worker whose client disappeared is available
 for further requests

---
 src/majordomo/include/majordomo/Broker.hpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index a8ea4eb..0972cbb 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -991,19 +991,17 @@ private:
             if (knownWorker) {
                 const bool isFinal = message.command == mdp::Command::Final;
                 auto       client  = _clients.find(message.serviceName); // serviceName=clientSourceID
-                if (client == _clients.end()) {
-                    return; // drop if client unknown/disappeared
-                }
-
-                message.sourceId     = message.serviceName; // serviceName=clientSourceID
-                message.serviceName  = worker.serviceName;
-                message.protocolName = mdp::clientProtocol;
-                if (message.sourceId == kRestSourceId) {
-                    if (_restServer) {
-                        _restServer->handleResponse(std::move(message));
+                if (client != _clients.end()) { // drop the reply if client unknown/disappeared
+                    message.sourceId     = message.serviceName; // serviceName=clientSourceID
+                    message.serviceName  = worker.serviceName;
+                    message.protocolName = mdp::clientProtocol;
+                    if (message.sourceId == kRestSourceId) {
+                        if (_restServer) {
+                            _restServer->handleResponse(std::move(message));
+                        }
+                    } else {
+                        zmq::send(std::move(message), client->second.socket.value()).assertSuccess();
                     }
-                } else {
-                    zmq::send(std::move(message), client->second.socket.value()).assertSuccess();
                 }
 
                 if (isFinal) { // more is to come after a partial reply, the worker is still busy
-- 
2.43.0


From b615fd1adcd9c4818052f6842635f229e7d0785b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:09 +0000
Subject: [PATCH 074/112] fix: the broker does not forget clients that keep
 sending requests

---
 src/majordomo/include/majordomo/Broker.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 0972cbb..07b0c5f 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -720,6 +720,7 @@ private:
             }
 
             auto [client, inserted] = _clients.try_emplace(message.sourceId, socket, message.sourceId, updatedClientExpiry());
+            client->second.expiry   = updatedClientExpiry();
             client->second.requests.emplace_back(std::move(message));
 
             return true;
-- 
2.43.0


From 91264c652a5b862e754951e78414d3bec2a7981c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:11 +0000
Subject: [PATCH 075/112] fix: a received message with a malformed topic is
 dropped instead of ending the receiver

---
 src/zmq/include/zmq/ZmqUtils.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/zmq/include/zmq/ZmqUtils.hpp b/src/zmq/include/zmq/ZmqUtils.hpp
index d50571b..d10cecf 100644
--- a/src/zmq/include/zmq/ZmqUtils.hpp
+++ b/src/zmq/include/zmq/ZmqUtils.hpp
@@ -442,7 +442,11 @@ template<mdp::MessageFormat Format>
     msg.command         = static_cast<mdp::Command>(commandStr[0]);
     msg.serviceName     = std::string(zmsg.frame(ZmqMessage<Format>::Frame::ServiceName).data());
     msg.clientRequestID = IoBuffer(clientRequestId.data(), clientRequestId.size());
-    msg.topic           = mdp::Message::URI(std::string(zmsg.frame(ZmqMessage<Format>::Frame::Topic).data()));
+    try {
+        msg.topic = mdp::Message::URI(std::string(zmsg.frame(ZmqMessage<Format>::Frame::Topic).data()));
+    } catch (...) {
+        return {}; // malformed topic
+    }
     msg.data            = IoBuffer(data.data(), data.size());
     msg.error           = std::string(zmsg.frame(ZmqMessage<Format>::Frame::Error).data());
     msg.rbac            = IoBuffer(rbac.data(), rbac.size());
-- 
2.43.0


From 9769e25b16a2bb0a151aefb3a05f731a07896ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:53 +0000
Subject: [PATCH 076/112] fix: only GET and SET messages of clients are
 forwarded to workers

---
 src/majordomo/include/majordomo/Broker.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 07b0c5f..18591f6 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -714,9 +714,12 @@ private:
             }
             case mdp::Command::Heartbeat:
                 sendDnsHeartbeats(true);
+                return true;
+            case mdp::Command::Get:
+            case mdp::Command::Set:
                 break;
             default:
-                break;
+                return true; // not a request, must not keep a worker busy
             }
 
             auto [client, inserted] = _clients.try_emplace(message.sourceId, socket, message.sourceId, updatedClientExpiry());
-- 
2.43.0


From 3a9d6f59608cc604a0d638c5bfa7a570a252cba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:18 +0000
Subject: [PATCH 077/112] fix: a request without service name is answered
 instead of read out of bounds

---
 src/majordomo/include/majordomo/Broker.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 18591f6..1ef8df1 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -758,7 +758,7 @@ private:
             // remove leading slashes from both the name and the
             // service name, if present
             auto removeSlash = [](std::string_view s) {
-                if (s[0] == '/') {
+                if (s.starts_with('/')) {
                     return std::string_view(s.data() + 1, s.size() - 1);
                 }
                 return s;
-- 
2.43.0


From d4f0119567947124f535cc07aca535be5e068923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:37 +0000
Subject: [PATCH 078/112] fix: workers cannot register services with invalid
 names

---
 src/majordomo/include/majordomo/Broker.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 1ef8df1..2657927 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -975,6 +975,10 @@ private:
 
         switch (message.command) {
         case mdp::Command::Ready: {
+            if (!mdp::isValidServiceName(message.serviceName)) { // would e.g. match any request if empty
+                disconnectWorker(worker);
+                break;
+            }
             std::ignore = requireService(message.serviceName, std::string(message.data.asString()));
             workerWaiting(worker);
             registerNewService(message.serviceName);
-- 
2.43.0


From 0aa047041a8b39f86740c0882ad0289f7375aa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:51 +0000
Subject: [PATCH 079/112] fix: peers that did not announce a service do not
 become workers by sending other messages

---
 src/majordomo/include/majordomo/Broker.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 2657927..9d85806 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -993,6 +993,9 @@ private:
         }
         case mdp::Command::Disconnect:
             // deleteWorker(worker); // TODO handle? also commented out in java impl
+            if (!knownWorker) {
+                deleteWorker(worker);
+            }
             break;
         case mdp::Command::Partial:
         case mdp::Command::Final: {
@@ -1026,6 +1029,9 @@ private:
             message.serviceName  = worker.serviceName;
 
             dispatchMessageToMatchingSubscribers(std::move(message));
+            if (!knownWorker) { // has to announce its service (again) before it counts as a worker
+                disconnectWorker(worker);
+            }
             break;
         }
         case mdp::Command::Heartbeat:
@@ -1034,7 +1040,11 @@ private:
             } else {
                 disconnectWorker(worker);
             }
+            break;
         default:
+            if (!knownWorker) {
+                deleteWorker(worker);
+            }
             break;
         }
     }
-- 
2.43.0


From 1e24cc6329bf4d9654bed410355eceadfd6d11e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:51 +0000
Subject: [PATCH 080/112] fix: messages with unknown protocol names are not
 taken for those of workers

---
 src/majordomo/include/majordomo/Broker.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 9d85806..3124795 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -729,7 +729,9 @@ private:
             return true;
         }
 
-        processWorker(socket, std::move(message));
+        if (message.protocolName == mdp::workerProtocol) { // ignore unknown protocols
+            processWorker(socket, std::move(message));
+        }
         return true;
     }
 
-- 
2.43.0


From 44522df3f8f7cc48db917cc27a6554d823e5c6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:29 +0000
Subject: [PATCH 081/112] fix: memory of single-character frames is released as
 it was allocated

---
 src/zmq/include/zmq/ZmqUtils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zmq/include/zmq/ZmqUtils.hpp b/src/zmq/include/zmq/ZmqUtils.hpp
index d10cecf..f8f848b 100644
--- a/src/zmq/include/zmq/ZmqUtils.hpp
+++ b/src/zmq/include/zmq/ZmqUtils.hpp
@@ -236,7 +236,7 @@ public:
         zmq_msg_init_data(
                 &_message, copy, 1,
                 [](void * /*unused*/, void *bufOwned) {
-                    delete static_cast<char *>(bufOwned);
+                    delete[] static_cast<char *>(bufOwned);
                 },
                 copy);
     }
-- 
2.43.0


From 3694785a61e2844594b3fa58c812d64280f2a0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:29 +0000
Subject: [PATCH 082/112] fix: a frame keeps owning its content if nothing
 could be received

---
 src/zmq/include/zmq/ZmqUtils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zmq/include/zmq/ZmqUtils.hpp b/src/zmq/include/zmq/ZmqUtils.hpp
index f8f848b..5229ea2 100644
--- a/src/zmq/include/zmq/ZmqUtils.hpp
+++ b/src/zmq/include/zmq/ZmqUtils.hpp
@@ -284,7 +284,7 @@ public:
     // Returns the number of received bytes
     Result<int> receive(const Socket &socket, int flags) {
         auto result = zmq::invoke(zmq_msg_recv, &_message, socket, flags);
-        _owning     = result.isValid();
+        _owning     = _owning || result.isValid(); // nothing received: the previous content is still there
         return result;
     }
 
-- 
2.43.0


From a61273284f96539b146bab226269c61db476ed8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:19 +0000
Subject: [PATCH 083/112] fix: repeated or unmatched (un)subscriptions of a
 client do not affect the subscriptions of others

---
 src/majordomo/include/majordomo/Broker.hpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 3124795..e5e60eb 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -632,9 +632,9 @@ private:
                 return;
             }
 
-            subscribe(subscription);
-            auto [it, inserted] = _subscribedClientsByTopic.try_emplace(subscription);
-            it->second.emplace(message.sourceId);
+            if (_subscribedClientsByTopic[subscription].insert(message.sourceId).second) { // clients may subscribe repeatedly
+                subscribe(subscription);
+            }
         } break;
         case mdp::Command::Unsubscribe: {
             mdp::Topic subscription;
@@ -645,10 +645,9 @@ private:
                 return;
             }
 
-            unsubscribe(subscription);
             auto it = _subscribedClientsByTopic.find(subscription);
-            if (it != _subscribedClientsByTopic.end()) {
-                it->second.erase(message.sourceId);
+            if (it != _subscribedClientsByTopic.end() && it->second.erase(message.sourceId) > 0) { // only if it was subscribed
+                unsubscribe(subscription);
                 if (it->second.empty()) {
                     _subscribedClientsByTopic.erase(it);
                 }
@@ -688,9 +687,9 @@ private:
                     return false;
                 }
 
-                subscribe(*subscription);
-                auto [it, inserted] = _subscribedClientsByTopic.try_emplace(*subscription);
-                it->second.emplace(message.sourceId);
+                if (_subscribedClientsByTopic[*subscription].insert(message.sourceId).second) { // clients may subscribe repeatedly
+                    subscribe(*subscription);
+                }
                 return true;
             }
             case mdp::Command::Unsubscribe: {
@@ -702,10 +701,9 @@ private:
                     return false;
                 }
 
-                unsubscribe(*subscription);
                 auto it = _subscribedClientsByTopic.find(*subscription);
-                if (it != _subscribedClientsByTopic.end()) {
-                    it->second.erase(message.sourceId);
+                if (it != _subscribedClientsByTopic.end() && it->second.erase(message.sourceId) > 0) { // only if it was subscribed
+                    unsubscribe(*subscription);
                     if (it->second.empty()) {
                         _subscribedClientsByTopic.erase(it);
                     }
-- 
2.43.0


From 2a13500ef74a76a2994fe7ac907e04025eb3a695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:19 +0000
Subject: [PATCH 084/112] fix: subscriptions of several SUB sockets to the same
 topic end with the last of them

---
 src/majordomo/include/majordomo/Broker.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index e5e60eb..ec0301a 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -393,8 +393,6 @@ public:
         zmq::invoke(zmq_bind, _subSocket, INTERNAL_ADDRESS_SUBSCRIBE.str().data()).assertSuccess();
 
         zmq::initializeSocket(_pubSocket, settings).assertSuccess();
-        int verbose = 1;
-        zmq::invoke(zmq_setsockopt, _pubSocket, ZMQ_XPUB_VERBOSE, &verbose, sizeof(verbose)).assertSuccess();
         zmq::invoke(zmq_bind, _pubSocket, INTERNAL_ADDRESS_PUBLISHER.str().data()).assertSuccess();
 
         zmq::initializeSocket(_dnsSocket, settings).assertSuccess();
-- 
2.43.0


From 87cfbefdffe88a71a17f36bb8b255d986461f0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:17 +0000
Subject: [PATCH 085/112] fix: a notification with an invalid topic does not
 end the worker

---
 src/majordomo/include/majordomo/Worker.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/majordomo/include/majordomo/Worker.hpp b/src/majordomo/include/majordomo/Worker.hpp
index 8a7e757..dc5c5cc 100644
--- a/src/majordomo/include/majordomo/Worker.hpp
+++ b/src/majordomo/include/majordomo/Worker.hpp
@@ -279,10 +279,15 @@ private:
 
     bool receiveNotificationMessage() {
         if (auto message = zmq::receive<mdp::MessageFormat::WithoutSourceId>(_notifyListenerSocket)) {
-            const auto currentSubscription      = mdp::Topic::fromMdpTopic(message->topic);
+            std::optional<mdp::Topic> currentSubscription;
+            try {
+                currentSubscription = mdp::Topic::fromMdpTopic(message->topic);
+            } catch (...) {
+                return true; // nobody can be subscribed to an invalid topic
+            }
 
             const auto matchesNotificationTopic = [this, &currentSubscription](const auto &activeSubscription) {
-                return _subscriptionMatcher(currentSubscription, activeSubscription);
+                return _subscriptionMatcher(*currentSubscription, activeSubscription);
             };
 
             // TODO what to do here if worker is disconnected?
-- 
2.43.0


From fe25233bd38606483df530773ff8d4a8d590370d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:32 +0000
Subject: [PATCH 086/112] fix: a reconnecting worker forgets subscriptions that
 ended in the meantime

---
 src/majordomo/include/majordomo/Worker.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/majordomo/include/majordomo/Worker.hpp b/src/majordomo/include/majordomo/Worker.hpp
index dc5c5cc..60825d4 100644
--- a/src/majordomo/include/majordomo/Worker.hpp
+++ b/src/majordomo/include/majordomo/Worker.hpp
@@ -388,6 +388,11 @@ private:
         _pollerItems[1].socket = nullptr;
         _workerSocket.reset();
         _pubSocket.reset();
+        {
+            // the new connection gets all subscriptions that are still active
+            std::lock_guard lockGuard(_activeSubscriptionsLock);
+            _activeSubscriptions.clear();
+        }
 
         _workerSocket.emplace(_context, ZMQ_DEALER);
 
-- 
2.43.0


From 3290abd8635ec27f1c1171a9b5b7a16ffbb6ce4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:56 +0000
Subject: [PATCH 087/112] fix: notification sockets are not cleaned up while a
 thread is about to use them

---
 src/majordomo/include/majordomo/Worker.hpp | 39 ++++++++++++----------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/majordomo/include/majordomo/Worker.hpp b/src/majordomo/include/majordomo/Worker.hpp
index 60825d4..377b093 100644
--- a/src/majordomo/include/majordomo/Worker.hpp
+++ b/src/majordomo/include/majordomo/Worker.hpp
@@ -67,7 +67,7 @@ class BasicWorker {
 
     struct NotificationHandler {
         zmq::Socket socket;
-        Timestamp   lastUsed;
+        Timestamp   lastUsed = Clock::now();
 
         explicit NotificationHandler(const zmq::Context &context, std::string_view notifyAddress)
             : socket(context, ZMQ_PUSH) {
@@ -141,7 +141,20 @@ public:
         message.command      = mdp::Command::Notify;
         message.serviceName  = serviceName.data(); // TODO unnecessary copy
         message.rbac         = _defaultRbacToken;
-        return notificationHandlerForThisThread().send(std::move(message));
+
+        const auto       threadId = std::this_thread::get_id();
+        std::shared_lock readLock(_notificationHandlersLock); // held while sending, to keep the handler from being cleaned up
+        auto             handler = _notificationHandlers.find(threadId);
+        while (handler == _notificationHandlers.end()) { // nothing found -> need to allocate/initialise new socket
+            readLock.unlock();
+            {
+                const std::unique_lock writeLock(_notificationHandlersLock);
+                _notificationHandlers.emplace(std::piecewise_construct, std::forward_as_tuple(threadId), std::forward_as_tuple(_context, _notifyAddress));
+            }
+            readLock.lock();
+            handler = _notificationHandlers.find(threadId);
+        }
+        return handler->second.send(std::move(message));
     }
 
     void disconnect() {
@@ -194,24 +207,14 @@ private:
         return std::format("inproc://workers{}-{}/notify", name, worker_detail::nextWorkerId());
     }
 
-    NotificationHandler &notificationHandlerForThisThread() {
-        const auto threadId = std::this_thread::get_id();
-        {
-            const std::shared_lock readLock(_notificationHandlersLock); // optimistic read -- thread is known/already initialised
-            if (_notificationHandlers.contains(threadId)) {
-                return _notificationHandlers.at(threadId);
-            }
-        }
-        const std::unique_lock writeLock(_notificationHandlersLock); // nothing found -> need to allocate/initialise new socket
-        _notificationHandlers.emplace(std::piecewise_construct, std::forward_as_tuple(threadId), std::forward_as_tuple(_context, _notifyAddress));
-        return _notificationHandlers.at(threadId);
-    }
-
     void cleanupNotificationHandlers() {
-        const auto      expiryThreshold = Clock::now() - std::chrono::seconds(30); // cleanup unused handlers every 30 seconds -- TODO: move this to Settings
-        std::lock_guard lock{ _notificationHandlersLock };
+        const auto       expiryThreshold = Clock::now() - std::chrono::seconds(30); // cleanup unused handlers every 30 seconds -- TODO: move this to Settings
+        std::unique_lock lock{ _notificationHandlersLock, std::try_to_lock };
+        if (!lock) { // a thread is notifying right now (and might wait for this thread) -> try again next time
+            return;
+        }
 
-        auto            isExpired = [&expiryThreshold](const auto &p) {
+        auto isExpired = [&expiryThreshold](const auto &p) {
             return p.second.lastUsed < expiryThreshold;
         };
 
-- 
2.43.0


From f0a9a066eca3a607406721a839a23687b3a083cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:43 +0000
Subject: [PATCH 088/112] fix: every service is shown with its own HTML
 template, from any thread

---
 src/serialiser/include/MustacheSerialiser.hpp | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/serialiser/include/MustacheSerialiser.hpp b/src/serialiser/include/MustacheSerialiser.hpp
index 6d6a626..73fbfb1 100644
--- a/src/serialiser/include/MustacheSerialiser.hpp
+++ b/src/serialiser/include/MustacheSerialiser.hpp
@@ -359,21 +359,21 @@ template<typename VirtualFS, typename Stream, typename... Objects>
 void serialise(const VirtualFS &fs, const std::string &workerName, Stream &out, std::pair<std::string, const Objects &> &&...namedObjects) {
     static_assert((ReflectableClass<std::remove_cvref_t<Objects>> && ...));
 
-    static const auto fileName = "assets/mustache/" + workerName + ".mustache";
+    using mustache_ns = kainjow::mustache_ns<std::string, mustache_data_base>;
+    // parsed templates by worker name, per thread since rendering modifies the renderer
+    thread_local std::unordered_map<std::string, std::pair<bool, mustache_ns::mustache>> templates;
 
-    using mustache_ns          = kainjow::mustache_ns<std::string, mustache_data_base>;
-    // Structured bindings here break the linker...
-    // Should be const auto [ customTemplateExists, mustache ]
-    static auto pair = [&fs] {
+    auto it = templates.find(workerName);
+    if (it == templates.end()) {
+        const auto  fileName             = "assets/mustache/" + workerName + ".mustache";
         const bool  customTemplateExists = fs.exists(fileName);
         const auto  file                 = fs.open(customTemplateExists ? fileName.data() : "assets/mustache/default.mustache");
         std::string contents(file.cbegin(), file.cend());
-        auto        renderer = mustache_ns::mustache(contents);
-        return std::make_pair(customTemplateExists, renderer);
-    }();
+        it = templates.emplace(workerName, std::make_pair(customTemplateExists, mustache_ns::mustache(contents))).first;
+    }
 
-    const bool customTemplateExists = pair.first;
-    auto      &mustache             = pair.second;
+    const bool customTemplateExists = it->second.first;
+    auto      &mustache             = it->second.second;
 
     // Map of objects that we want mustache to see
     std::unordered_map<std::string, std::unique_ptr<mustache_data_base>> value;
-- 
2.43.0


From 5073eae81b9a9b38818161594d759fab1d71d66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:12 +0000
Subject: [PATCH 089/112] fix: HTML output of multi-dimensional arrays refers
 to the array itself instead of a temporary copy

---
 src/serialiser/include/MustacheSerialiser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serialiser/include/MustacheSerialiser.hpp b/src/serialiser/include/MustacheSerialiser.hpp
index 73fbfb1..5696ac3 100644
--- a/src/serialiser/include/MustacheSerialiser.hpp
+++ b/src/serialiser/include/MustacheSerialiser.hpp
@@ -219,7 +219,7 @@ public:
 template<MultiArrayType T>
 class mustache_data<T> : public mustache_data<std::vector<typename T::value_type>> {
 public:
-    explicit mustache_data(T val)
+    explicit mustache_data(const T &val)
         : mustache_data<std::vector<typename T::value_type>>(val.elements()) {}
 };
 
-- 
2.43.0


From bfde57719d95c86bfb949b366bfef8271aa1d166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:42 +0000
Subject: [PATCH 090/112] fix: client threads start after what they use has
 been set up

---
 src/client/include/Client.hpp        | 2 +-
 src/client/include/ClientContext.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/include/Client.hpp b/src/client/include/Client.hpp
index 87e383a..d4512eb 100644
--- a/src/client/include/Client.hpp
+++ b/src/client/include/Client.hpp
@@ -350,9 +350,9 @@ class MDClientCtx : public ClientBase {
 public:
     explicit MDClientCtx(const zmq::Context &zeromq_context, const timeUnit timeout = 1s, std::string clientId = "") // todo: also pass thread pool
         : _zctx{ zeromq_context }, _control_socket_send(zeromq_context, ZMQ_PAIR), _control_socket_recv(zeromq_context, ZMQ_PAIR), _timeout(timeout), _clientId(std::move(clientId)) {
-        _poller = std::jthread([this](const std::stop_token &stoken) { this->poll(stoken); });
         zmq::invoke(zmq_bind, _control_socket_send, "inproc://mdclientControlSocket").assertSuccess();
         _pollitems.push_back({ .socket = _control_socket_recv.zmq_ptr, .fd = 0, .events = ZMQ_POLLIN, .revents = 0 });
+        _poller = std::jthread([this](const std::stop_token &stoken) { this->poll(stoken); }); // last, as it uses all of the above
     }
 
     std::vector<std::string> protocols() override {
diff --git a/src/client/include/ClientContext.hpp b/src/client/include/ClientContext.hpp
index 0e917a3..b436d87 100644
--- a/src/client/include/ClientContext.hpp
+++ b/src/client/include/ClientContext.hpp
@@ -46,12 +46,12 @@ public:
     explicit ClientContext(std::vector<std::unique_ptr<ClientBase>> &&implementations)
         : _contexts(std::move(implementations)), _commandRingBuffer{ std::make_shared<CmdBufferType>() }, _cmdPoller{ _commandRingBuffer->newPoller() } {
         _commandRingBuffer->addGatingSequences({ _cmdPoller->sequence() });
-        _poller = std::thread([this]() { this->poll(_stop_requested); });
         for (auto &ctx : _contexts) {
             for (auto &scheme : ctx->protocols()) {
                 _schemeContexts.insert({ scheme, std::ref(*ctx) });
             }
         }
+        _poller = std::thread([this]() { this->poll(_stop_requested); }); // last, as it uses all of the above
     }
 
     ~ClientContext() {
-- 
2.43.0


From 8f4ec027b162cebdcd5be4e78a7f0ee9b3fe3583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:16 +0000
Subject: [PATCH 091/112] fix: subscription updates are not taken for the reply
 to a client's first request

---
 src/client/include/Client.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/include/Client.hpp b/src/client/include/Client.hpp
index d4512eb..d4b3e23 100644
--- a/src/client/include/Client.hpp
+++ b/src/client/include/Client.hpp
@@ -345,7 +345,7 @@ class MDClientCtx : public ClientBase {
     std::unordered_map<std::string, Subscription>                  _subscriptions;
     timeUnit                                                       _timeout;
     std::string                                                    _clientId;
-    std::size_t                                                    _request_id = 0;
+    std::size_t                                                    _request_id = 1; // 0: messages that are not the reply to a request
 
 public:
     explicit MDClientCtx(const zmq::Context &zeromq_context, const timeUnit timeout = 1s, std::string clientId = "") // todo: also pass thread pool
-- 
2.43.0


From f5d41c831d181cc784b228fe9f929628a9b35af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:16 +0000
Subject: [PATCH 092/112] fix: a client forgets a subscription when it is
 unsubscribed and keeps those at different servers apart

---
 src/client/include/Client.hpp | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/client/include/Client.hpp b/src/client/include/Client.hpp
index d4b3e23..bcfb470 100644
--- a/src/client/include/Client.hpp
+++ b/src/client/include/Client.hpp
@@ -360,11 +360,11 @@ public:
     }
 
     std::unique_ptr<MDClientBase> &getClient(const URI<STRICT> &uri) {
-        auto baseUri = URI<STRICT>::factory(uri).setQuery({}).path("").fragment("").build();
-        if (_clients.contains(baseUri)) {
-            return _clients.at(baseUri);
+        auto base = baseUri(uri);
+        if (_clients.contains(base)) {
+            return _clients.at(base);
         }
-        auto [it, ins] = _clients.emplace(baseUri, createClient(baseUri));
+        auto [it, ins] = _clients.emplace(base, createClient(base));
         if (!ins) {
             throw std::logic_error("could not insert client into client list\n");
         }
@@ -394,15 +394,23 @@ public:
                 _requests.insert({ req_id, Request{ .uri = cmd.topic, .callback = std::move(cmd.callback), .timestamp_received = cmd.arrivalTime } });
             } else if (cmd.command == mdp::Command::Subscribe) {
                 req_id = _request_id++;
-                _subscriptions.insert({ mdp::Topic::fromMdpTopic(cmd.topic).toZmqTopic(), Subscription{ .uri = cmd.topic, .callback = std::move(cmd.callback), .timestamp_received = cmd.arrivalTime } });
-            } else if (cmd.command == mdp::Command::Unsubscribe) {
-                _requests.erase(0); // todo: lookup correct subscription
+                _subscriptions.insert({ subscriptionKey(baseUri(cmd.topic), mdp::Topic::fromMdpTopic(cmd.topic).toZmqTopic()), Subscription{ .uri = cmd.topic, .callback = std::move(cmd.callback), .timestamp_received = cmd.arrivalTime } });
             }
+        } else if (cmd.command == mdp::Command::Unsubscribe) {
+            _subscriptions.erase(subscriptionKey(baseUri(cmd.topic), mdp::Topic::fromMdpTopic(cmd.topic).toZmqTopic()));
         }
         sendCmd(cmd.topic, cmd.command, req_id, cmd.data);
     }
 
 private:
+    static URI<STRICT> baseUri(const URI<STRICT> &uri) {
+        return URI<STRICT>::factory(uri).setQuery({}).path("").fragment("").build();
+    }
+
+    static std::string subscriptionKey(const URI<STRICT> &baseUri, std::string_view zmqTopic) {
+        return std::format("{} {}", baseUri.str(), zmqTopic); // the same topic may be subscribed to at several servers
+    }
+
     void sendCmd(const URI<STRICT> &uri, mdp::Command commandType, std::size_t req_id, IoBuffer data = {}) const {
         const bool        isSet = commandType == mdp::Command::Set;
         zmq::MessageFrame cmdType{ std::string{ static_cast<char>(commandType) } };
@@ -462,8 +470,8 @@ private:
             for (const auto &[uri, client] : _clients) {
                 mdp::Message receivedEvent;
                 while (client->receive(receivedEvent)) {
-                    if (_subscriptions.contains(receivedEvent.serviceName)) {
-                        _subscriptions.at(receivedEvent.serviceName).callback(receivedEvent); // callback
+                    if (const auto key = subscriptionKey(uri, receivedEvent.serviceName); _subscriptions.contains(key)) {
+                        _subscriptions.at(key).callback(receivedEvent); // callback
                     }
                     if (_requests.contains(receivedEvent.id)) {
                         _requests.at(receivedEvent.id).callback(receivedEvent); // callback
-- 
2.43.0


From 814dc8b65bb6cd78ca1ad6a73cd930a0ab87c543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:16 +0000
Subject: [PATCH 093/112] fix: messages other than subscription updates are not
 handed to subscribers

---
 src/client/include/Client.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/include/Client.hpp b/src/client/include/Client.hpp
index bcfb470..729d905 100644
--- a/src/client/include/Client.hpp
+++ b/src/client/include/Client.hpp
@@ -288,7 +288,7 @@ public:
             output.id              = 0; // review if this is still needed
             return true;
         }
-        return true;
+        return false;
     }
 
     bool receive(mdp::Message &msg) override {
-- 
2.43.0


From c43780f21af87e05a1c1fe2e888d01ced37d3d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:44 +0000
Subject: [PATCH 094/112] fix: the client's tables of requests and
 subscriptions are not changed while the poller uses them

---
 src/client/include/Client.hpp | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/client/include/Client.hpp b/src/client/include/Client.hpp
index 729d905..aacb636 100644
--- a/src/client/include/Client.hpp
+++ b/src/client/include/Client.hpp
@@ -7,7 +7,9 @@
 #include <chrono>
 #include <ClientContext.hpp>
 #include <MdpMessage.hpp>
+#include <mutex>
 #include <opencmw.hpp>
+#include <optional>
 #include <Topic.hpp>
 #include <URI.hpp>
 #include <zmq/ZmqUtils.hpp>
@@ -341,8 +343,9 @@ class MDClientCtx : public ClientBase {
     zmq::Socket                                                    _control_socket_recv;
     std::jthread                                                   _poller;
     std::vector<zmq_pollitem_t>                                    _pollitems{};
+    std::mutex                                                     _callbacksMutex; // requests are made by the dispatcher's thread, answers are handled by the poller's
     std::unordered_map<std::size_t, Request>                       _requests;
-    std::unordered_map<std::string, Subscription>                  _subscriptions;
+    std::unordered_map<std::string, std::shared_ptr<Subscription>> _subscriptions;
     timeUnit                                                       _timeout;
     std::string                                                    _clientId;
     std::size_t                                                    _request_id = 1; // 0: messages that are not the reply to a request
@@ -391,13 +394,18 @@ public:
         if (cmd.callback) {
             if (cmd.command == mdp::Command::Get || cmd.command == mdp::Command::Set) {
                 req_id = _request_id++;
+                std::scoped_lock lock(_callbacksMutex);
                 _requests.insert({ req_id, Request{ .uri = cmd.topic, .callback = std::move(cmd.callback), .timestamp_received = cmd.arrivalTime } });
             } else if (cmd.command == mdp::Command::Subscribe) {
                 req_id = _request_id++;
-                _subscriptions.insert({ subscriptionKey(baseUri(cmd.topic), mdp::Topic::fromMdpTopic(cmd.topic).toZmqTopic()), Subscription{ .uri = cmd.topic, .callback = std::move(cmd.callback), .timestamp_received = cmd.arrivalTime } });
+                auto             key = subscriptionKey(baseUri(cmd.topic), mdp::Topic::fromMdpTopic(cmd.topic).toZmqTopic());
+                std::scoped_lock lock(_callbacksMutex);
+                _subscriptions.insert({ std::move(key), std::make_shared<Subscription>(Subscription{ .uri = cmd.topic, .callback = std::move(cmd.callback), .timestamp_received = cmd.arrivalTime }) });
             }
         } else if (cmd.command == mdp::Command::Unsubscribe) {
-            _subscriptions.erase(subscriptionKey(baseUri(cmd.topic), mdp::Topic::fromMdpTopic(cmd.topic).toZmqTopic()));
+            const auto       key = subscriptionKey(baseUri(cmd.topic), mdp::Topic::fromMdpTopic(cmd.topic).toZmqTopic());
+            std::scoped_lock lock(_callbacksMutex);
+            _subscriptions.erase(key);
         }
         sendCmd(cmd.topic, cmd.command, req_id, cmd.data);
     }
@@ -411,6 +419,18 @@ private:
         return std::format("{} {}", baseUri.str(), zmqTopic); // the same topic may be subscribed to at several servers
     }
 
+    std::shared_ptr<Subscription> findSubscription(const std::string &key) {
+        std::scoped_lock lock(_callbacksMutex);
+        const auto       it = _subscriptions.find(key);
+        return it == _subscriptions.end() ? nullptr : it->second;
+    }
+
+    std::optional<Request> takeRequest(std::size_t id) {
+        std::scoped_lock lock(_callbacksMutex);
+        auto             node = _requests.extract(id);
+        return node ? std::optional<Request>(std::move(node.mapped())) : std::nullopt;
+    }
+
     void sendCmd(const URI<STRICT> &uri, mdp::Command commandType, std::size_t req_id, IoBuffer data = {}) const {
         const bool        isSet = commandType == mdp::Command::Set;
         zmq::MessageFrame cmdType{ std::string{ static_cast<char>(commandType) } };
@@ -470,12 +490,11 @@ private:
             for (const auto &[uri, client] : _clients) {
                 mdp::Message receivedEvent;
                 while (client->receive(receivedEvent)) {
-                    if (const auto key = subscriptionKey(uri, receivedEvent.serviceName); _subscriptions.contains(key)) {
-                        _subscriptions.at(key).callback(receivedEvent); // callback
+                    if (const auto subscription = findSubscription(subscriptionKey(uri, receivedEvent.serviceName))) {
+                        subscription->callback(receivedEvent); // callback
                     }
-                    if (_requests.contains(receivedEvent.id)) {
-                        _requests.at(receivedEvent.id).callback(receivedEvent); // callback
-                        _requests.erase(receivedEvent.id);
+                    if (const auto request = takeRequest(receivedEvent.id)) {
+                        request->callback(receivedEvent); // callback
                     }
                     // perform housekeeping duties if necessary
                     if (auto now = std::chrono::system_clock::now(); nextHousekeeping < now) {
-- 
2.43.0


From 7cef174aa872f31034b05d544f5a0196e257225f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:44 +0000
Subject: [PATCH 095/112] fix: a client request that does not fit the queue is
 reported to its callback instead of being dropped

---
 src/client/include/ClientContext.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/client/include/ClientContext.hpp b/src/client/include/ClientContext.hpp
index b436d87..8c98fde 100644
--- a/src/client/include/ClientContext.hpp
+++ b/src/client/include/ClientContext.hpp
@@ -111,14 +111,21 @@ private:
     };
 
     void queueCommand(mdp::Command cmd, const URI<STRICT> &endpoint, std::function<void(const mdp::Message &)> &&callback = {}, IoBuffer &&data = IoBuffer{}) {
-        bool published = _commandRingBuffer->tryPublishEvent([&endpoint, &cmd, cb = std::move(callback), d = std::move(data)](Command &&ev, long /*seq*/) mutable {
+        bool published = _commandRingBuffer->tryPublishEvent([&endpoint, &cmd, &callback, &data](Command &&ev, long /*seq*/) {
             ev.command  = cmd;
-            ev.callback = std::move(cb);
+            ev.callback = std::move(callback);
             ev.topic    = FWD(endpoint);
-            ev.data     = std::move(d);
+            ev.data     = std::move(data);
         });
         if (!published) {
             std::print("failed to publish command\n");
+            if (callback) { // the callback would not be called otherwise
+                mdp::Message reply;
+                reply.command = mdp::Command::Final;
+                reply.topic   = endpoint;
+                reply.error   = "failed to publish command: too many pending requests";
+                callback(reply);
+            }
         }
     }
 };
-- 
2.43.0


From 6fe4122322f334686981ee863166872ac2113c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:24 +0000
Subject: [PATCH 096/112] fix: a request with an unsupported scheme throws in
 the caller's thread instead of ending the process

---
 src/client/include/ClientContext.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/client/include/ClientContext.hpp b/src/client/include/ClientContext.hpp
index 8c98fde..0ce9b6f 100644
--- a/src/client/include/ClientContext.hpp
+++ b/src/client/include/ClientContext.hpp
@@ -4,6 +4,7 @@
 #include <functional>
 #include <memory>
 #include <thread>
+#include <tuple>
 #include <utility>
 #include <vector>
 
@@ -103,14 +104,15 @@ private:
     }
 
     ClientBase &getClientCtx(const URI<STRICT> &uri) {
-        if (_schemeContexts.contains(uri.scheme().value())) {
-            return _schemeContexts.at(uri.scheme().value());
+        if (const auto scheme = uri.scheme().value_or(""); _schemeContexts.contains(scheme)) {
+            return _schemeContexts.at(scheme);
         } else {
             throw std::logic_error("no client implementation for scheme");
         }
     };
 
     void queueCommand(mdp::Command cmd, const URI<STRICT> &endpoint, std::function<void(const mdp::Message &)> &&callback = {}, IoBuffer &&data = IoBuffer{}) {
+        std::ignore    = getClientCtx(endpoint); // throws here rather than in the dispatcher's thread
         bool published = _commandRingBuffer->tryPublishEvent([&endpoint, &cmd, &callback, &data](Command &&ev, long /*seq*/) {
             ev.command  = cmd;
             ev.callback = std::move(callback);
-- 
2.43.0


From 7ebca0be73812405c73871d47d7f3f1eed114643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:24 +0000
Subject: [PATCH 097/112] fix: a request that cannot be made is reported to its
 callback instead of ending the process

---
 src/client/include/Client.hpp | 44 ++++++++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/src/client/include/Client.hpp b/src/client/include/Client.hpp
index aacb636..db7b972 100644
--- a/src/client/include/Client.hpp
+++ b/src/client/include/Client.hpp
@@ -11,6 +11,7 @@
 #include <opencmw.hpp>
 #include <optional>
 #include <Topic.hpp>
+#include <tuple>
 #include <URI.hpp>
 #include <zmq/ZmqUtils.hpp>
 
@@ -390,6 +391,16 @@ public:
     }
 
     void request(Command cmd) override {
+        if (cmd.command == mdp::Command::Subscribe || cmd.command == mdp::Command::Unsubscribe) {
+            try {
+                std::ignore = mdp::Topic::fromMdpTopic(cmd.topic);
+            } catch (const std::exception &e) {
+                if (cmd.callback) {
+                    notifyError(cmd.callback, cmd.topic, e.what());
+                }
+                return;
+            }
+        }
         std::size_t req_id = 0;
         if (cmd.callback) {
             if (cmd.command == mdp::Command::Get || cmd.command == mdp::Command::Set) {
@@ -449,6 +460,7 @@ private:
         zmq::MessageFrame cmd;
         zmq::MessageFrame reqId;
         zmq::MessageFrame endpoint;
+        zmq::MessageFrame data;
         while (cmd.receive(_control_socket_recv, ZMQ_DONTWAIT).isValid()) {
             if (!reqId.receive(_control_socket_recv, ZMQ_DONTWAIT).isValid()) {
                 throw std::logic_error("invalid request received: failure receiving message");
@@ -456,17 +468,22 @@ private:
             if (!endpoint.receive(_control_socket_recv, ZMQ_DONTWAIT).isValid()) {
                 throw std::logic_error("invalid request received: invalid message contents");
             }
-            URI<STRICT> uri{ std::string(endpoint.data()) };
-            auto       &client = getClient(uri);
+            if (cmd.data().size() == 1 && cmd.data()[0] == static_cast<char>(mdp::Command::Set) && !data.receive(_control_socket_recv, ZMQ_DONTWAIT).isValid()) {
+                throw std::logic_error("missing set str");
+            }
+            handleRequest(cmd, reqId, endpoint, data);
+        }
+    }
+
+    void handleRequest(const zmq::MessageFrame &cmd, const zmq::MessageFrame &reqId, const zmq::MessageFrame &endpoint, const zmq::MessageFrame &data) {
+        const URI<STRICT> uri{ std::string(endpoint.data()) };
+        try {
+            auto &client = getClient(uri);
             if (cmd.data().size() != 1) {
                 throw std::logic_error("invalid request received: wrong number of frames");
             } else if (cmd.data()[0] == static_cast<char>(mdp::Command::Get)) {
                 client->get(uri, reqId.data());
             } else if (cmd.data()[0] == static_cast<char>(mdp::Command::Set)) {
-                zmq::MessageFrame data;
-                if (!data.receive(_control_socket_recv, ZMQ_DONTWAIT).isValid()) {
-                    throw std::logic_error("missing set str");
-                }
                 client->set(uri, reqId.data(), as_bytes(std::span(data.data().data(), data.data().size())));
             } else if (cmd.data()[0] == static_cast<char>(mdp::Command::Subscribe)) {
                 client->subscribe(uri, reqId.data());
@@ -475,9 +492,24 @@ private:
             } else {
                 throw std::logic_error("invalid request received"); // messages always consist of 2 frames
             }
+        } catch (const std::exception &e) { // the request cannot be made: tell who asked for it and carry on with the others
+            std::size_t id = 0;
+            std::from_chars(reqId.data().data(), reqId.data().data() + reqId.data().size(), id);
+            if (const auto request = takeRequest(id)) {
+                notifyError(request->callback, uri, e.what());
+            }
         }
     }
 
+    template<typename Callback>
+    static void notifyError(const Callback &callback, const URI<STRICT> &uri, std::string_view error) {
+        mdp::Message reply;
+        reply.command = mdp::Command::Final;
+        reply.topic   = uri;
+        reply.error   = error;
+        callback(reply);
+    }
+
     void poll(const std::stop_token &stoken) {
         auto nextHousekeeping = std::chrono::system_clock::now();
         zmq::invoke(zmq_connect, _control_socket_recv, "inproc://mdclientControlSocket").assertSuccess();
-- 
2.43.0


From 06e3a2e9a35efbdb739d1032f9b223468ce48eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:41 +0000
Subject: [PATCH 098/112] fix: requests to a server the client could not
 connect to are reported instead of being lost

---
 src/client/include/Client.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/client/include/Client.hpp b/src/client/include/Client.hpp
index db7b972..0e8bf78 100644
--- a/src/client/include/Client.hpp
+++ b/src/client/include/Client.hpp
@@ -82,8 +82,8 @@ public:
         std::string zmq_ep = mdp::toZeroMQEndpoint(ep);
         if (opencmw::zmq::invoke(zmq_connect, con._socket, zmq_ep).isValid()) {
             _pollItems.push_back({ .socket = con._socket.zmq_ptr, .fd = 0, .events = ZMQ_POLLIN, .revents = 0 });
+            con._connectionState = ConnectionState::CONNECTED;
         }
-        con._connectionState = ConnectionState::CONNECTED;
     }
 
     detail::Connection &findConnection(const URI<STRICT> &uri) {
@@ -92,9 +92,9 @@ public:
             auto newCon = detail::Connection(_context, uri.authority().value(), ZMQ_DEALER);
             connect(newCon);
             _connections.push_back(std::move(newCon));
-            return _connections.back();
+            return assertConnected(_connections.back());
         }
-        return *con;
+        return assertConnected(*con);
     }
 
     void get(const URI<STRICT> &uri, std::string_view req_id) override {
@@ -187,6 +187,13 @@ public:
     }
 
 private:
+    static detail::Connection &assertConnected(detail::Connection &con) {
+        if (con._connectionState != detail::ConnectionState::CONNECTED) {
+            throw std::runtime_error(std::format("could not connect to '{}'", con._authority));
+        }
+        return con;
+    }
+
     static mdp::Message createRequestTemplate(mdp::Command command, const URI<STRICT> &uri, std::string_view req_id) {
         const auto   subscription = mdp::Topic::fromString(uri.relativeRefNoFragment().value_or(""));
         mdp::Message req;
-- 
2.43.0


From 42767b21c1f7129a35551da83d109699d5b9390b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:35 +0000
Subject: [PATCH 099/112] fix: a list of DNS entries with fields of different
 lengths is refused instead of being read out of bounds

---
 src/services/include/services/dns_types.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/services/include/services/dns_types.hpp b/src/services/include/services/dns_types.hpp
index 0eb191c..a57eff1 100644
--- a/src/services/include/services/dns_types.hpp
+++ b/src/services/include/services/dns_types.hpp
@@ -2,7 +2,9 @@
 #define DNS_TYPES_HPP
 
 #include <MIME.hpp>
+#include <cmath>
 #include <opencmw.hpp>
+#include <stdexcept>
 
 namespace opencmw::service::dns {
 
@@ -80,14 +82,16 @@ struct FlatEntryList {
     template<typename EntryType = Entry>
     [[nodiscard]] std::vector<EntryType> toEntries() const {
         const std::size_t size = protocol.size();
-        assert(hostname.size() == size
-                && port.size() == size
-                && service_name.size() == size
-                && service_type.size() == size
-                && signal_name.size() == size
-                && signal_unit.size() == size
-                && signal_rate.size() == size
-                && signal_type.size() == size);
+        if (hostname.size() != size
+                || port.size() != size
+                || service_name.size() != size
+                || service_type.size() != size
+                || signal_name.size() != size
+                || signal_unit.size() != size
+                || signal_rate.size() != size
+                || signal_type.size() != size) { // may come from anybody
+            throw std::invalid_argument("lists of entry fields differ in length");
+        }
 
         std::vector<EntryType> res;
         res.reserve(size);
-- 
2.43.0


From 1087f201291b3fd2f2aedbdb3a691917b3751564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:17 +0000
Subject: [PATCH 100/112] fix: expired DNS entries do not come back to life
 after a restart

---
 src/services/include/services/dns_storage.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/services/include/services/dns_storage.hpp b/src/services/include/services/dns_storage.hpp
index 8fd0e91..9a4c6e2 100644
--- a/src/services/include/services/dns_storage.hpp
+++ b/src/services/include/services/dns_storage.hpp
@@ -141,9 +141,7 @@ bool DataStorage<EntryType, FilterType, SerialiseType>::loadDataFromFile(const c
 
 template<class EntryType, class FilterType, class SerialiseType>
 bool DataStorage<EntryType, FilterType, SerialiseType>::saveDataToFile(const char *filepath) {
-    std::vector<EntryType> entries;
-    std::for_each(_entries.begin(), _entries.end(), [&entries](auto &e) { entries.push_back({ e }); });
-    SerialiseType k{ entries };
+    SerialiseType k{ queryEntries() }; // without expired entries, which would come back to life when loaded
     IoBuffer      outBuffer;
     opencmw::serialise<opencmw::YaS>(outBuffer, k);
 
-- 
2.43.0


From 85262afb8eb107e56f48c28d801d45e46316b445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:28 +0000
Subject: [PATCH 101/112] fix: DNS queries and deletions that name a signal
 unit no longer apply to signals of other units

---
 src/services/include/services/dns_types.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/services/include/services/dns_types.hpp b/src/services/include/services/dns_types.hpp
index a57eff1..351ee86 100644
--- a/src/services/include/services/dns_types.hpp
+++ b/src/services/include/services/dns_types.hpp
@@ -34,9 +34,10 @@ struct QueryEntry : Entry {
                         check_string(service_name)
                                 check_string(service_type)
                                         check_string(signal_name)
-                                                check_string(signal_type)
+                                                check_string(signal_unit)
+                                                        check_string(signal_type)
 #undef check_string
-                                                        if (port != -1 && port != entry.port) return false;
+                                                                if (port != -1 && port != entry.port) return false;
         if (!std::isnan(signal_rate) && signal_rate != entry.signal_rate) return false;
 
         return true;
-- 
2.43.0


From 267af638d7bcb65fd2a0981e51c7ce44a2087d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:28 +0000
Subject: [PATCH 102/112] fix: renewing a DNS entry without a signal rate no
 longer adds a duplicate

---
 src/services/include/services/dns_types.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/services/include/services/dns_types.hpp b/src/services/include/services/dns_types.hpp
index 351ee86..13c39b0 100644
--- a/src/services/include/services/dns_types.hpp
+++ b/src/services/include/services/dns_types.hpp
@@ -20,7 +20,11 @@ struct Entry {
     float       signal_rate{ std::numeric_limits<float>::quiet_NaN() };
     std::string signal_type;
 
-    bool        operator==(const Entry &b) const = default;
+    bool        operator==(const Entry &b) const {
+        const auto sameRate = [](float l, float r) { return l == r || (std::isnan(l) && std::isnan(r)); }; // NaN: not specified
+        return protocol == b.protocol && hostname == b.hostname && port == b.port && service_name == b.service_name && service_type == b.service_type
+            && signal_name == b.signal_name && signal_unit == b.signal_unit && sameRate(signal_rate, b.signal_rate) && signal_type == b.signal_type;
+    }
 };
 
 struct QueryEntry : Entry {
-- 
2.43.0


From 8ede02959c8c413888b72bbb6da9067ed5e756ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:07 +0000
Subject: [PATCH 103/112] fix: blocking DNS requests keep their time-out, miss
 no reply and do not use the reply of a caller that is gone

---
 src/services/include/services/dns_client.hpp | 32 ++++++++++++--------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/services/include/services/dns_client.hpp b/src/services/include/services/dns_client.hpp
index a9508d2..24348c9 100644
--- a/src/services/include/services/dns_client.hpp
+++ b/src/services/include/services/dns_client.hpp
@@ -4,9 +4,11 @@
 #include "ClientContext.hpp"
 #include "dns_types.hpp"
 #include "MdpMessage.hpp"
-#include <atomic>
 #include <chrono>
+#include <condition_variable>
 #include <IoSerialiserYaS.hpp>
+#include <memory>
+#include <mutex>
 #include <RestClient.hpp>
 #include <URI.hpp>
 #include <utility>
@@ -88,22 +90,26 @@ public:
 
     template<typename ReturnType>
     auto _doSync(auto function, auto parameter, std::chrono::seconds timeout) {
-        std::atomic_bool        received{ false };
-        std::mutex              m;
-        std::condition_variable cv;
-        ReturnType              ret;
-
-        (this->*function)([&received, &cv, &ret](const ReturnType &&r) {
-            ret      = std::move(r);
-            received = true;
-            cv.notify_one();
+        struct Reply { // shared, because it may arrive after the time-out
+            bool                    received{ false };
+            std::mutex              m;
+            std::condition_variable cv;
+            ReturnType              ret;
+        };
+        auto reply = std::make_shared<Reply>();
+
+        (this->*function)([reply](ReturnType r) {
+            std::lock_guard l{ reply->m };
+            reply->ret      = std::move(r);
+            reply->received = true;
+            reply->cv.notify_one();
         },
                 parameter);
 
-        std::unique_lock l{ m };
-        cv.wait(l, [&received] { return received.load(); });
+        std::unique_lock l{ reply->m };
+        reply->cv.wait_for(l, timeout, [&reply] { return reply->received; });
 
-        return ret;
+        return std::move(reply->ret);
     }
     std::vector<Entry> querySignals(const Entry &filter = {}, std::chrono::seconds timeout = 20s) {
         return _doSync<std::vector<Entry>>(&DnsClient::querySignalsAsync, filter, timeout);
-- 
2.43.0


From 37171bd482bcb6da27c8942e8019bfb7f0e3c3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:07 +0000
Subject: [PATCH 104/112] fix: a reply that is no list of DNS entries does not
 end the client

---
 src/services/include/services/dns_client.hpp | 38 ++++++++++----------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/src/services/include/services/dns_client.hpp b/src/services/include/services/dns_client.hpp
index 24348c9..1d6c744 100644
--- a/src/services/include/services/dns_client.hpp
+++ b/src/services/include/services/dns_client.hpp
@@ -36,14 +36,7 @@ public:
 
         _clientContext.get(uri.build(), [callback = std::move(callback)](const mdp::Message &msg) {
             std::cout << msg.error << std::endl;
-            IoBuffer      buf{ msg.data };
-
-            FlatEntryList resp;
-            if (!buf.empty()) {
-                deserialise<YaS, ProtocolCheck::ALWAYS>(buf, resp);
-            }
-
-            callback(resp.toEntries());
+            callback(decodeReply(msg));
         });
     }
 
@@ -56,12 +49,7 @@ public:
 
         _clientContext.set(
                 _endpoint, [callback = std::move(callback)](auto &msg) {
-                    FlatEntryList resp;
-                    IoBuffer      buf{ msg.data };
-                    if (!buf.empty()) {
-                        deserialise<YaS, ProtocolCheck::ALWAYS>(buf, resp);
-                    }
-                    callback(resp.toEntries());
+                    callback(decodeReply(msg));
                 },
                 std::move(buf));
     }
@@ -78,16 +66,26 @@ public:
 
         _clientContext.set(
                 uri.build(), [callback = std::move(callback)](auto &msg) {
-                    FlatEntryList resp;
-                    IoBuffer      buf{ msg.data };
-                    if (!buf.empty()) {
-                        deserialise<YaS, ProtocolCheck::ALWAYS>(buf, resp);
-                    }
-                    callback(resp.toEntries());
+                    callback(decodeReply(msg));
                 },
                 std::move(buf));
     }
 
+    // runs in the client's thread, which must not be ended by a reply that cannot be decoded
+    static std::vector<Entry> decodeReply(const mdp::Message &msg) {
+        IoBuffer      buf{ msg.data };
+        FlatEntryList resp;
+        try {
+            if (!buf.empty()) {
+                deserialise<YaS, ProtocolCheck::ALWAYS>(buf, resp);
+            }
+            return resp.toEntries();
+        } catch (...) { // ProtocolException is no std::exception
+            std::cerr << "could not decode the reply of the DNS" << std::endl;
+            return {};
+        }
+    }
+
     template<typename ReturnType>
     auto _doSync(auto function, auto parameter, std::chrono::seconds timeout) {
         struct Reply { // shared, because it may arrive after the time-out
-- 
2.43.0


From 63381f3b958f0e169697d5d44d0c0f8a861056d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:47 +0000
Subject: [PATCH 105/112] fix: the file handler does not serve files outside
 its root

---
 src/majordomo/include/majordomo/Rest.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/majordomo/include/majordomo/Rest.hpp b/src/majordomo/include/majordomo/Rest.hpp
index 8dfcab6..4f7c912 100644
--- a/src/majordomo/include/majordomo/Rest.hpp
+++ b/src/majordomo/include/majordomo/Rest.hpp
@@ -179,8 +179,9 @@ inline auto fileSystemHandler(std::string path, std::string prefix, std::filesys
             while (p.starts_with("/")) {
                 p.remove_prefix(1);
             }
-            auto file = root / p;
-            if (!std::filesystem::exists(file)) {
+            const auto relative = std::filesystem::path{ p }.lexically_normal();
+            const auto file     = root / relative;
+            if ((!relative.empty() && *relative.begin() == "..") || !std::filesystem::exists(file)) { // do not leave the root
                 Response response;
                 response.code = 404;
                 response.headers.emplace_back("content-type", "text/plain");
-- 
2.43.0


From 030bdc8db997b23cea54e6c59ea8a9230116eaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:58 +0000
Subject: [PATCH 106/112] fix: asking the file handler for a directory or an
 overlong name gives 404 instead of an exception

---
 src/majordomo/include/majordomo/Rest.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/Rest.hpp b/src/majordomo/include/majordomo/Rest.hpp
index 4f7c912..1e46ef8 100644
--- a/src/majordomo/include/majordomo/Rest.hpp
+++ b/src/majordomo/include/majordomo/Rest.hpp
@@ -167,6 +167,13 @@ struct MappedFile {
 
 } // namespace detail
 
+namespace detail {
+inline bool isRegularFile(const std::filesystem::path &path) {
+    std::error_code error; // e.g. for a name that is too long
+    return std::filesystem::is_regular_file(path, error);
+}
+} // namespace detail
+
 inline auto fileSystemHandler(std::string path, std::string prefix, std::filesystem::path root, std::vector<std::pair<std::string, std::string>> extraHeaders = {}, std::size_t mmapThreshold = 1024 * 1024 * 100) {
     return Handler{
         .method  = "GET",
@@ -181,7 +188,7 @@ inline auto fileSystemHandler(std::string path, std::string prefix, std::filesys
             }
             const auto relative = std::filesystem::path{ p }.lexically_normal();
             const auto file     = root / relative;
-            if ((!relative.empty() && *relative.begin() == "..") || !std::filesystem::exists(file)) { // do not leave the root
+            if ((!relative.empty() && *relative.begin() == "..") || !detail::isRegularFile(file)) { // do not leave the root
                 Response response;
                 response.code = 404;
                 response.headers.emplace_back("content-type", "text/plain");
-- 
2.43.0


From e7a24ceaf5489d936c3e1f654e2bb3bc479acc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:10 +0000
Subject: [PATCH 107/112] fix: large files are served with the extra headers,
 too

---
 src/majordomo/include/majordomo/Rest.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/Rest.hpp b/src/majordomo/include/majordomo/Rest.hpp
index 1e46ef8..4d1c2c6 100644
--- a/src/majordomo/include/majordomo/Rest.hpp
+++ b/src/majordomo/include/majordomo/Rest.hpp
@@ -215,7 +215,8 @@ inline auto fileSystemHandler(std::string path, std::string prefix, std::filesys
                 }
 
                 Response response;
-                response.code = 200;
+                response.code    = 200;
+                response.headers = extraHeaders;
                 response.headers.emplace_back("content-type", mimeTypeFromExtension(file.string()));
                 auto view = it->second.view();
                 response.headers.emplace_back("content-length", std::to_string(view.size()));
-- 
2.43.0


From e8b2cc1460799d17c18902d5e1f657158cc9fee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:36 +0000
Subject: [PATCH 108/112] fix: the REST server no longer takes "nothing to read
 for now" for received bytes

When the bytes a client has sent so far are a multiple of the read buffer's
size, the next recv() returns -1 with EAGAIN, which was handed to
nghttp2_session_mem_recv2() as a length of SIZE_MAX.  A connection closed by
the peer (0 bytes) was kept, and polled in a busy loop, when errno happened
to be EAGAIN.
---
 src/majordomo/include/majordomo/RestServer.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/RestServer.hpp b/src/majordomo/include/majordomo/RestServer.hpp
index 65160aa..65f4ff3 100644
--- a/src/majordomo/include/majordomo/RestServer.hpp
+++ b/src/majordomo/include/majordomo/RestServer.hpp
@@ -2438,7 +2438,10 @@ struct RestServer {
         while (mightHaveMore) {
             std::array<uint8_t, 1024> buffer;
             ssize_t                   bytes_read = session->_socket.read(buffer.data(), sizeof(buffer));
-            if (bytes_read <= 0 && errno != EAGAIN) {
+            if (bytes_read < 0 && (errno == EAGAIN || errno == EWOULDBLOCK)) {
+                break; // nothing more to read for now
+            }
+            if (bytes_read <= 0) {
                 if (bytes_read < 0) {
                     HTTP_DBG("Server::read failed: {} {}", bytes_read, session->_socket.lastError());
                 }
-- 
2.43.0


From adc24352beefc33c534c3cca3c304ef1b0187c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:50 +0000
Subject: [PATCH 109/112] fix: requests cancelled by an HTTP/2 client do not
 stay in the server forever

A request or poll that waits for its reply has no response yet, so it was
never removed when its stream was closed, and neither was an upload that was
cancelled half-way.
---
 src/majordomo/include/majordomo/RestServer.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/majordomo/include/majordomo/RestServer.hpp b/src/majordomo/include/majordomo/RestServer.hpp
index 65f4ff3..f4d80a4 100644
--- a/src/majordomo/include/majordomo/RestServer.hpp
+++ b/src/majordomo/include/majordomo/RestServer.hpp
@@ -964,12 +964,11 @@ struct Http2Session : public SessionBase<Http2Session, std::int32_t> {
     int stream_closed_callback(int32_t stream_id, uint32_t error_code) {
         std::ignore = error_code;
         HTTP_DBG("Server::Stream closed: {} ({})", stream_id, error_code);
-        const std::size_t erased = _responsesByStreamId.erase(stream_id);
-        // if this was canceled by the client, remove any pending requests/polls
-        if (erased > 0) {
-            std::erase_if(_pendingRequests, [stream_id](const auto &request) { return std::get<1>(request) == stream_id; });
-            std::erase_if(_pendingPolls, [stream_id](const auto &poll) { return std::get<2>(poll) == stream_id; });
-        }
+        _responsesByStreamId.erase(stream_id);
+        // if this was canceled by the client, remove any incomplete or pending requests/polls
+        _requestsByStreamId.erase(stream_id);
+        std::erase_if(_pendingRequests, [stream_id](const auto &request) { return std::get<1>(request) == stream_id; });
+        std::erase_if(_pendingPolls, [stream_id](const auto &poll) { return std::get<2>(poll) == stream_id; });
         return 0;
     }
 
-- 
2.43.0


From 033158524220c15d848da2b7f1b24584582af122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:38 +0000
Subject: [PATCH 110/112] fix: HTTP requests that are still being sent are not
 answered or dropped because of others

getMessages() applied partition_point() to the requests of a connection, which
are ordered by stream and not partitioned by being complete: with several
requests under way, incomplete ones were answered with "Invalid REST method"
and forgotten (the rest of an upload then hit an assertion), and complete ones
stayed unprocessed.
---
 src/majordomo/include/majordomo/RestServer.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/majordomo/include/majordomo/RestServer.hpp b/src/majordomo/include/majordomo/RestServer.hpp
index f4d80a4..d266af6 100644
--- a/src/majordomo/include/majordomo/RestServer.hpp
+++ b/src/majordomo/include/majordomo/RestServer.hpp
@@ -676,13 +676,12 @@ struct SessionBase {
     }
 
     std::vector<Message> getMessages(IdGenerator &idGenerator) {
-        const auto           completeEnd = std::ranges::partition_point(_requestsByStreamId, [](const auto &pair) { return pair.second.complete; });
-
         std::vector<Message> result;
-        result.reserve(static_cast<std::size_t>(std::distance(_requestsByStreamId.begin(), completeEnd)));
 
-        for (auto it = _requestsByStreamId.begin(); it != completeEnd; ++it) {
-            auto &[streamId, request] = *it;
+        for (auto &[streamId, request] : _requestsByStreamId) {
+            if (!request.complete) {
+                continue;
+            }
 
             switch (request.method) {
             case RestMethod::Options:
@@ -700,12 +699,12 @@ struct SessionBase {
                 }
                 break;
             case RestMethod::Invalid:
-                respondWithError(it->first, "Invalid REST method", kHttpError);
+                respondWithError(streamId, "Invalid REST method", kHttpError);
                 break;
             }
         }
 
-        _requestsByStreamId.erase(_requestsByStreamId.begin(), completeEnd);
+        std::erase_if(_requestsByStreamId, [](const auto &pair) { return pair.second.complete; });
         return result;
     }
 
-- 
2.43.0


From 4551ef8de285aa2957adc7a5e2faeafa83946a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:57 +0000
Subject: [PATCH 111/112] fix: an HTTP/2 connection is not dropped when its
 socket's buffer is full

send() reports a full socket buffer by returning -1 with EAGAIN, not 0.
---
 src/rest/include/rest/RestUtils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rest/include/rest/RestUtils.hpp b/src/rest/include/rest/RestUtils.hpp
index 0cb8d7b..d61212d 100644
--- a/src/rest/include/rest/RestUtils.hpp
+++ b/src/rest/include/rest/RestUtils.hpp
@@ -469,8 +469,8 @@ struct WriteBuffer {
         std::size_t written = 0;
         while (size - written > 0) {
             const ssize_t n = socket.write(buffer.data() + written, size - written);
-            if (n == 0 && errno == EAGAIN) {
-                break;
+            if (n < 0 && (errno == EAGAIN || errno == EWOULDBLOCK)) {
+                break; // the socket's buffer is full, continue later
             }
             if (n <= 0) {
                 return false;
-- 
2.43.0


From 1fe95830c93de7d852ceda86f5f846126364d336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:57 +0000
Subject: [PATCH 112/112] fix: a malformed long polling index does not lose the
 topic's subscription

The first poll of a topic creates its cache entry and subscribes to it; with
a malformed index, the subscription was dropped but the entry stayed, so that
no later poll subscribed and none ever saw an update.
---
 src/majordomo/include/majordomo/RestServer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/RestServer.hpp b/src/majordomo/include/majordomo/RestServer.hpp
index d266af6..2c88df5 100644
--- a/src/majordomo/include/majordomo/RestServer.hpp
+++ b/src/majordomo/include/majordomo/RestServer.hpp
@@ -573,7 +573,7 @@ struct SessionBase {
         std::uint64_t index = 0;
         if (auto [ptr, ec] = std::from_chars(request.longPollIndex.data(), request.longPollIndex.data() + request.longPollIndex.size(), index); ec != std::errc()) {
             respondWithError(streamId, std::format("Malformed LongPollingIdx '{}'", request.longPollIndex));
-            return {};
+            return result;
         }
 
 #ifdef OPENCMW_PROFILE_HTTP
-- 
2.43.0

