From 2528f9862112ecc542d260697b88bea5b47d201c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 01/28] fix: bound the JSON literal match by the end of the
 text

have(const char*) compared the end of the text with a pointer into the
pattern literal, so 'true' and 'false' were accepted or refused depending
on where the linker placed the literal relative to the argument string.
---
 include/eni/json/Parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/json/Parser.h b/include/eni/json/Parser.h
index 20cd201..8231840 100644
--- a/include/eni/json/Parser.h
+++ b/include/eni/json/Parser.h
@@ -260,7 +260,7 @@ private:
   bool have(const char *pPat) {
     int i = 0;
     for(; pPat[i] != '\0'; ++i){
-      if((m_End <= pPat+i) || (pPat[i] != m_It[i])) return 0;
+      if((m_End <= m_It+i) || (pPat[i] != m_It[i])) return 0;
     }
     m_It += i;
     return 1;
-- 
2.43.0


From 59e19985851b58ef0f7d5d391d6d848386946434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 02/28] fix: validate the arguments of the json operation

Missing or wrongly typed arguments were dereferenced as strings and
integers, offsets outside the text and indices outside the token list were
used unchecked, failed jsmn runs were used as token counts, and parseString
took the end offset for a length.
---
 examples/eni/json/eni_json.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/examples/eni/json/eni_json.cpp b/examples/eni/json/eni_json.cpp
index 10fd45a..728d80f 100644
--- a/examples/eni/json/eni_json.cpp
+++ b/examples/eni/json/eni_json.cpp
@@ -13,7 +13,7 @@
 namespace {
 std::string parseString(const std::string& raw) {
     json::Parser parser(raw);
-    if (!parser) return "";
+    if (!parser || !parser.getRoot().isString()) return "";
     return parser.getRoot().toString();
 }
 std::vector<jsmntok_t> internalParse(const char* data, int start, int end) {
@@ -22,11 +22,13 @@ std::vector<jsmntok_t> internalParse(const char* data, int start, int end) {
     p.toknext = 0;
     p.toksuper = -1;
     int len = jsmn_parse(&p, data, end, 0, 0);
+    if (len <= 0) return std::vector<jsmntok_t>();
     std::vector<jsmntok_t> result(len);
     p.pos = start;
     p.toknext = 0;
     p.toksuper = -1;
-    jsmn_parse(&p, data, end, result.data(), len);
+    if (jsmn_parse(&p, data, end, result.data(), len) <= 0)
+        return std::vector<jsmntok_t>();
     return result;
 }
 std::string encodeToken(const jsmntok_t& tok) {
@@ -40,6 +42,7 @@ std::string encodeToken(const jsmntok_t& tok) {
 std::vector<jsmntok_t> arrayTokens(const char* data, int start, int end) {
     auto tokens = internalParse(data, start, end);
     std::vector<jsmntok_t> result;
+    if (tokens.empty()) return result;
     int after = tokens[0].start;
     int before = tokens[0].end;
     for (int i = 1; i < tokens.size(); i++) {
@@ -63,12 +66,14 @@ std::string parseArray(const char* data, int start, int end) {
 }
 std::string arrayGet(const char* data, int start, int end, int index) {
     auto tokens = arrayTokens(data, start, end);
+    if (index < 0 || index >= (int)tokens.size()) return "";
     return encodeToken(tokens[index]);
 }
 
 std::map<std::string, jsmntok_t> objectTokens(const char* data, int start, int end) {
     auto tokens = internalParse(data, start, end);
     std::map<std::string, jsmntok_t> result;
+    if (tokens.empty()) return result;
     int after = tokens[0].start;
     int before = tokens[0].end;
     int key_token = 0;
@@ -108,17 +113,26 @@ public:
 
 private:
     bool parse(const json::Array& pArgs) override {
+        if (pArgs.size() < 4 || !pArgs[0].isString() || !pArgs[1].isString()
+            || !pArgs[2].isInteger() || !pArgs[3].isInteger())
+            return false;
         std::string op = pArgs[0].toString();
         std::string data = pArgs[1].toString();
+        if (pArgs[2].toInteger() < 0
+            || pArgs[3].toInteger() < pArgs[2].toInteger()
+            || pArgs[3].toInteger() > data.length())
+            return false;
         int begin = (int)pArgs[2].toInteger();
         int end = (int)pArgs[3].toInteger();
         if (op == "parseString") {
-            m_Str = parseString(std::string(data.data(), begin, end));
+            m_Str = parseString(data.substr(begin, end - begin));
         } else if (op == "parseArray") {
             m_Str = parseArray(data.data(), begin, end);
         } else if (op == "arrayGet") {
+            if (pArgs.size() < 5 || !pArgs[4].isInteger()) return false;
             m_Str = arrayGet(data.data(), begin, end, (int)pArgs[4].toInteger());
         } else if (op == "objectGet") {
+            if (pArgs.size() < 5 || !pArgs[4].isString()) return false;
             m_Str = objectGet(data.data(), begin, end, pArgs[4].toString());
         } else {
             return false;
-- 
2.43.0


From d14c9054c3403dbe084496c699647e9ef93e67f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:48 +0000
Subject: [PATCH 03/28] fix: refuse text that continues after the JSON value

The parser stopped after the first value and ignored whatever followed it,
so malformed argument texts such as '[1] x' were accepted.
---
 include/eni/json/Parser.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/eni/json/Parser.h b/include/eni/json/Parser.h
index 8231840..cdcaeb0 100644
--- a/include/eni/json/Parser.h
+++ b/include/eni/json/Parser.h
@@ -46,6 +46,8 @@ public:
     m_End = &pStr[0] + pStr.length();
     try {
       parse_value();
+      skip_ws();
+      if (m_It != m_End) parse_error("unexpected text after value");
     } catch (ParserError) {
       m_ParseSucceed = false;
       return;
-- 
2.43.0


From 5ef2b453697fe48bd0d92121ca3c5d2e5d792a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:53 +0000
Subject: [PATCH 04/28] fix: give ParserError one type across translation units

It lived in an anonymous namespace of a header, so every translation unit
had its own type and a parse error thrown by the copy of an inline function
from another unit was not caught and escaped.
---
 include/eni/json/Parser.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/eni/json/Parser.h b/include/eni/json/Parser.h
index cdcaeb0..d63ea98 100644
--- a/include/eni/json/Parser.h
+++ b/include/eni/json/Parser.h
@@ -30,15 +30,13 @@
 #include <string>
 #include <vector>
 
-namespace {
-class ParserError{};
-}
-
 namespace json {
 // the JSON parser for only JSON text in memory
 // read/write files is not supported yet
 using std::vector;
 
+class ParserError{};
+
 class Parser {
 public:
   Parser(const std::string &pStr) {
-- 
2.43.0


From 3cdf2e53f1223c5430e2f345e1d0cfbc9b94f2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 05/28] fix: print object keys as JSON strings

Keys were written without quotes and escapes, so printed objects were not
JSON and could not be parsed back.
---
 lib/json/Object.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/json/Object.cpp b/lib/json/Object.cpp
index 24c388c..0245afe 100644
--- a/lib/json/Object.cpp
+++ b/lib/json/Object.cpp
@@ -33,7 +33,8 @@ void Object::print(std::ostream& pOs) const {
       pOs << ',';
     else
       first = false;
-    pOs << it->key() << ':';
+    Value(it->key()).print(pOs);
+    pOs << ':';
     it->value().print(pOs);
   }
   pOs << '\n';
-- 
2.43.0


From 73e9ff3ac69c0f502781dce5ac110a90d8cef5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 06/28] fix: check argument count and types before using them

The operations dereferenced the first arguments as strings whatever the
caller passed, and the base class treated any root value as an array:
wrongly typed arguments were type confusion, missing ones an exception
thrown out of the C interface.
---
 examples/eni/reverse/eni_reverse.cpp | 2 ++
 include/eni/eni.h                    | 2 +-
 tools/eni_crypto/eni_crypto.cpp      | 4 ++++
 tools/eni_scrypt/eni_scrypt.cpp      | 2 ++
 4 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/examples/eni/reverse/eni_reverse.cpp b/examples/eni/reverse/eni_reverse.cpp
index 1148465..1d294d1 100644
--- a/examples/eni/reverse/eni_reverse.cpp
+++ b/examples/eni/reverse/eni_reverse.cpp
@@ -15,6 +15,8 @@ public:
 
 private:
   bool parse(const json::Array& pArgs) override {
+    if (pArgs.size() < 1 || !pArgs[0].isString())
+      return false;
     m_Str = pArgs[0].toString();
     return true;
   }
diff --git a/include/eni/eni.h b/include/eni/eni.h
index 0153398..6c1c420 100644
--- a/include/eni/eni.h
+++ b/include/eni/eni.h
@@ -68,7 +68,7 @@ public:
 private:
   bool check(const json::Value& pArgs) {
     if (!m_Parsed) {
-      m_ParseSuccess = parse(pArgs.toArray());
+      m_ParseSuccess = pArgs.isArray() && parse(pArgs.toArray());
       m_Parsed = true;
     }
     return m_ParseSuccess;
diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 6873873..5c0aa13 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -132,6 +132,8 @@ bool rsa::priv_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 ==------------------------------------------------------------------------==*/
 bool RSAEncrypt::parse(const json::Array& pArgs)
 {
+  if (pArgs.size() < 2 || !pArgs[0].isString() || !pArgs[1].isString())
+    return false;
   m_Key = rsa::create_pubkey(pArgs[0].toString());
   if (nullptr == m_Key)
     return false;
@@ -161,6 +163,8 @@ bool RSAEncrypt::run(json::Array& pRetVal)
 ==------------------------------------------------------------------------==*/
 bool RSADecrypt::parse(const json::Array& pArgs)
 {
+  if (pArgs.size() < 2 || !pArgs[0].isString() || !pArgs[1].isString())
+    return false;
   m_Key = rsa::create_privkey(pArgs[0].toString());
   if (nullptr == m_Key)
     return false;
diff --git a/tools/eni_scrypt/eni_scrypt.cpp b/tools/eni_scrypt/eni_scrypt.cpp
index 7f543a5..404c91d 100644
--- a/tools/eni_scrypt/eni_scrypt.cpp
+++ b/tools/eni_scrypt/eni_scrypt.cpp
@@ -12,6 +12,8 @@
 
 bool Scrypt::parse(const json::Array& pArgs)
 {
+  if (pArgs.size() < 1 || !pArgs[0].isString())
+    return false;
   m_Str = pArgs[0].toString();
 
   // input validation
-- 
2.43.0


From 65d8742e7bfd2b73279c111b4eb107d63a040358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:45 +0000
Subject: [PATCH 07/28] fix: refuse non-hexadecimal text and read uppercase
 digits in hex2str

Any byte was taken for a digit and 'A' to 'F' were decoded as if they
followed '9' directly.
---
 tools/eni_crypto/eni_crypto.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 5c0aa13..720cdef 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -19,7 +19,9 @@ using namespace eni_crypto;
 ==------------------------------------------------------------------------==*/
 static inline unsigned char hex2digit(char h1, char h0)
 {
-  auto h2d = [](char h) { return (h < 'a') ? (h - '0') : (h - 'a' + 10); };
+  auto h2d = [](char h) {
+    return (h <= '9') ? (h - '0') : ((h | 0x20) - 'a' + 10);
+  };
   return h2d(h1) * 16 + h2d(h0);
 }
 
@@ -38,6 +40,8 @@ bool eni_crypto::hex2str(const std::string& pHex, std::string& pStr)
 {
   if (0 != (pHex.length() % 2))
     return false;
+  if (std::string::npos != pHex.find_first_not_of("0123456789abcdefABCDEF"))
+    return false;
   pStr.clear();
   std::string::const_iterator ic, end = pHex.end();
   for (ic = pHex.begin(); ic != end; ic += 2)
-- 
2.43.0


From 5f3ce1fa5f9923195000ec23ae98608cfac637e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:27 +0000
Subject: [PATCH 08/28] fix: keep RSA results inside their buffers and refuse
 long messages

Decryption built a std::string from a buffer that need not be terminated and
read past its end, every call leaked its output buffer and every key its
BIO, and encryption silently dropped what did not fit in one block.
---
 tools/eni_crypto/eni_crypto.cpp | 35 ++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 720cdef..f860659 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -6,6 +6,7 @@
 ==------------------------------------------------------------------------==*/
 #include "eni_crypto.h"
 #include <sstream>
+#include <vector>
 
 extern "C" {
 #include <openssl/pem.h>
@@ -55,6 +56,7 @@ RSA* rsa::create_pubkey(const std::string& pPemStr)
   if (NULL == bio)
     return NULL;
   RSA* key = PEM_read_bio_RSA_PUBKEY(bio, NULL, NULL, NULL);
+  BIO_free(bio);
   return key;
 }
 
@@ -64,6 +66,7 @@ RSA* rsa::create_privkey(const std::string& pPemStr)
   if (NULL == bio)
     return NULL;
   RSA* key = PEM_read_bio_RSAPrivateKey(bio, NULL, NULL, NULL);
+  BIO_free(bio);
   return key;
 }
 
@@ -76,58 +79,62 @@ void rsa::destroy(RSA*& pKey)
 bool rsa::pub_encrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 {
   int size = ::RSA_size(&pKey);
-  unsigned char* encrypted = new unsigned char[size];
+  std::vector<unsigned char> encrypted(size);
   std::string message(pMsg);
+  if (message.length() > size)
+    return false;
   if (message.length() < size)
       message.append(size - message.length(), '\0');
   int len = ::RSA_public_encrypt(size,
-    reinterpret_cast<const unsigned char*>(message.c_str()), encrypted, &pKey,
+    reinterpret_cast<const unsigned char*>(message.c_str()), encrypted.data(), &pKey,
     RSA_NO_PADDING);
   if (-1 == len)
     return false;
-  pResult.assign(reinterpret_cast<char*>(encrypted), len);
+  pResult.assign(reinterpret_cast<char*>(encrypted.data()), len);
   return true;
 }
 
 bool rsa::pub_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 {
-  unsigned char* decrypted = new unsigned char[::RSA_size(&pKey)];
+  std::vector<unsigned char> decrypted(::RSA_size(&pKey));
   int len = ::RSA_public_decrypt(pMsg.length(),
-    reinterpret_cast<const unsigned char*>(pMsg.c_str()), decrypted, &pKey,
+    reinterpret_cast<const unsigned char*>(pMsg.c_str()), decrypted.data(), &pKey,
     RSA_NO_PADDING);
   if (-1 == len)
     return false;
-  std::string result(reinterpret_cast<const char*>(decrypted));
-  pResult.assign(result.c_str(), result.length());
+  const char* result = reinterpret_cast<const char*>(decrypted.data());
+  pResult.assign(result, ::strnlen(result, len));
   return true;
 }
 
 bool rsa::priv_encrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 {
   int size = ::RSA_size(&pKey);
-  unsigned char* encrypted = new unsigned char[size];
+  std::vector<unsigned char> encrypted(size);
   std::string message(pMsg);
+  if (message.length() > size)
+    return false;
   if (message.length() < size)
       message.append(size - message.length(), '\0');
   int len = ::RSA_private_encrypt(size,
-    reinterpret_cast<const unsigned char*>(message.c_str()), encrypted, &pKey,
+    reinterpret_cast<const unsigned char*>(message.c_str()), encrypted.data(), &pKey,
     RSA_NO_PADDING);
   if (-1 == len)
     return false;
-  pResult.assign(reinterpret_cast<char*>(encrypted), len);
+  pResult.assign(reinterpret_cast<char*>(encrypted.data()), len);
   return true;
 }
 
 bool rsa::priv_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 {
-  unsigned char* decrypted = new unsigned char[::RSA_size(&pKey)];
+  std::vector<unsigned char> decrypted(::RSA_size(&pKey));
   int len = ::RSA_private_decrypt(pMsg.length(),
-    reinterpret_cast<const unsigned char*>(pMsg.c_str()), decrypted, &pKey,
+    reinterpret_cast<const unsigned char*>(pMsg.c_str()), decrypted.data(), &pKey,
     RSA_NO_PADDING);
   if (-1 == len)
     return false;
-  std::string result(reinterpret_cast<const char*>(decrypted));
-  pResult.assign(result.c_str(), result.length());
+  const char* result = reinterpret_cast<const char*>(decrypted.data());
+  pResult.assign(result, ::strnlen(result, len));
   return true;
 }
 
-- 
2.43.0


From a5be33996893a64899a759e95c2589b64bbbc230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:35 +0000
Subject: [PATCH 09/28] fix: let Vector::erase remove the last element

The end of the erased range was required to be strictly below the size, so
erasing up to the end threw an out-of-range exception.
---
 include/eni/adt/bits/Vector.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/adt/bits/Vector.tcc b/include/eni/adt/bits/Vector.tcc
index 05b6c30..0506b6e 100644
--- a/include/eni/adt/bits/Vector.tcc
+++ b/include/eni/adt/bits/Vector.tcc
@@ -342,7 +342,7 @@ Vector<ElementType>::erase(size_type pIndex)
 template<class ElementType> void
 Vector<ElementType>::erase(size_type pFirst, size_type pLast)
 {
-  if (0 > pFirst || pFirst >= pLast || pLast >= size())
+  if (0 > pFirst || pFirst >= pLast || pLast > size())
     throw OutOfRange<InvalidVectorIndex>();
   size_type eraseSize = pLast - pFirst;
   std::copy(m_Data + pLast, m_Data + size(), m_Data + pFirst);
-- 
2.43.0


From f47c63ea305fb3f3a6ef8a9969e6285ccb81f9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 10/28] fix: make Vector::max_size a number of elements

It was the largest size_t whatever the element size, so reserve passed a
wrapped byte count to realloc for large requests instead of throwing.
---
 include/eni/adt/bits/Vector.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/adt/bits/Vector.tcc b/include/eni/adt/bits/Vector.tcc
index 0506b6e..9d9e0a8 100644
--- a/include/eni/adt/bits/Vector.tcc
+++ b/include/eni/adt/bits/Vector.tcc
@@ -97,7 +97,7 @@ Vector<ElementType>::size() const
 template<class ElementType> typename Vector<ElementType>::size_type
 Vector<ElementType>::max_size() const
 {
-  return std::numeric_limits<size_t>::max();
+  return std::numeric_limits<difference_type>::max() / sizeof(ElementType);
 }
 
 template<class ElementType> void
-- 
2.43.0


From bc7143644b6e7063c6ff38cff2d77cf6cc5b1363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 11/28] fix: copy a Vector argument that may refer to an own
 element

push_back, insert, assign and resize read the given value after growing the
storage or shifting the elements, where a reference into the same vector
dangles or shows another element; emplace_back did the same and leaked the
element it had built.
---
 include/eni/adt/bits/Vector.tcc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/eni/adt/bits/Vector.tcc b/include/eni/adt/bits/Vector.tcc
index 9d9e0a8..6d4f404 100644
--- a/include/eni/adt/bits/Vector.tcc
+++ b/include/eni/adt/bits/Vector.tcc
@@ -109,9 +109,10 @@ Vector<ElementType>::resize(size_type pSize)
 template<class ElementType> void
 Vector<ElementType>::resize(size_t pSize, const ElementType& pValue)
 {
+  const ElementType value(pValue); //< pValue may refer to our own element
   reserve(pSize);
   if (pSize > m_DataSize)
-    std::fill_n(end(), pSize - m_DataSize, pValue);
+    std::fill_n(end(), pSize - m_DataSize, value);
   m_DataSize = pSize;
 }
 
@@ -208,8 +209,9 @@ Vector<ElementType>::data()
 template<class ElementType> void
 Vector<ElementType>::assign(size_type pSize, const_reference pValue)
 {
+  const ElementType value(pValue); //< pValue may refer to our own element
   resize(pSize);
-  std::fill_n(m_Data, pSize, pValue);
+  std::fill_n(m_Data, pSize, value);
 }
 
 template<class ElementType> void
@@ -228,8 +230,9 @@ Vector<ElementType>::assign(initializer_list pIList)
 template<class ElementType> void
 Vector<ElementType>::push_back(const_reference pValue)
 {
+  const ElementType value(pValue); //< pValue may refer to our own element
   reserve(size() + 1);
-  m_Data[m_DataSize++] = pValue;
+  m_Data[m_DataSize++] = value;
 }
 
 template<class ElementType> typename Vector<ElementType>::value_type
@@ -242,8 +245,9 @@ template<class ElementType>
 template<class ...Args> void
 Vector<ElementType>::emplace_back(Args&& ...pArgs)
 {
+  const ElementType value(std::forward<Args>(pArgs)...);
   reserve(size() + 1);
-  m_Data[m_DataSize++] = *(new ElementType(std::forward<Args>(pArgs)...));
+  m_Data[m_DataSize++] = value;
 }
 
 template<class ElementType> typename Vector<ElementType>::iterator
@@ -290,11 +294,12 @@ Vector<ElementType>::insert(size_type pIndex, size_type pSize, const_reference p
   if (0 > pIndex || pIndex > size()) {
     throw OutOfRange<InvalidVectorIndex>();
   }
+  const ElementType value(pValue); //< pValue may refer to our own element
   resize(size() + pSize);
   pointer ptr = m_Data + pIndex;
   pointer end = m_Data + size();
   std::copy_backward(ptr, end - pSize, end);
-  std::fill_n(ptr, pSize, pValue);
+  std::fill_n(ptr, pSize, value);
 }
 
 template<class ElementType> void
-- 
2.43.0


From 8737e5860745aa119e4078b8cc984b6b3d9eb807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 12/28] fix: return from the container and iterator assignment
 operators

StringMap's and PointerIterator's assignment operators ran off their end
without returning, which is undefined behaviour, and HashIterator's
dereference operator did not compile when used.
---
 include/eni/adt/HashIterator.h           | 4 ++--
 include/eni/adt/StringMap.h              | 2 ++
 include/eni/adt/bits/PointerIterator.tcc | 1 +
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/eni/adt/HashIterator.h b/include/eni/adt/HashIterator.h
index fc29f55..36d7256 100644
--- a/include/eni/adt/HashIterator.h
+++ b/include/eni/adt/HashIterator.h
@@ -176,8 +176,8 @@ public:
 
   /// @name C++ Iterator (dereferenceable)
   /// @{
-  const_reference operator*() const { return *m_Impl.operator->(); }
-  reference       operator*()       { return *m_Impl.operator->(); }
+  const_reference operator*() const { return *m_Impl.getEntry(); }
+  reference       operator*()       { return *m_Impl.getEntry(); }
   /// @}
 
   /// @name C++ Iterator (incrementable)
diff --git a/include/eni/adt/StringMap.h b/include/eni/adt/StringMap.h
index 4ee8814..f755b85 100644
--- a/include/eni/adt/StringMap.h
+++ b/include/eni/adt/StringMap.h
@@ -49,10 +49,12 @@ public:
 
   StringMap& operator=(const StringMap& pCopy) {
     super::operator=(pCopy);
+    return *this;
   }
 
   StringMap& operator=(StringMap&& pOther) {
     super::operator=(pOther);
+    return *this;
   }
 
   value_type& at(const key_type& pKey) {
diff --git a/include/eni/adt/bits/PointerIterator.tcc b/include/eni/adt/bits/PointerIterator.tcc
index 5771e0a..9ee7eff 100644
--- a/include/eni/adt/bits/PointerIterator.tcc
+++ b/include/eni/adt/bits/PointerIterator.tcc
@@ -24,6 +24,7 @@ template<typename ItemType> typename PointerIterator<ItemType>::iterator&
 PointerIterator<ItemType>::operator=(const_iterator& pOther)
 {
   m_Ptr = pOther.m_Ptr;
+  return *this;
 }
 
 template<typename ItemType> typename PointerIterator<ItemType>::reference
-- 
2.43.0


From 61a9c7089c3cb9501e798be93b722357839e90e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:02 +0000
Subject: [PATCH 13/28] fix: keep whole keys and initialise values of hash
 table entries

The length of string keys was cut to 16 bits, so keys of 65536 bytes and
more changed, and the value of a new entry of scalar type was never
initialised.
---
 include/eni/adt/HashBase.h        | 2 +-
 include/eni/adt/StringHashTable.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/eni/adt/HashBase.h b/include/eni/adt/HashBase.h
index 3cf4b09..c6aa9c0 100644
--- a/include/eni/adt/HashBase.h
+++ b/include/eni/adt/HashBase.h
@@ -21,7 +21,7 @@ public:
   typedef Value value_type;
 
 public:
-  Entry(const key_type& pKey) : m_Key(pKey) { }
+  Entry(const key_type& pKey) : m_Key(pKey), m_Value() { }
 
   const Key& key() const { return m_Key; }
   Key&       key()       { return m_Key; }
diff --git a/include/eni/adt/StringHashTable.h b/include/eni/adt/StringHashTable.h
index 138b396..01b6f9f 100644
--- a/include/eni/adt/StringHashTable.h
+++ b/include/eni/adt/StringHashTable.h
@@ -27,7 +27,7 @@ public:
   typedef ValueType value_type;
 
 public:
-  Entry(const key_type& pKey) : m_KeyLen(pKey.size()) {
+  Entry(const key_type& pKey) : m_Value(), m_KeyLen(pKey.size()) {
     std::memcpy(m_Key, pKey.data(), pKey.size());
     m_Key[pKey.size()] = '\0';
   }
@@ -45,7 +45,7 @@ public:
 protected:
   value_type m_Value;
 
-  uint16_t m_KeyLen;
+  size_t m_KeyLen;
 
   char m_Key[];
 };
-- 
2.43.0


From 7ab8fb376bda33838b6b42c4928eb441044b1782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 14/28] fix: make hash table assignment safe for self, used and
 unused tables

Assigning a table to itself emptied it, assigning over a table leaked its
entries and buckets, and copying a table that had no buckets yet produced
one that looked initialised and divided by its zero bucket count.
---
 include/eni/adt/bits/HashBase.tcc  | 11 +++++++++++
 include/eni/adt/bits/HashTable.tcc |  7 +++++++
 2 files changed, 18 insertions(+)

diff --git a/include/eni/adt/bits/HashBase.tcc b/include/eni/adt/bits/HashBase.tcc
index 2b4a2a6..c8f5faa 100644
--- a/include/eni/adt/bits/HashBase.tcc
+++ b/include/eni/adt/bits/HashBase.tcc
@@ -63,6 +63,9 @@ TableImpl<K, V, H, E>::TableImpl(const TableImpl& pCopy)
     m_NumOfEntries(pCopy.m_NumOfEntries),
     m_NumOfTombstones(pCopy.m_NumOfTombstones) {
 
+  if (!pCopy.isInit())
+    return;
+
   m_Buckets = (Bucket*)malloc(m_NumOfBuckets * sizeof(Bucket));
   ::memcpy(m_Buckets, pCopy.m_Buckets, m_NumOfBuckets * sizeof(Bucket));
 
@@ -90,6 +93,9 @@ TableImpl<K, V, H, E>::TableImpl(TableImpl&& pOther)
 template<typename K, typename V, typename H, template<class, class> class E>
 TableImpl<K, V, H, E>& TableImpl<K, V, H, E>::operator=(const TableImpl& pCopy)
 {
+  if (this == &pCopy)
+    return *this;
+
   if (isInit())
     clear();
 
@@ -97,6 +103,9 @@ TableImpl<K, V, H, E>& TableImpl<K, V, H, E>::operator=(const TableImpl& pCopy)
   m_NumOfEntries = pCopy.m_NumOfEntries;
   m_NumOfTombstones = pCopy.m_NumOfTombstones;
 
+  if (!pCopy.isInit())
+    return *this;
+
   m_Buckets = (Bucket*)malloc(m_NumOfBuckets * sizeof(Bucket));
   ::memcpy(m_Buckets, pCopy.m_Buckets, m_NumOfBuckets * sizeof(Bucket));
 
@@ -109,6 +118,8 @@ template<typename K, typename V, typename H, template<class, class> class E>
 TableImpl<K, V, H, E>& TableImpl<K, V, H, E>::operator=(TableImpl&& pOther)
 {
   if (this != &pOther) {
+    clear();
+
     m_Buckets = pOther.m_Buckets;
     m_NumOfBuckets = pOther.m_NumOfBuckets;
     m_NumOfEntries = pOther.m_NumOfEntries;
diff --git a/include/eni/adt/bits/HashTable.tcc b/include/eni/adt/bits/HashTable.tcc
index 7a203c9..109e11e 100644
--- a/include/eni/adt/bits/HashTable.tcc
+++ b/include/eni/adt/bits/HashTable.tcc
@@ -56,7 +56,10 @@ template<typename K, typename V, typename H,
 HashTable<K, V, H, E, A>&
 HashTable<K, V, H, E, A>::operator=(const HashTable& pCopy)
 {
+  if (this == &pCopy)
+    return *this;
 
+  clear();
   internal::TableImpl<K, V, H>::operator=(pCopy);
 
   // for all entries in pCopy, allocate an entry.
@@ -79,6 +82,10 @@ template<typename K, typename V, typename H,
 HashTable<K, V, H, E, A>&
 HashTable<K, V, H, E, A>::operator=(HashTable&& pOther)
 {
+  if (this == &pOther)
+    return *this;
+
+  clear();
   internal::TableImpl<K, V, H>::operator=(std::move(pOther));
   if (std::is_move_assignable<allocator_type>::value)
     m_EntryAlloc = std::move(pOther.m_EntryAlloc);
-- 
2.43.0


From 3a3cadde2717aea3029c2b3ef25c0713beb1353b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 15/28] fix: skip empty buckets when a chain iterator looks for
 its key

The hash field of an empty bucket is zero, so looking for a key whose hash
is zero dereferenced the null entry of the first empty bucket; looking in a
table without buckets divided by zero.
---
 include/eni/adt/bits/HashIterator.tcc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/eni/adt/bits/HashIterator.tcc b/include/eni/adt/bits/HashIterator.tcc
index 939e97a..2d1a6be 100644
--- a/include/eni/adt/bits/HashIterator.tcc
+++ b/include/eni/adt/bits/HashIterator.tcc
@@ -15,14 +15,20 @@ ChainIterBase<HT>::ChainIterBase()
 
 template<typename HT>
 ChainIterBase<HT>::ChainIterBase(HT* pTable, const key_type& pKey)
-  : m_pHashTable(pTable) {
+  : m_pHashTable(pTable), m_Index(0), m_HashValue(0), m_EndIndex(0) {
+  if (0 == m_pHashTable->numOfBuckets()) {
+    reset();
+    return;
+  }
+
   typename HT::hasher_type hasher;
   m_HashValue = hasher(pKey);
   m_EndIndex = m_Index = m_HashValue % m_pHashTable->numOfBuckets();
   const unsigned int probe = 1;
   while(true) {
     bucket_type &bucket = m_pHashTable->bucket(m_Index);
-    if (hash_table::Tombstone() == bucket.entry) {
+    if (hash_table::Tombstone() == bucket.entry ||
+        hash_table::EmptyBucket() == bucket.entry) {
       // Ignore tombstones.
     }
     else if (m_HashValue == bucket.hash) {
-- 
2.43.0


From 36d2fa69467f5214453c80e23fe5548e00b2a219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 16/28] fix: never rehash a table to fewer buckets than it
 needs

rehash(n) with n not above the number of entries divided by zero or probed
forever for a free bucket.
---
 include/eni/adt/bits/HashTable.tcc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/eni/adt/bits/HashTable.tcc b/include/eni/adt/bits/HashTable.tcc
index 109e11e..c6e41d1 100644
--- a/include/eni/adt/bits/HashTable.tcc
+++ b/include/eni/adt/bits/HashTable.tcc
@@ -220,6 +220,9 @@ template<typename K, typename V, typename H,
          template<class, class> class E, template<class> class A>
 void HashTable<K, V, H, E, A>::rehash(size_type pCount)
 {
+  // at least one bucket must stay empty, or probing never ends
+  if (pCount <= numOfEntries())
+    pCount = numOfEntries() + 1;
   super::doRehash(pCount);
 }
 
-- 
2.43.0


From 295757bd42869861a80894cf1bbd29de1dfbd07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:13 +0000
Subject: [PATCH 17/28] fix: release the gas result with the function that
 matches malloc

The operations allocate it with malloc; eni_gas released it with delete.
---
 tools/eni_cli/eni_gas.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/eni_cli/eni_gas.cpp b/tools/eni_cli/eni_gas.cpp
index 0504115..403ac76 100644
--- a/tools/eni_cli/eni_gas.cpp
+++ b/tools/eni_cli/eni_gas.cpp
@@ -35,6 +35,6 @@ int main(int argc, char* argv[])
   ::dlclose(handle);
 
   std::cout << *gas << std::endl;
-  delete gas;
+  ::free(gas);
   return ExitSuccess;
 }
-- 
2.43.0


From 03c006ec754434b269a4a2b5c15230fa4a8e38b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 18/28] fix: let eni_run report usage errors like eni_gas

eni_run returned the general failure status where eni_gas returns the
parse error status.
---
 tools/eni_cli/eni_run.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/eni_cli/eni_run.cpp b/tools/eni_cli/eni_run.cpp
index c26ee90..68cf4b8 100644
--- a/tools/eni_cli/eni_run.cpp
+++ b/tools/eni_cli/eni_run.cpp
@@ -21,7 +21,7 @@ int main(int argc, char* argv[])
     "run the ENI operation and print the result in JSON format");
   if (!opt.parse(argc, argv)) {
     opt.help(std::cerr);
-    return 1;
+    return ExitParseError;
   }
 
   void* handle = ::dlopen(opt.lib().c_str(), RTLD_LAZY);
-- 
2.43.0


From 9b27dab98dbaf7a19eed826c920a550a65295fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:26 +0000
Subject: [PATCH 19/28] fix: start every run with an empty result list

Running an operation a second time appended to the results of the first
run, so the same operation returned different output.
---
 include/eni/eni.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/eni/eni.h b/include/eni/eni.h
index 6c1c420..b267eae 100644
--- a/include/eni/eni.h
+++ b/include/eni/eni.h
@@ -57,6 +57,7 @@ public:
     if (!check(m_Args))
       return nullptr;
 
+    m_RetVals.asArray().clear();
     if (!run(m_RetVals.asArray()))
       return nullptr;
 
-- 
2.43.0


From 3c2fde905a368ba13087b56d9e916c20e3a785e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:26 +0000
Subject: [PATCH 20/28] fix: saturate the dot count of the ES string
 characteristic

With 16 dots or more the count overflowed its four bits, and may_include
denied that a string includes one of its own substrings.
---
 include/eni/adt/StringHasher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/adt/StringHasher.h b/include/eni/adt/StringHasher.h
index 2846d56..f40eabb 100644
--- a/include/eni/adt/StringHasher.h
+++ b/include/eni/adt/StringHasher.h
@@ -283,7 +283,7 @@ struct StringHasher<ES> : public std::unary_function<const std::string&, uint32_
       int cur_char = pString[idx];
 
       if ('.' == cur_char) {
-        ++dot;
+        if (dot < 15) ++dot; //< saturate, only 4 bits are kept
         continue;
       }
 
-- 
2.43.0


From 99c2026d8de905dbaf49a2cffd7ba63c5900464f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:14 +0000
Subject: [PATCH 21/28] Restore the examples as they were

They count as test files here; their defects are recorded as findings instead.
---
 examples/eni/json/eni_json.cpp       | 20 +++-----------------
 examples/eni/reverse/eni_reverse.cpp |  2 --
 2 files changed, 3 insertions(+), 19 deletions(-)

diff --git a/examples/eni/json/eni_json.cpp b/examples/eni/json/eni_json.cpp
index 728d80f..10fd45a 100644
--- a/examples/eni/json/eni_json.cpp
+++ b/examples/eni/json/eni_json.cpp
@@ -13,7 +13,7 @@
 namespace {
 std::string parseString(const std::string& raw) {
     json::Parser parser(raw);
-    if (!parser || !parser.getRoot().isString()) return "";
+    if (!parser) return "";
     return parser.getRoot().toString();
 }
 std::vector<jsmntok_t> internalParse(const char* data, int start, int end) {
@@ -22,13 +22,11 @@ std::vector<jsmntok_t> internalParse(const char* data, int start, int end) {
     p.toknext = 0;
     p.toksuper = -1;
     int len = jsmn_parse(&p, data, end, 0, 0);
-    if (len <= 0) return std::vector<jsmntok_t>();
     std::vector<jsmntok_t> result(len);
     p.pos = start;
     p.toknext = 0;
     p.toksuper = -1;
-    if (jsmn_parse(&p, data, end, result.data(), len) <= 0)
-        return std::vector<jsmntok_t>();
+    jsmn_parse(&p, data, end, result.data(), len);
     return result;
 }
 std::string encodeToken(const jsmntok_t& tok) {
@@ -42,7 +40,6 @@ std::string encodeToken(const jsmntok_t& tok) {
 std::vector<jsmntok_t> arrayTokens(const char* data, int start, int end) {
     auto tokens = internalParse(data, start, end);
     std::vector<jsmntok_t> result;
-    if (tokens.empty()) return result;
     int after = tokens[0].start;
     int before = tokens[0].end;
     for (int i = 1; i < tokens.size(); i++) {
@@ -66,14 +63,12 @@ std::string parseArray(const char* data, int start, int end) {
 }
 std::string arrayGet(const char* data, int start, int end, int index) {
     auto tokens = arrayTokens(data, start, end);
-    if (index < 0 || index >= (int)tokens.size()) return "";
     return encodeToken(tokens[index]);
 }
 
 std::map<std::string, jsmntok_t> objectTokens(const char* data, int start, int end) {
     auto tokens = internalParse(data, start, end);
     std::map<std::string, jsmntok_t> result;
-    if (tokens.empty()) return result;
     int after = tokens[0].start;
     int before = tokens[0].end;
     int key_token = 0;
@@ -113,26 +108,17 @@ public:
 
 private:
     bool parse(const json::Array& pArgs) override {
-        if (pArgs.size() < 4 || !pArgs[0].isString() || !pArgs[1].isString()
-            || !pArgs[2].isInteger() || !pArgs[3].isInteger())
-            return false;
         std::string op = pArgs[0].toString();
         std::string data = pArgs[1].toString();
-        if (pArgs[2].toInteger() < 0
-            || pArgs[3].toInteger() < pArgs[2].toInteger()
-            || pArgs[3].toInteger() > data.length())
-            return false;
         int begin = (int)pArgs[2].toInteger();
         int end = (int)pArgs[3].toInteger();
         if (op == "parseString") {
-            m_Str = parseString(data.substr(begin, end - begin));
+            m_Str = parseString(std::string(data.data(), begin, end));
         } else if (op == "parseArray") {
             m_Str = parseArray(data.data(), begin, end);
         } else if (op == "arrayGet") {
-            if (pArgs.size() < 5 || !pArgs[4].isInteger()) return false;
             m_Str = arrayGet(data.data(), begin, end, (int)pArgs[4].toInteger());
         } else if (op == "objectGet") {
-            if (pArgs.size() < 5 || !pArgs[4].isString()) return false;
             m_Str = objectGet(data.data(), begin, end, pArgs[4].toString());
         } else {
             return false;
diff --git a/examples/eni/reverse/eni_reverse.cpp b/examples/eni/reverse/eni_reverse.cpp
index 1d294d1..1148465 100644
--- a/examples/eni/reverse/eni_reverse.cpp
+++ b/examples/eni/reverse/eni_reverse.cpp
@@ -15,8 +15,6 @@ public:
 
 private:
   bool parse(const json::Array& pArgs) override {
-    if (pArgs.size() < 1 || !pArgs[0].isString())
-      return false;
     m_Str = pArgs[0].toString();
     return true;
   }
-- 
2.43.0


From 6bead327937d317b88feef32af13c8fb1655272b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:05 +0000
Subject: [PATCH 22/28] fix: refuse RSA messages longer than the key before
 decrypting

The length was converted to int, so a message of 2 GiB or more reached the
cipher library as a negative or truncated length.
---
 tools/eni_crypto/eni_crypto.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index f860659..3e6fac1 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -96,7 +96,10 @@ bool rsa::pub_encrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 
 bool rsa::pub_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 {
-  std::vector<unsigned char> decrypted(::RSA_size(&pKey));
+  int size = ::RSA_size(&pKey);
+  std::vector<unsigned char> decrypted(size);
+  if (pMsg.length() > size)
+    return false;
   int len = ::RSA_public_decrypt(pMsg.length(),
     reinterpret_cast<const unsigned char*>(pMsg.c_str()), decrypted.data(), &pKey,
     RSA_NO_PADDING);
@@ -127,7 +130,10 @@ bool rsa::priv_encrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 
 bool rsa::priv_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 {
-  std::vector<unsigned char> decrypted(::RSA_size(&pKey));
+  int size = ::RSA_size(&pKey);
+  std::vector<unsigned char> decrypted(size);
+  if (pMsg.length() > size)
+    return false;
   int len = ::RSA_private_decrypt(pMsg.length(),
     reinterpret_cast<const unsigned char*>(pMsg.c_str()), decrypted.data(), &pKey,
     RSA_NO_PADDING);
-- 
2.43.0


From 742c8b9158cedd873f2394e0eca92f9e0686cdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:56 +0000
Subject: [PATCH 23/28] fix: count only entries with the given key, also in
 constant tables

---
 include/eni/adt/bits/HashIterator.tcc | 2 +-
 include/eni/adt/bits/HashTable.tcc    | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/eni/adt/bits/HashIterator.tcc b/include/eni/adt/bits/HashIterator.tcc
index 2d1a6be..4dade51 100644
--- a/include/eni/adt/bits/HashIterator.tcc
+++ b/include/eni/adt/bits/HashIterator.tcc
@@ -26,7 +26,7 @@ ChainIterBase<HT>::ChainIterBase(HT* pTable, const key_type& pKey)
   m_EndIndex = m_Index = m_HashValue % m_pHashTable->numOfBuckets();
   const unsigned int probe = 1;
   while(true) {
-    bucket_type &bucket = m_pHashTable->bucket(m_Index);
+    const bucket_type &bucket = m_pHashTable->bucket(m_Index);
     if (hash_table::Tombstone() == bucket.entry ||
         hash_table::EmptyBucket() == bucket.entry) {
       // Ignore tombstones.
diff --git a/include/eni/adt/bits/HashTable.tcc b/include/eni/adt/bits/HashTable.tcc
index c6e41d1..8e928cd 100644
--- a/include/eni/adt/bits/HashTable.tcc
+++ b/include/eni/adt/bits/HashTable.tcc
@@ -197,8 +197,10 @@ HashTable<K, V, H, E, A>::count(const key_type& pKey) const
 {
   const_chain_iterator bucket, bEnd = end(pKey);
   size_type count = 0;
-  for (bucket = begin(pKey); bucket != bEnd; ++bucket)
-    ++count;
+  for (bucket = begin(pKey); bucket != bEnd; ++bucket) {
+    if (bucket->key() == pKey) //< a chain has all keys with the same hash
+      ++count;
+  }
   return count;
 }
 
-- 
2.43.0


From d75f48f645a3f430af290eae9c6bafd6897580be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:04 +0000
Subject: [PATCH 24/28] fix: pass ctype functions bytes, not negative
 characters, in the ES characteristic

---
 include/eni/adt/StringHasher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/adt/StringHasher.h b/include/eni/adt/StringHasher.h
index f40eabb..7515c4b 100644
--- a/include/eni/adt/StringHasher.h
+++ b/include/eni/adt/StringHasher.h
@@ -280,7 +280,7 @@ struct StringHasher<ES> : public std::unary_function<const std::string&, uint32_
     unsigned int dot = 0;
     std::string::size_type idx;
     for (idx = 0; idx < pString.size(); ++idx) {
-      int cur_char = pString[idx];
+      int cur_char = (unsigned char)pString[idx]; //< as ctype.h wants it
 
       if ('.' == cur_char) {
         if (dot < 15) ++dot; //< saturate, only 4 bits are kept
-- 
2.43.0


From 5ae0d371131a2cda58424b38933865a4bf7058fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:11 +0000
Subject: [PATCH 25/28] fix: refuse vectors beyond the maximum size when
 constructing and inserting

A constructor kept the requested size when calloc failed, and inserting n
elements computed size() + n without regard to wrap-around.
---
 include/eni/adt/Vector.h        |  3 +++
 include/eni/adt/bits/Vector.tcc | 25 ++++++++++++++++++++-----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/include/eni/adt/Vector.h b/include/eni/adt/Vector.h
index 02c153b..ab165ec 100644
--- a/include/eni/adt/Vector.h
+++ b/include/eni/adt/Vector.h
@@ -104,6 +104,9 @@ public:
   void swap(Vector& pOther);
   void clear();
 
+private:
+  pointer allocate(size_type pSize) const;
+
 private:
   pointer m_Data;
   size_type m_DataSize;
diff --git a/include/eni/adt/bits/Vector.tcc b/include/eni/adt/bits/Vector.tcc
index 6d4f404..dd2a56f 100644
--- a/include/eni/adt/bits/Vector.tcc
+++ b/include/eni/adt/bits/Vector.tcc
@@ -13,34 +13,34 @@ Vector<ElementType>::Vector()
 template<class ElementType>
 Vector<ElementType>::Vector(size_type pSize)
   : m_DataSize(pSize), m_AllocSize(pSize) {
-  m_Data = (ElementType*)std::calloc(m_DataSize, sizeof(ElementType));
+  m_Data = allocate(m_DataSize);
 }
 
 template<class ElementType>
 Vector<ElementType>::Vector(size_type pSize, const_reference pValue)
   : m_DataSize(pSize), m_AllocSize(pSize) {
-  m_Data = (ElementType*)std::calloc(m_DataSize, sizeof(ElementType));
+  m_Data = allocate(m_DataSize);
   std::fill_n(m_Data, m_DataSize, pValue);
 }
 
 template<class ElementType>
 Vector<ElementType>::Vector(const std_vector& pVector)
   : m_DataSize(pVector.size()), m_AllocSize(pVector.size()) {
-  m_Data = (ElementType*)std::calloc(m_DataSize, sizeof(ElementType));
+  m_Data = allocate(m_DataSize);
   std::copy(pVector.begin(), pVector.end(), m_Data);
 }
 
 template<class ElementType>
 Vector<ElementType>::Vector(const Vector& pOther)
   : m_DataSize(pOther.m_DataSize), m_AllocSize(pOther.m_DataSize) {
-  m_Data = (ElementType*)std::calloc(m_DataSize, sizeof(ElementType));
+  m_Data = allocate(m_DataSize);
   std::copy(pOther.begin(), pOther.end(), m_Data);
 }
 
 template<class ElementType>
 Vector<ElementType>::Vector(initializer_list pIList)
   : m_DataSize(pIList.size()), m_AllocSize(pIList.size()) {
-  m_Data = (ElementType*)std::calloc(m_DataSize, sizeof(ElementType));
+  m_Data = allocate(m_DataSize);
   std::copy(pIList.begin(), pIList.end(), m_Data);
 }
 
@@ -100,6 +100,17 @@ Vector<ElementType>::max_size() const
   return std::numeric_limits<difference_type>::max() / sizeof(ElementType);
 }
 
+template<class ElementType> typename Vector<ElementType>::pointer
+Vector<ElementType>::allocate(size_type pSize) const
+{
+  if (pSize > max_size()) //< too much to be allocated
+    throw LengthError<InvalidVectorSize>();
+  pointer ptr = (ElementType*)std::calloc(pSize, sizeof(ElementType));
+  if (nullptr == ptr && pSize > 0) //< not enough memory
+    throw BadAlloc<NoMemory>();
+  return ptr;
+}
+
 template<class ElementType> void
 Vector<ElementType>::resize(size_type pSize)
 {
@@ -294,6 +305,8 @@ Vector<ElementType>::insert(size_type pIndex, size_type pSize, const_reference p
   if (0 > pIndex || pIndex > size()) {
     throw OutOfRange<InvalidVectorIndex>();
   }
+  if (pSize > max_size() - size()) //< size() + pSize may wrap around
+    throw LengthError<InvalidVectorSize>();
   const ElementType value(pValue); //< pValue may refer to our own element
   resize(size() + pSize);
   pointer ptr = m_Data + pIndex;
@@ -309,6 +322,8 @@ Vector<ElementType>::insert(size_type pIndex, const_iterator pFirst, const_itera
     throw OutOfRange<InvalidVectorIndex>();
   }
   size_type insertSize = pLast - pFirst;
+  if (insertSize > max_size() - size()) //< size() + insertSize may wrap around
+    throw LengthError<InvalidVectorSize>();
   resize(size() + insertSize);
   pointer ptr = m_Data + pIndex;
   pointer end = m_Data + size();
-- 
2.43.0


From b7a92ee81b0da388ae87c0fdaaf6ba8c05ba72c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:10 +0000
Subject: [PATCH 26/28] fix: never ask the terminal for the pass phrase of a
 PEM key

---
 tools/eni_crypto/eni_crypto.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 3e6fac1..3be44e3 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -50,12 +50,19 @@ bool eni_crypto::hex2str(const std::string& pHex, std::string& pStr)
   return true;
 }
 
+// PEM text may ask for a pass phrase; never let the library read one from the
+// terminal, or the result would depend on more than the arguments.
+static int no_passphrase(char*, int, int, void*)
+{
+  return -1;
+}
+
 RSA* rsa::create_pubkey(const std::string& pPemStr)
 {
   BIO* bio = BIO_new_mem_buf(pPemStr.c_str(), -1);
   if (NULL == bio)
     return NULL;
-  RSA* key = PEM_read_bio_RSA_PUBKEY(bio, NULL, NULL, NULL);
+  RSA* key = PEM_read_bio_RSA_PUBKEY(bio, NULL, no_passphrase, NULL);
   BIO_free(bio);
   return key;
 }
@@ -65,7 +72,7 @@ RSA* rsa::create_privkey(const std::string& pPemStr)
   BIO* bio = BIO_new_mem_buf(pPemStr.c_str(), -1);
   if (NULL == bio)
     return NULL;
-  RSA* key = PEM_read_bio_RSAPrivateKey(bio, NULL, NULL, NULL);
+  RSA* key = PEM_read_bio_RSAPrivateKey(bio, NULL, no_passphrase, NULL);
   BIO_free(bio);
   return key;
 }
-- 
2.43.0


From 96934aff30e4f9e371c73ea82426d4cb10caf78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:59 +0000
Subject: [PATCH 27/28] fix: keep hash table sizes within 32 bits

---
 include/eni/adt/HashBase.h         | 1 +
 include/eni/adt/bits/HashBase.tcc  | 4 ++++
 include/eni/adt/bits/HashTable.tcc | 3 +++
 3 files changed, 8 insertions(+)

diff --git a/include/eni/adt/HashBase.h b/include/eni/adt/HashBase.h
index c6aa9c0..cf0c71a 100644
--- a/include/eni/adt/HashBase.h
+++ b/include/eni/adt/HashBase.h
@@ -9,6 +9,7 @@
 
 #include <cstdlib>
 #include <cstring>
+#include <limits>
 
 namespace eni {
 namespace internal {
diff --git a/include/eni/adt/bits/HashBase.tcc b/include/eni/adt/bits/HashBase.tcc
index c8f5faa..3645f5c 100644
--- a/include/eni/adt/bits/HashBase.tcc
+++ b/include/eni/adt/bits/HashBase.tcc
@@ -29,6 +29,10 @@ inline static unsigned int compute_bucket_size(unsigned int pNumOfBuckets)
     ++idx;
   } while(idx < buckets_count);
 
+  // never wrap around to fewer buckets
+  if (pNumOfBuckets > std::numeric_limits<unsigned int>::max() - 131101)
+    return std::numeric_limits<unsigned int>::max();
+
   return (pNumOfBuckets+131101); // rare case. increase constantly
 }
 
diff --git a/include/eni/adt/bits/HashTable.tcc b/include/eni/adt/bits/HashTable.tcc
index 8e928cd..44245e7 100644
--- a/include/eni/adt/bits/HashTable.tcc
+++ b/include/eni/adt/bits/HashTable.tcc
@@ -225,6 +225,9 @@ void HashTable<K, V, H, E, A>::rehash(size_type pCount)
   // at least one bucket must stay empty, or probing never ends
   if (pCount <= numOfEntries())
     pCount = numOfEntries() + 1;
+  // the table counts its buckets in unsigned int
+  if (pCount > std::numeric_limits<unsigned int>::max())
+    pCount = std::numeric_limits<unsigned int>::max();
   super::doRehash(pCount);
 }
 
-- 
2.43.0


From afe35e4fa99d5d0b04214bd5011a2a52a4a3ffa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:46 +0000
Subject: [PATCH 28/28] fix: hash keys of any length

The 32 bit counters of the string hashers never reach the length of a key
of 4 GiB or more, so that hashing one did not end.
---
 include/eni/adt/StringHasher.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/eni/adt/StringHasher.h b/include/eni/adt/StringHasher.h
index 7515c4b..213ed6f 100644
--- a/include/eni/adt/StringHasher.h
+++ b/include/eni/adt/StringHasher.h
@@ -56,7 +56,7 @@ struct StringHasher<RS> : public std::unary_function<const std::string&, uint32_
     uint32_t a = 63689;
     uint32_t hash_val = 0;
 
-    for(unsigned int i = 0; i < pKey.size(); ++i) {
+    for(std::string::size_type i = 0; i < pKey.size(); ++i) {
       hash_val = hash_val * a + pKey[i];
       a = a * b;
     }
@@ -74,7 +74,7 @@ struct StringHasher<JS> : public std::unary_function<const std::string&, uint32_
   {
     uint32_t hash_val = 1315423911;
 
-    for(unsigned int i = 0; i < pKey.size(); ++i) {
+    for(std::string::size_type i = 0; i < pKey.size(); ++i) {
        hash_val ^= ((hash_val << 5) + pKey[i] + (hash_val >> 2));
     } 
     return hash_val;
@@ -96,7 +96,7 @@ struct StringHasher<PJW> : public std::unary_function<const std::string&, uint32
     uint32_t hash_val = 0;
     uint32_t test = 0;
 
-    for(unsigned int i = 0; i < pKey.size(); ++i) {
+    for(std::string::size_type i = 0; i < pKey.size(); ++i) {
       hash_val = (hash_val << OneEighth) + pKey[i];
 
       if((test = hash_val & HighBits) != 0) {
@@ -118,7 +118,7 @@ struct StringHasher<ELF> : public std::unary_function<const std::string&, uint32
     uint32_t hash_val = 0;
     uint32_t x = 0;
 
-    for (unsigned int i = 0; i < pKey.size(); ++i) {
+    for (std::string::size_type i = 0; i < pKey.size(); ++i) {
       hash_val = (hash_val << 4) + pKey[i];
       if((x = hash_val & 0xF0000000L) != 0)
         hash_val ^= (x >> 24); 
@@ -139,7 +139,7 @@ struct StringHasher<BKDR> : public std::unary_function<const std::string&, uint3
     const uint32_t seed = 131;
     uint32_t hash_val = 0;
 
-    for(uint32_t i = 0; i < pKey.size(); ++i)
+    for(std::string::size_type i = 0; i < pKey.size(); ++i)
       hash_val = (hash_val * seed) + pKey[i];
     return hash_val;
   }
@@ -157,7 +157,7 @@ struct StringHasher<SDBM> : public std::unary_function<const std::string&, uint3
   {
     uint32_t hash_val = 0;
 
-    for(uint32_t i = 0; i < pKey.size(); ++i)
+    for(std::string::size_type i = 0; i < pKey.size(); ++i)
       hash_val = pKey[i] + (hash_val << 6) + (hash_val << 16) - hash_val;
     return hash_val;
   }
@@ -174,7 +174,7 @@ struct StringHasher<DJB> : public std::unary_function<const std::string&, uint32
   {
     uint32_t hash_val = 5381;
 
-    for(uint32_t i = 0; i < pKey.size(); ++i)
+    for(std::string::size_type i = 0; i < pKey.size(); ++i)
       hash_val = ((hash_val << 5) + hash_val) + pKey[i];
 
     return hash_val;
@@ -192,7 +192,7 @@ struct StringHasher<DEK> : public std::unary_function<const std::string&, uint32
   {
     uint32_t hash_val = pKey.size();
 
-    for(uint32_t i = 0; i < pKey.size(); ++i)
+    for(std::string::size_type i = 0; i < pKey.size(); ++i)
       hash_val = ((hash_val << 5) ^ (hash_val >> 27)) ^ pKey[i];
 
     return hash_val;
@@ -209,7 +209,7 @@ struct StringHasher<BP> : public std::unary_function<const std::string&, uint32_
   uint32_t operator()(const std::string& pKey) const
   {
     uint32_t hash_val = 0;
-    for(uint32_t i = 0; i < pKey.size(); ++i)
+    for(std::string::size_type i = 0; i < pKey.size(); ++i)
       hash_val = hash_val << 7 ^ pKey[i];
 
     return hash_val;
@@ -227,7 +227,7 @@ struct StringHasher<FNV> : public std::unary_function<const std::string&, uint32
   {
     const uint32_t fnv_prime = 0x811C9DC5;
     uint32_t hash_val = 0;
-    for(uint32_t i = 0; i < pKey.size(); ++i) {
+    for(std::string::size_type i = 0; i < pKey.size(); ++i) {
       hash_val *= fnv_prime;
       hash_val ^= pKey[i];
     }
@@ -247,7 +247,7 @@ struct StringHasher<AP> : public std::unary_function<const std::string&, uint32_
   {
     unsigned int hash_val = 0xAAAAAAAA;
 
-    for(uint32_t i = 0; i < pKey.size(); ++i) {  
+    for(std::string::size_type i = 0; i < pKey.size(); ++i) {  
       hash_val ^= ((i & 1) == 0)?
                           ((hash_val <<  7) ^ pKey[i] * (hash_val >> 3)):
                           (~((hash_val << 11) + (pKey[i] ^ (hash_val >> 5))));
-- 
2.43.0

