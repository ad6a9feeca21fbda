From 1355369fe778bc0e838832c13e14438b632fa8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:35 +0000
Subject: [PATCH 01/21] fix: SHA-224 and SHA-384 hexadecimal form has the
 length of the digest

---
 include/caligo/sha2.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/caligo/sha2.h b/include/caligo/sha2.h
index 0f43f9c..2d8799b 100644
--- a/include/caligo/sha2.h
+++ b/include/caligo/sha2.h
@@ -64,7 +64,15 @@ struct SHA2<224> : private SHA2<256> {
     return hashcopy;
   }
   std::array<uint8_t, hashsize> data() const { return *this; }
-  using SHA2<256>::operator std::string;
+  inline operator std::string() const {
+    static const char hextab[] = "0123456789abcdef";
+    std::string str;
+    for (const auto& c : data()) {
+      str.push_back(hextab[c >> 4]);
+      str.push_back(hextab[c & 0xF]);
+    }
+    return str;
+  }
   using SHA2<256>::add;
   static inline std::vector<uint8_t> getAsn1Id() {
     return std::initializer_list<uint8_t>{ 0x30, 0x2d, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x04, 0x05, 0x00, 0x04, 0x1c };
@@ -127,7 +135,15 @@ struct SHA2<384> : private SHA2<512> {
     return hashcopy;
   }
   std::array<uint8_t, hashsize> data() const { return *this; }
-  using SHA2<512>::operator std::string;
+  inline operator std::string() const {
+    static const char hextab[] = "0123456789abcdef";
+    std::string str;
+    for (const auto& c : data()) {
+      str.push_back(hextab[c >> 4]);
+      str.push_back(hextab[c & 0xF]);
+    }
+    return str;
+  }
   using SHA2<512>::add;
   static inline std::vector<uint8_t> getAsn1Id() {
     return std::initializer_list<uint8_t>{ 0x30, 0x41, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x02, 0x05, 0x00, 0x04, 0x30 };
-- 
2.43.0


From dd26aff262a4cbd6221fc919c03f1861bc6291b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:35 +0000
Subject: [PATCH 02/21] fix: Hash selects SHA3-256 by its name and rejects
 unknown names

---
 src/hash.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hash.cpp b/src/hash.cpp
index 6cd817c..3b407ae 100644
--- a/src/hash.cpp
+++ b/src/hash.cpp
@@ -22,11 +22,11 @@ struct Hash::Impl {
       impl.emplace<SHA2<512>>();
     } else if (hashName == "sha3-224") {
       impl.emplace<SHA3<224>>();
-    } else if (hashName == "sha2-256") {
+    } else if (hashName == "sha3-256") {
       impl.emplace<SHA3<256>>();
     } else if (hashName == "sha3-384") {
       impl.emplace<SHA3<384>>();
-    } else if ("sha3-512") {
+    } else if (hashName == "sha3-512") {
       impl.emplace<SHA3<512>>();
     } else {
       throw std::runtime_error("Invalid hash selected");
-- 
2.43.0


From 4029d7bcefd4f132983f36c8db0fde24be4e5eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:35 +0000
Subject: [PATCH 03/21] fix: AES key schedule rejects keys of the wrong length

---
 src/aes.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aes.cpp b/src/aes.cpp
index a2ca037..51e9ef2 100644
--- a/src/aes.cpp
+++ b/src/aes.cpp
@@ -4,6 +4,7 @@
 #include <cstdint>
 #include <cstdlib>
 #include <cstring>
+#include <stdexcept>
 #include <vector>
 #ifdef __x86_64__
 #include <x86intrin.h>
@@ -19,6 +20,7 @@ static __m128i nextRoundKey(__m128i in) {
 
 template <>
 AesKeySchedule<128>::AesKeySchedule(std::span<const uint8_t> key) {
+  if (key.size() != 16) throw std::runtime_error("Invalid AES key size");
   std::memcpy(eroundKeys, key.data(), key.size());
 
   eroundKeys[1] = nextRoundKey<0>(eroundKeys[0]);
@@ -35,6 +37,7 @@ AesKeySchedule<128>::AesKeySchedule(std::span<const uint8_t> key) {
 
 template <>
 AesKeySchedule<256>::AesKeySchedule(std::span<const uint8_t> key) {
+  if (key.size() != 32) throw std::runtime_error("Invalid AES key size");
   __m128i a = _mm_loadu_si128((__m128i*)key.data()), b = _mm_loadu_si128((__m128i*)(key.data()+16));
   eroundKeys[0]=a;
   eroundKeys[1]=b;
-- 
2.43.0


From 1dc6230ad7a95c878728f102153738734a6277ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:35 +0000
Subject: [PATCH 04/21] fix: CTR keystream is no longer overwritten with zeroes

---
 include/caligo/ctr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/caligo/ctr.h b/include/caligo/ctr.h
index c84f7d7..c836c59 100644
--- a/include/caligo/ctr.h
+++ b/include/caligo/ctr.h
@@ -46,7 +46,7 @@ struct CTR {
 
     std::vector<uint8_t> keystream;
     size_t blocks = (size + Cipher::size - 1) / Cipher::size;
-    keystream.reserve(blocks * Cipher::size);
+    keystream.resize(blocks * Cipher::size);
     for (size_t n = 0; n < blocks; n++) {
       ctr_inc(ctr);
       __m128i block = Cipher::Encrypt(sched, _mm_loadu_si128((__m128i*)ctr.data()));
-- 
2.43.0


From 00e9ae78919576d701c439a07c75901a801b45ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:55 +0000
Subject: [PATCH 05/21] fix: HMAC pads to the block size of the hash and hashes
 longer keys

---
 include/caligo/hkdf.h | 9 +++++++--
 include/caligo/md5.h  | 1 +
 include/caligo/sha1.h | 1 +
 include/caligo/sha2.h | 4 ++++
 include/caligo/sha3.h | 1 +
 5 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/caligo/hkdf.h b/include/caligo/hkdf.h
index 16362a1..a9e95e3 100644
--- a/include/caligo/hkdf.h
+++ b/include/caligo/hkdf.h
@@ -10,9 +10,14 @@ namespace Caligo {
 
 template <typename Hash>
 std::array<uint8_t, Hash::hashsize> HMAC(std::span<const uint8_t> text, std::span<const uint8_t> key) {
+  std::array<uint8_t, Hash::hashsize> hashedKey;
+  if (key.size() > Hash::blocksize) {
+    hashedKey = Hash(key);
+    key = hashedKey;
+  }
   std::vector<uint8_t> o(key.begin(), key.end()), i(key.begin(), key.end());
-  o.resize(Hash::hashsize*2);
-  i.resize(Hash::hashsize*2);
+  o.resize(Hash::blocksize);
+  i.resize(Hash::blocksize);
   for (auto& c : o) c ^= 0x5C;
   for (auto& c : i) c ^= 0x36;
   i.insert(i.end(), text.begin(), text.end());
diff --git a/include/caligo/md5.h b/include/caligo/md5.h
index 268fc8f..caf642b 100644
--- a/include/caligo/md5.h
+++ b/include/caligo/md5.h
@@ -10,6 +10,7 @@ namespace Caligo {
 
 struct MD5 {
   static constexpr size_t hashsize = 16;
+  static constexpr size_t blocksize = 64;
   MD5();
   template <typename... T>
   inline MD5(T... ts)
diff --git a/include/caligo/sha1.h b/include/caligo/sha1.h
index 5d3f3e2..fc8564c 100644
--- a/include/caligo/sha1.h
+++ b/include/caligo/sha1.h
@@ -10,6 +10,7 @@ namespace Caligo {
 
 struct SHA1 {
   static constexpr size_t hashsize = 20;
+  static constexpr size_t blocksize = 64;
   SHA1();
   template <typename... T>
   inline SHA1(T... ts)
diff --git a/include/caligo/sha2.h b/include/caligo/sha2.h
index 2d8799b..a643378 100644
--- a/include/caligo/sha2.h
+++ b/include/caligo/sha2.h
@@ -14,6 +14,7 @@ struct SHA2;
 template <>
 struct SHA2<256> {
   static constexpr size_t hashsize = 32;
+  static constexpr size_t blocksize = 64;
   SHA2();
   template <typename... T>
   inline SHA2(T... ts)
@@ -44,6 +45,7 @@ protected:
 template <>
 struct SHA2<224> : private SHA2<256> {
   static constexpr size_t hashsize = 28;
+  static constexpr size_t blocksize = 64;
   inline SHA2() {
     sha224_override();
   }
@@ -85,6 +87,7 @@ struct SHA2<224> : private SHA2<256> {
 template <>
 struct SHA2<512> {
   static constexpr size_t hashsize = 64;
+  static constexpr size_t blocksize = 128;
   SHA2();
   template <typename... T>
   inline SHA2(T... ts)
@@ -115,6 +118,7 @@ protected:
 template <>
 struct SHA2<384> : private SHA2<512> {
   static constexpr size_t hashsize = 48;
+  static constexpr size_t blocksize = 128;
   inline SHA2() {
     sha384_override();
   }
diff --git a/include/caligo/sha3.h b/include/caligo/sha3.h
index 57e8d01..d18c0a2 100644
--- a/include/caligo/sha3.h
+++ b/include/caligo/sha3.h
@@ -12,6 +12,7 @@ template <size_t size>
 struct SHA3 {
   static constexpr size_t hashsize = size/8;
   static constexpr size_t r = 1600 - 2 * size;
+  static constexpr size_t blocksize = r / 8;
   SHA3();
   template <typename... T>
   inline SHA3(T... ts)
-- 
2.43.0


From 76e85c498c265859d396290acb19ccc4eb75b42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:29 +0000
Subject: [PATCH 06/21] fix: SHA-3 DigestInfo identifiers state the length of
 the digest

---
 include/caligo/sha3.h | 6 +++---
 src/sha3.cpp          | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/caligo/sha3.h b/include/caligo/sha3.h
index d18c0a2..a5f31e4 100644
--- a/include/caligo/sha3.h
+++ b/include/caligo/sha3.h
@@ -32,13 +32,13 @@ struct SHA3 {
   }
   static inline std::vector<uint8_t> getAsn1Id() {
     if constexpr (size == 224) {
-      return std::initializer_list<uint8_t>{ 0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x07, 0x05, 0x00, 0x04, 0x20 };
+      return std::initializer_list<uint8_t>{ 0x30, 0x2d, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x07, 0x05, 0x00, 0x04, 0x1c };
     } else if constexpr (size == 256) {
       return std::initializer_list<uint8_t>{ 0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x08, 0x05, 0x00, 0x04, 0x20 };
     } else if constexpr (size == 384) {
-      return std::initializer_list<uint8_t>{ 0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x09, 0x05, 0x00, 0x04, 0x20 };
+      return std::initializer_list<uint8_t>{ 0x30, 0x41, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x09, 0x05, 0x00, 0x04, 0x30 };
     } else if constexpr (size == 512) {
-      return std::initializer_list<uint8_t>{ 0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x0a, 0x05, 0x00, 0x04, 0x20 };
+      return std::initializer_list<uint8_t>{ 0x30, 0x51, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x0a, 0x05, 0x00, 0x04, 0x40 };
     } else {
       return {};
     }
diff --git a/src/sha3.cpp b/src/sha3.cpp
index eed5317..8edee21 100644
--- a/src/sha3.cpp
+++ b/src/sha3.cpp
@@ -123,7 +123,7 @@ void Caligo::SHA3<size>::processChunk() {
 
 template <>
 std::vector<uint8_t> Caligo::SHA3<224>::getAsn1Id() {
-  return std::initializer_list<uint8_t>{ 0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x07, 0x05, 0x00, 0x04, 0x20 };
+  return std::initializer_list<uint8_t>{ 0x30, 0x2d, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x07, 0x05, 0x00, 0x04, 0x1c };
 }
 
 template <>
@@ -133,12 +133,12 @@ std::vector<uint8_t> Caligo::SHA3<256>::getAsn1Id() {
 
 template <>
 std::vector<uint8_t> Caligo::SHA3<384>::getAsn1Id() {
-  return std::initializer_list<uint8_t>{ 0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x09, 0x05, 0x00, 0x04, 0x20 };
+  return std::initializer_list<uint8_t>{ 0x30, 0x41, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x09, 0x05, 0x00, 0x04, 0x30 };
 }
 
 template <>
 std::vector<uint8_t> Caligo::SHA3<512>::getAsn1Id() {
-  return std::initializer_list<uint8_t>{ 0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x0a, 0x05, 0x00, 0x04, 0x20 };
+  return std::initializer_list<uint8_t>{ 0x30, 0x51, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x0a, 0x05, 0x00, 0x04, 0x40 };
 }
 
 template struct Caligo::SHA3<224>;
-- 
2.43.0


From b0fc3239fb8a45e22dc7b6385a208f6ade89c90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:30 +0000
Subject: [PATCH 07/21] fix: naive_reduce with a modulus whose top word has
 leading zero bits

The modulus was only aligned to a whole word, so a value could still be
larger than the aligned modulus and the result was not reduced.
---
 include/caligo/bignum.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/caligo/bignum.h b/include/caligo/bignum.h
index 95ace0f..1826b04 100644
--- a/include/caligo/bignum.h
+++ b/include/caligo/bignum.h
@@ -97,9 +97,13 @@ struct bignum {
     size_t shift = 0;
     while (s.v[(Bits + 31)/32 - 1] == 0) {
       s.shl_word(1);
+      shift += 32;
+    }
+    while ((s.v[(Bits + 31)/32 - 1] >> 31) == 0) {
+      s = (s + s).second;
       shift++;
     }
-    for (size_t n = 0; n <= (shift * 32); n++) {
+    for (size_t n = 0; n <= shift; n++) {
       auto [overflow, c2] = c - s;
       c = (overflow ? c : c2);
       s.shr1();
-- 
2.43.0


From b49c6b73b47f94c5437c784bb0f12b0f8cefbe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:30 +0000
Subject: [PATCH 08/21] fix: Montgomery reduction result may be the modulus or
 above

The final subtraction was done only when the sum overflowed the word, so
for a modulus below 2^K the result was not always below the modulus.
---
 include/caligo/mont.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/caligo/mont.h b/include/caligo/mont.h
index 25fe245..3104d9a 100644
--- a/include/caligo/mont.h
+++ b/include/caligo/mont.h
@@ -48,7 +48,7 @@ struct MontgomeryState {
     auto vmn = v + mn;
     bignum<K> t = vmn.second.template slice<K>(K);
     auto [carry, t2] = t - N;
-    return vmn.first ? t2 : t;
+    return (vmn.first || !carry) ? t2 : t;
   }
 };
 
-- 
2.43.0


From 9fa058610bfe6bb4f8ecebd4e01a8e5721ec4866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:30 +0000
Subject: [PATCH 09/21] fix: Montgomery addition dropped the carry and did not
 reduce

---
 include/caligo/mont.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/caligo/mont.h b/include/caligo/mont.h
index 3104d9a..503ec86 100644
--- a/include/caligo/mont.h
+++ b/include/caligo/mont.h
@@ -64,7 +64,9 @@ struct MontgomeryValue {
   }
   MontgomeryValue operator+(const MontgomeryValue& rhs) const {
     MontgomeryValue rv(state);
-    rv.value = (value + rhs.value).second;
+    auto [overflow, sum] = value + rhs.value;
+    auto [borrow, reduced] = sum - state->N;
+    rv.value = (overflow || !borrow) ? reduced : sum;
     return rv;
   }
   MontgomeryValue operator*(const MontgomeryValue& rhs) const {
-- 
2.43.0


From c71fe38aacad141ffffc652a895cf94413cfed49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:30 +0000
Subject: [PATCH 10/21] fix: exponentiation by a 32-bit exponent always used
 65537

---
 include/caligo/mont.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/caligo/mont.h b/include/caligo/mont.h
index 503ec86..9119fb5 100644
--- a/include/caligo/mont.h
+++ b/include/caligo/mont.h
@@ -80,13 +80,13 @@ struct MontgomeryValue {
     return rv;
   }
   MontgomeryValue exp(uint32_t exponent) const {
-    (void)exponent;
     MontgomeryValue b = *this;
     MontgomeryValue<K> v(*state, 1);
-    for (size_t n = 0; n < 16; n++) {
+    for (; exponent; exponent >>= 1) {
+      if (exponent & 1) v = v * b;
       b = b.square();
     }
-    return b * *this;
+    return v;
   }
   MontgomeryValue exp(bignum<K> exponent) const {
     MontgomeryValue b = *this;
-- 
2.43.0


From 653abe2860a4b1e610bd0e23d982a5b7f04cea7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:41 +0000
Subject: [PATCH 11/21] fix: inequality of field elements compared
 representations instead of residues

---
 include/caligo/x25519.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/caligo/x25519.h b/include/caligo/x25519.h
index 020bdad..bb99f07 100644
--- a/include/caligo/x25519.h
+++ b/include/caligo/x25519.h
@@ -18,7 +18,7 @@ struct ec_value {
   bignum<256> v;
   int bit(size_t n) const { return v.bit(n); }
   ec_value& operator=(uint32_t value) { v = value; return *this; }
-  bool operator!=(const ec_value& rhs) { return !(v == rhs.v); }
+  bool operator!=(const ec_value& rhs) const { return !(*this == rhs); }
   constexpr ec_value(std::initializer_list<uint32_t> nv) 
   : v(nv) {}
   constexpr ec_value(bignum<256> nv) 
-- 
2.43.0


From 65965a5e912f882a1ca13c9981686553e6b959d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:41 +0000
Subject: [PATCH 12/21] fix: X25519 ignores the most significant bit of the
 u-coordinate

---
 include/caligo/x25519.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/caligo/x25519.h b/include/caligo/x25519.h
index bb99f07..dfa2688 100644
--- a/include/caligo/x25519.h
+++ b/include/caligo/x25519.h
@@ -120,6 +120,7 @@ struct ec_value {
 
 inline ec_value X25519(ec_value k, ec_value u) {
    k.normalize();
+   u.v.clear_bit(255); // RFC 7748, chapter 5: the most significant bit of the u-coordinate is masked
 
    ec_value x_2 = {1};
    ec_value z_2 = {0};
-- 
2.43.0


From e301a0ce7e95dbd5553051a559fb9ef6499c49cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:36 +0000
Subject: [PATCH 13/21] fix: DER values are read within the bounds of the input

---
 include/caligo/Asn1.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/caligo/Asn1.h b/include/caligo/Asn1.h
index 7d78731..0e8e027 100644
--- a/include/caligo/Asn1.h
+++ b/include/caligo/Asn1.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <span>
+#include <stdexcept>
 #include <utility>
 #include <cstdint>
 #include <cstddef>
@@ -34,25 +35,33 @@ struct asn1_view {
   : data(data)
   {}
   std::pair<asn1_id, std::span<const uint8_t>> read() {
-    asn1_id id = (asn1_id)data[offset++];
-    size_t size = data[offset++];
+    asn1_id id = (asn1_id)next();
+    size_t size = next();
     if (size & 0x80) {
       size_t bytes = size & 0x7F;
       size = 0;
       for (; bytes --> 0;) {
-        size = (size << 8) + data[offset++];
+        if (size >> (sizeof(size) * 8 - 8)) throw std::runtime_error("DER length too large");
+        size = (size << 8) + next();
       }
     }
+    if (size > data.size() - offset) throw std::runtime_error("Truncated DER value");
     size_t off = offset;
     offset += size;
-    return { id, std::span<const uint8_t>(data.data() + off, data.data() + off + size) };
+    return { id, data.subspan(off, size) };
   }
   asn1_id peek() {
+    if (empty()) throw std::runtime_error("Truncated DER data");
     return (asn1_id)data[offset];
   }
   bool empty() {
     return offset == data.size();
   }
+private:
+  uint8_t next() {
+    if (empty()) throw std::runtime_error("Truncated DER data");
+    return data[offset++];
+  }
 };
 
 }
-- 
2.43.0


From 09061a8053509c649a458857e78c278776f34def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:36 +0000
Subject: [PATCH 14/21] fix: certificate dates in century years, before 1970
 and malformed ones

---
 src/X509Certificate.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/X509Certificate.cpp b/src/X509Certificate.cpp
index 8f0fc73..5fafb2a 100644
--- a/src/X509Certificate.cpp
+++ b/src/X509Certificate.cpp
@@ -106,7 +106,7 @@ template <>
 x509date parseDer<x509date>(asn1_view& data) {
   static constexpr size_t daysInMonth[12] = { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 };
   auto [id, bytes] = data.read();
-  if (bytes.back() != 'Z') return 0;
+  if (bytes.empty() || bytes.back() != 'Z') return 0;
   std::vector<uint8_t> bytesCopy;
   if (id == asn1_id::utctime) {
     bool isPre2000 = (bytes[0] >= '5');
@@ -120,6 +120,7 @@ x509date parseDer<x509date>(asn1_view& data) {
   for (auto& b : bytesCopy) {
     if (b < '0' || b > '9') return 0;
   }
+  if (bytesCopy.size() != 10 && bytesCopy.size() != 12 && bytesCopy.size() != 14) return 0;
   int year = (bytesCopy[0] - '0') * 1000 + (bytesCopy[1] - '0') * 100 + (bytesCopy[2] - '0') * 10 + (bytesCopy[3] - '0') - 1970;
   int month = (bytesCopy[4] - '0') * 10 + bytesCopy[5] - '0';
   if (month <= 0 || month > 12) return 0;
@@ -128,8 +129,14 @@ x509date parseDer<x509date>(asn1_view& data) {
   int minutes = (bytesCopy.size() >= 12) ? (bytesCopy[10] - '0') * 10 + bytesCopy[11] - '0' : 0;
   int seconds = (bytesCopy.size() >= 14) ? (bytesCopy[12] - '0') * 10 + bytesCopy[13] - '0' : 0;
 
-  int leapdays = (year + 1) / 4;
-  if (year % 4 == 2 && month > 2) leapdays++;
+  if (year < 0) return 0; // before 1970, not representable
+  int fullYear = year + 1970;
+  bool isLeapYear = fullYear % 4 == 0 && (fullYear % 100 != 0 || fullYear % 400 == 0);
+  int daysThisMonth = (month == 12 ? 365 : (int)daysInMonth[month]) - (int)daysInMonth[month-1] + (month == 2 && isLeapYear);
+  if (day < 1 || day > daysThisMonth || hours > 23 || minutes > 59 || seconds > 59) return 0;
+
+  int lastFebruary = fullYear - (month <= 2);
+  int leapdays = lastFebruary / 4 - lastFebruary / 100 + lastFebruary / 400 - 477; // 477 leap days before 1970
   return (year * 365 + (daysInMonth[month-1] + day - 1 + leapdays)) * 86400 + hours * 3600 + minutes * 60 + seconds;
 }
 
-- 
2.43.0


From 812a40852bbdc53654ac282c93cff77831b879e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:36 +0000
Subject: [PATCH 15/21] fix: RSA keys with an even modulus or without content
 are refused

---
 src/X509Certificate.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/X509Certificate.cpp b/src/X509Certificate.cpp
index 5fafb2a..c3fd0fe 100644
--- a/src/X509Certificate.cpp
+++ b/src/X509Certificate.cpp
@@ -235,6 +235,7 @@ RsaPubkey parseDer<RsaPubkey>(asn1_view& data) {
   Caligo::bignum<4096> n = parseBignumDer<4096>(d);
   Caligo::bignum<4096> e = parseBignumDer<4096>(d);
   if (e < Caligo::bignum<4096>(17)) throw std::runtime_error("Invalid public key; E is only " + std::to_string(e[0]));
+  if (!n.bit(0)) throw std::runtime_error("Invalid public key; modulus is even");
   return {Caligo::rsa_public_key<4096>{n, e}};
 }
 
@@ -250,6 +251,7 @@ std::unique_ptr<PublicKey> parseDer<std::unique_ptr<PublicKey>>(asn1_view& data)
     return {};
 
   auto [id3, s2] = data.read();
+  if (s2.empty()) FAIL();
   std::span<const uint8_t> s22 = s2.subspan(1);
   asn1_view body(s22);
   return std::make_unique<RsaPubkey>(parseDer<RsaPubkey>(body));
@@ -424,6 +426,7 @@ std::unique_ptr<PrivateKey> parsePrivateKey(std::span<const uint8_t> in, DataFor
   Caligo::bignum<4096> modulus = parseBignumDer<4096>(data);
   /*Caligo::bignum<4096> publicExponent = */parseBignumDer<4096>(data);
   Caligo::bignum<4096> privateExponent = parseBignumDer<4096>(data);
+  if (!modulus.bit(0)) throw std::runtime_error("Invalid private key; modulus is even");
   /*
   Caligo::bignum<4096> prime1 = parseBignumDer<4096>(data);
   Caligo::bignum<4096> prime2 = parseBignumDer<4096>(data);
-- 
2.43.0


From eb16e6f0226cddfcd351e7f5d0e7f3843009af5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:36 +0000
Subject: [PATCH 16/21] fix: certificates cannot be verified by an issuer
 without a supported key or with an empty signature

---
 src/X509Certificate.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/X509Certificate.cpp b/src/X509Certificate.cpp
index c3fd0fe..f4882c0 100644
--- a/src/X509Certificate.cpp
+++ b/src/X509Certificate.cpp
@@ -383,6 +383,7 @@ bool x509certificate::verify(x509certificate& issuer) {
   auto [signature_id, sig] = data.read();
   if (sig_id != asn1_id::sequence) return false;
   if (signature_id != asn1_id::bit_string) return false;
+  if (sig.empty() || !issuer.pubkey) return false;
   // Verify signature, using algo, on cert.
   // find certificate that has the correct issuer
 
-- 
2.43.0


From 954bd598726820ce0837f4b475d29b239ce01fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:36 +0000
Subject: [PATCH 17/21] fix: the last certificate of a PEM bundle is loaded,
 and none from a text without any

---
 src/X509Certificate.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/X509Certificate.cpp b/src/X509Certificate.cpp
index f4882c0..a19a530 100644
--- a/src/X509Certificate.cpp
+++ b/src/X509Certificate.cpp
@@ -348,19 +348,16 @@ std::vector<x509certificate> parseCertificatesPem(std::span<const uint8_t> in) {
   std::vector<x509certificate> certs;
   std::string_view buffer((const char*)in.data(), in.size());
   size_t start = buffer.find("-----BEGIN CERTIFICATE-----");
-  size_t end = buffer.find("-----BEGIN CERTIFICATE-----", start + 1);
 
-  while (end != std::string::npos) {
-    std::string_view certpem = std::string_view(buffer).substr(start, end - start);
+  while (start != std::string_view::npos) {
+    size_t end = buffer.find("-----BEGIN CERTIFICATE-----", start + 1);
+    std::string_view certpem = buffer.substr(start, end - start);
 
     std::span<const uint8_t> av(std::span<const uint8_t>((const uint8_t*)certpem.data(), certpem.size()));
     certs.push_back(parseCertificate(av, DataFormat::Pem));
     start = end;
-    end = buffer.find("-----BEGIN CERTIFICATE-----", start + 1);
   }
 
-  std::span<const uint8_t> av(std::span<const uint8_t>((const uint8_t*)buffer.data(), buffer.size()));
-  certs.push_back(parseCertificate(av, DataFormat::Pem));
   return certs;
 }
 
-- 
2.43.0


From 1795ef38258c0925f08cd5b7c00a9ab167cb4fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:36 +0000
Subject: [PATCH 18/21] fix: an empty certificate chain is not trusted

---
 src/Truststore.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Truststore.cpp b/src/Truststore.cpp
index 218d6ca..45b9a36 100644
--- a/src/Truststore.cpp
+++ b/src/Truststore.cpp
@@ -46,6 +46,8 @@ bool Truststore::trust(std::vector<x509certificate> &untrustedCertificates, uint
   for (auto& [name, cert] : trusted_certs) {
     localCertMap[name] = &cert;
   }
+  if (untrustedCertificates.empty())
+    return false;
   if (untrustedCertificates[0].validity_start > currentTime)
     return false;
   if (untrustedCertificates[0].validity_end < currentTime)
-- 
2.43.0


From 36e901a0edad06b44291c9a0ef36c28d0c27a067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:28 +0000
Subject: [PATCH 19/21] fix: PKCS#1 v1.5 signatures are over the message
 itself, big-endian and as long as the modulus

---
 include/caligo/pkcs1.h  | 28 ++++------------------------
 include/caligo/rsa.h    | 16 +++++++++++++---
 src/X509Certificate.cpp |  8 +++-----
 3 files changed, 20 insertions(+), 32 deletions(-)

diff --git a/include/caligo/pkcs1.h b/include/caligo/pkcs1.h
index d32fdf1..a7bf783 100644
--- a/include/caligo/pkcs1.h
+++ b/include/caligo/pkcs1.h
@@ -5,6 +5,8 @@ namespace Caligo {
 template <typename Hash>
 std::vector<uint8_t> PKCS1(std::span<const uint8_t> data, size_t requestedSize) {
   std::vector<uint8_t> rv;
+  // RFC8017, chapter 9.2, step 3: intended encoded message length too short
+  if (requestedSize < Hash::getAsn1Id().size() + Hash::hashsize + 11) return rv;
   rv.push_back(0);
   rv.push_back(1);
   while (rv.size() < requestedSize - Hash::getAsn1Id().size() - Hash::hashsize - 1) {
@@ -13,30 +15,8 @@ std::vector<uint8_t> PKCS1(std::span<const uint8_t> data, size_t requestedSize)
   rv.push_back(0);
   std::vector<uint8_t> id = Hash::getAsn1Id();
   rv.insert(rv.end(), id.begin(), id.end());
-  {
-    std::vector<uint8_t> prefix;
-    prefix.push_back({0x30});
-    if (data.size() < 0x80) {
-      prefix.push_back(data.size());
-    } else if (data.size() < 0x100) {
-      prefix.push_back(0x81);
-      prefix.push_back(data.size());
-    } else if (data.size() < 0x10000) {
-      prefix.push_back(0x82);
-      prefix.push_back((data.size() >> 8) & 0xFF);
-      prefix.push_back(data.size() & 0xFF);
-    } else {
-      prefix.push_back(0x83);
-      prefix.push_back((data.size() >> 16) & 0xFF);
-      prefix.push_back((data.size() >> 8) & 0xFF);
-      prefix.push_back(data.size() & 0xFF);
-    }
-    Hash hash;
-    hash.add(prefix);
-    hash.add(data);
-    std::array<uint8_t,Hash::hashsize> hashBytes = hash;
-    rv.insert(rv.end(), hashBytes.begin(), hashBytes.end());
-  }
+  std::array<uint8_t,Hash::hashsize> hashBytes = Hash(data);
+  rv.insert(rv.end(), hashBytes.begin(), hashBytes.end());
   return rv;
 };
 
diff --git a/include/caligo/rsa.h b/include/caligo/rsa.h
index bc7a0bd..b418d52 100644
--- a/include/caligo/rsa.h
+++ b/include/caligo/rsa.h
@@ -103,11 +103,20 @@ struct rsa_public_key {
       return MontgomeryValue<N>(s, m).exp(e);
     }
   }
+  size_t modulusBytes() const {
+    size_t bits = N;
+    while (bits > 0 && not n.bit(bits - 1)) bits--;
+    return (bits + 7) / 8;
+  }
   template <typename Hash>
   bool validatePkcs1_5Signature(std::span<const uint8_t> data, std::span<const uint8_t> sig) const {
-    std::vector<uint8_t> hash = Caligo::PKCS1<Hash>(data, sig.size());
+    std::vector<uint8_t> hash = Caligo::PKCS1<Hash>(data, modulusBytes());
+    if (hash.empty() || sig.size() != hash.size()) return false;
     std::reverse(hash.begin(), hash.end());
-    return bignum<N>(hash) == rsaep(bignum<N>(sig));
+    std::vector<uint8_t> sigR(sig.rbegin(), sig.rend());
+    bignum<N> sigBN = bignum<N>(sigR);
+    if (!(sigBN < n)) return false;
+    return bignum<N>(hash) == rsaep(sigBN);
   }
   template <typename Hash, typename MGF>
   bool validatePssSignature(std::span<const uint8_t> message, std::span<const uint8_t> sig) const {
@@ -145,9 +154,10 @@ struct rsa_private_key {
   template <typename Hash>
   std::vector<uint8_t> signPkcs1_5Signature(std::span<const uint8_t> data) const {
     std::vector<uint8_t> hash = Caligo::PKCS1<Hash>(data, actualN / 8);
+    if (hash.empty()) return {};
     std::reverse(hash.begin(), hash.end());
     std::vector<uint8_t> signature = rsadp(bignum<N>(hash)).as_bytes();
-    while (signature[signature.size() - 1] == 0 && (signature[signature.size() - 2] & 0x80) == 0x00) signature.pop_back();
+    signature.resize(actualN / 8);
     std::reverse(signature.begin(), signature.end());
     return signature;
   }
diff --git a/src/X509Certificate.cpp b/src/X509Certificate.cpp
index a19a530..5c513c2 100644
--- a/src/X509Certificate.cpp
+++ b/src/X509Certificate.cpp
@@ -386,10 +386,6 @@ bool x509certificate::verify(x509certificate& issuer) {
 
   asn1_view algov(algo);
   auto [six, oid] = algov.read();
-  std::vector<uint8_t> signature;
-  for (size_t n = 0; n < sig.size() - 1; n++) {
-    signature.push_back(sig[sig.size() - n - 1]);
-  }
   object_id objid{oid};
   Tls13SignatureScheme type = Tls13SignatureScheme::rsa_pkcs1_sha256;
   if (objid == object_id::SignatureType::RsaSHA256) {
@@ -402,7 +398,9 @@ bool x509certificate::verify(x509certificate& issuer) {
     type = (Tls13SignatureScheme)0;
   }
 
-  return issuer.pubkey->validateSignature(type, cert, signature);
+  // the signature is over the whole DER encoding of the certificate body, including its header
+  std::span<const uint8_t> signedBytes(root_data.data(), cert.data() + cert.size());
+  return issuer.pubkey->validateSignature(type, signedBytes, sig.subspan(1));
 }
 
 std::unique_ptr<PrivateKey> parsePrivateKey(std::span<const uint8_t> in, DataFormat format) {
-- 
2.43.0


From d6f000814286a2de878c890addf947123d4ab04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:28 +0000
Subject: [PATCH 20/21] fix: PSS signatures of a length other than the modulus,
 or not below it, are refused

---
 include/caligo/rsa.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/caligo/rsa.h b/include/caligo/rsa.h
index b418d52..d6d81bd 100644
--- a/include/caligo/rsa.h
+++ b/include/caligo/rsa.h
@@ -120,9 +120,11 @@ struct rsa_public_key {
   }
   template <typename Hash, typename MGF>
   bool validatePssSignature(std::span<const uint8_t> message, std::span<const uint8_t> sig) const {
+    if (sig.size() != modulusBytes() || sig.size() < Hash::hashsize + MGF::hashsize + 2) return false;
     std::vector<uint8_t> sigR(sig.begin(), sig.end());
     std::reverse(sigR.begin(), sigR.end());
     bignum<N> sigBN = bignum<N>(sigR);
+    if (!(sigBN < n)) return false;
     std::vector<uint8_t> dSigV = rsaep(sigBN).as_bytes();
     dSigV.resize(sig.size());
     std::reverse(dSigV.begin(), dSigV.end());
@@ -163,6 +165,7 @@ struct rsa_private_key {
   }
   template <typename Hash, typename MGF>
   std::vector<uint8_t> signPssSignature(std::span<const uint8_t> message, std::span<const uint8_t> salt) const {
+    if (actualN / 8 < Hash::hashsize + salt.size() + 2) return {};
     std::vector<uint8_t> pssData = Caligo::generatePssData<Hash>(message, salt, actualN / 8);
     pssData[0] &= 0x7F;
     std::reverse(pssData.begin(), pssData.end());
-- 
2.43.0


From 7367bf36cb41d8ae5a5f5d241769adb7fdd9b9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:28 +0000
Subject: [PATCH 21/21] fix: PSS signing with SHA-384 and SHA-512 hashes the
 message with that hash

---
 src/X509Certificate.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/X509Certificate.cpp b/src/X509Certificate.cpp
index 5c513c2..e191967 100644
--- a/src/X509Certificate.cpp
+++ b/src/X509Certificate.cpp
@@ -88,12 +88,12 @@ std::vector<uint8_t> RsaPrivateKey::sign(Tls13SignatureScheme type, std::span<co
   case Tls13SignatureScheme::rsa_pss_pss_sha384:
     salt.resize(48);
     Caligo::generate_random(salt);
-    return privkey.signPssSignature<Caligo::SHA2<384>, Caligo::MGF1<Caligo::SHA2<384>>>(Caligo::SHA2<256>(data).data(), salt);
+    return privkey.signPssSignature<Caligo::SHA2<384>, Caligo::MGF1<Caligo::SHA2<384>>>(Caligo::SHA2<384>(data).data(), salt);
   case Tls13SignatureScheme::rsa_pss_rsae_sha512:
   case Tls13SignatureScheme::rsa_pss_pss_sha512:
     salt.resize(64);
     Caligo::generate_random(salt);
-    return privkey.signPssSignature<Caligo::SHA2<512>, Caligo::MGF1<Caligo::SHA2<512>>>(Caligo::SHA2<256>(data).data(), salt);
+    return privkey.signPssSignature<Caligo::SHA2<512>, Caligo::MGF1<Caligo::SHA2<512>>>(Caligo::SHA2<512>(data).data(), salt);
   default:
     return {};
   }
-- 
2.43.0

