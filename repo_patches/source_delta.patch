From f9bb72e0bdfd997297db2052801864951dc0ca53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:59 +0000
Subject: [PATCH 01/39] fix: fill random keys in builds without memory locking

Key() only called random_bytes() under ENABLE_MEMORY_LOCK: without it, every
default-constructed key had the same constant content.
---
 src/include/sse/crypto/key.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/sse/crypto/key.hpp b/src/include/sse/crypto/key.hpp
index f284f91..689b103 100644
--- a/src/include/sse/crypto/key.hpp
+++ b/src/include/sse/crypto/key.hpp
@@ -111,9 +111,10 @@ public:
         if (content_ == nullptr) {
             throw std::bad_alloc(); /* LCOV_EXCL_LINE */
         }
-#ifdef ENABLE_MEMORY_LOCK
 
         random_bytes(N, content_);
+
+#ifdef ENABLE_MEMORY_LOCK
         int err = sodium_mprotect_noaccess(content_);
         if (err == -1 && errno != ENOSYS) {
             /* LCOV_EXCL_START */
-- 
2.43.0


From 3ed3ccf1c7ec59333fac864816049ebcbb040565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:59 +0000
Subject: [PATCH 02/39] fix: do not repeat blocks in PRF outputs wider than
 16384 bytes

The one-byte block counter wrapped after 256 blocks, so that wide outputs
repeated, and the 16-bit position wrapped for widths above 65472 bytes, in which
case prf() never returned. Outputs of up to 16384 bytes are unchanged.
---
 src/include/sse/crypto/prf.hpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/include/sse/crypto/prf.hpp b/src/include/sse/crypto/prf.hpp
index b8bdbe3..4250956 100644
--- a/src/include/sse/crypto/prf.hpp
+++ b/src/include/sse/crypto/prf.hpp
@@ -272,28 +272,38 @@ std::array<uint8_t, NBYTES> Prf<NBYTES>::prf(const unsigned char* in,
     std::array<uint8_t, NBYTES> result;
 
     if (NBYTES > PrfBase::kDigestSize) {
-        unsigned char* tmp = new unsigned char[length + 1];
+        // a single counter byte is enough for 256 blocks; use two of them for
+        // larger outputs, so that no block is repeated
+        constexpr size_t kCounterSize
+            = (NBYTES > 256 * static_cast<size_t>(PrfBase::kDigestSize)) ? 2
+                                                                         : 1;
+        const size_t tmp_len = length + kCounterSize;
+
+        unsigned char* tmp = new unsigned char[tmp_len];
         memcpy(tmp, in, length);
 
-        uint16_t pos = 0;
-        uint8_t  i   = 0;
+        size_t   pos = 0;
+        uint16_t i   = 0;
         for (; pos < NBYTES; pos += PrfBase::kDigestSize, i++) {
             // use a counter mode
-            tmp[length] = i;
+            tmp[length] = static_cast<uint8_t>(i & 0xFF);
+            if (kCounterSize > 1) {
+                tmp[tmp_len - 1] = static_cast<uint8_t>(i >> 8);
+            }
 
             // fill res
             if (static_cast<size_t>(NBYTES - pos) >= PrfBase::kDigestSize) {
                 base_.hmac(
-                    tmp, length + 1, result.data() + pos, PrfBase::kDigestSize);
+                    tmp, tmp_len, result.data() + pos, PrfBase::kDigestSize);
             } else {
                 base_.hmac(tmp,
-                           length + 1,
+                           tmp_len,
                            result.data() + pos,
                            static_cast<size_t>(NBYTES - pos));
             }
         }
 
-        sodium_memzero(tmp, length + 1);
+        sodium_memzero(tmp, tmp_len);
         delete[] tmp;
     } else if (NBYTES <= Hash::kDigestSize) {
         // only need one output bloc of PrfBase.
-- 
2.43.0


From f33d18ff74488ed9b1911c6ad938367b15bf2b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:07 +0000
Subject: [PATCH 03/39] fix: refuse RC-PRF leaves outside the tree

RCPrf::eval and eval_range checked the leaf against 2^height instead of
2^(height-1), so that leaves outside the tree were evaluated (and collided
with leaves inside the tree), and the check was undefined for height 64.
---
 src/include/sse/crypto/rcprf.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/include/sse/crypto/rcprf.hpp b/src/include/sse/crypto/rcprf.hpp
index 0ccbcab..adcab54 100644
--- a/src/include/sse/crypto/rcprf.hpp
+++ b/src/include/sse/crypto/rcprf.hpp
@@ -1938,8 +1938,9 @@ private:
 template<uint16_t NBYTES>
 std::array<uint8_t, NBYTES> RCPrf<NBYTES>::eval(uint64_t leaf) const
 {
-    if (leaf >> this->tree_height() != 0) {
-        throw std::out_of_range("Invalid node index: leaf > 2^height -1.");
+    if (leaf > RCPrfParams::max_leaf_index(this->tree_height())) {
+        throw std::out_of_range(
+            "Invalid node index: leaf > 2^(height-1) - 1.");
     }
 
     return static_cast<const RCPrf<NBYTES>*>(this)
@@ -1951,8 +1952,8 @@ void RCPrf<NBYTES>::eval_range(uint64_t             min,
                                uint64_t             max,
                                const callback_type& callback) const
 {
-    if (max >> this->tree_height() != 0) {
-        throw std::out_of_range("Invalid max index: max > 2^height -1.");
+    if (max > RCPrfParams::max_leaf_index(this->tree_height())) {
+        throw std::out_of_range("Invalid max index: max > 2^(height-1) - 1.");
     }
     if (max < min) {
         throw std::invalid_argument(
-- 
2.43.0


From 7bff22a087ce5964017268b5da72a707d7277c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:07 +0000
Subject: [PATCH 04/39] fix: refuse RC-PRF trees of height 1

The documentation requires a height larger than 1. A tree of height 1 was
accepted, and its evaluation failed an assertion (or, without assertions,
shifted by a negative amount).
---
 src/include/sse/crypto/rcprf.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/include/sse/crypto/rcprf.hpp b/src/include/sse/crypto/rcprf.hpp
index adcab54..416af0c 100644
--- a/src/include/sse/crypto/rcprf.hpp
+++ b/src/include/sse/crypto/rcprf.hpp
@@ -1778,9 +1778,9 @@ public:
     RCPrf(Key<RCPrfParams::kKeySize>&& key, RCPrfParams::depth_type height)
         : RCPrfBase<NBYTES>(height), root_prg_(std::move(key))
     {
-        if (height == 0) {
+        if (height <= 1) {
             throw std::invalid_argument(
-                "Invalid height: height must be non-zero");
+                "Invalid height: height must be larger than 1");
         }
         if (height > 64) {
             throw std::invalid_argument(
@@ -1904,9 +1904,9 @@ private:
         // deserialize function, so the next checks should always fail. Yet, for
         // the sake of security, let's keep them here. However, they cannot be
         // tested properly, so remove them from the code coverage.
-        if (height == 0) {
+        if (height <= 1) {
             throw std::invalid_argument(
-                "Invalid height: height must be non-zero");
+                "Invalid height: height must be larger than 1");
         }
         if (height > 64) {
             throw std::invalid_argument(
-- 
2.43.0


From 6309797128ac8f6985edbc813089242dbd2d626c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:07 +0000
Subject: [PATCH 05/39] fix: refuse inverted ranges in
 ConstrainedRCPrf::constrain

An inverted range was silently turned into a constraint that does not
correspond to the request, instead of the documented invalid_argument.
---
 src/include/sse/crypto/rcprf.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/include/sse/crypto/rcprf.hpp b/src/include/sse/crypto/rcprf.hpp
index 416af0c..87f933e 100644
--- a/src/include/sse/crypto/rcprf.hpp
+++ b/src/include/sse/crypto/rcprf.hpp
@@ -1437,6 +1437,12 @@ void ConstrainedRCPrf<NBYTES>::generate_constrained_subkeys(
     std::vector<std::unique_ptr<ConstrainedRCPrfElement<NBYTES>>>&
         constrained_elements) const
 {
+    if (min > max) {
+        throw std::invalid_argument(
+            "ConstrainedRCPrf::generate_constrained_subkeys: Invalid range: "
+            "min is larger than max: max="
+            + std::to_string(max) + ", min=" + std::to_string(min));
+    }
     if (min < this->min_leaf() || max > this->max_leaf()) {
         throw std::out_of_range(
             "ConstrainedRCPrf::generate_constrained_subkeys: the input range ("
-- 
2.43.0


From 09d5640b3a29298aa9e406ff129df971d8932188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:44 +0000
Subject: [PATCH 06/39] fix: give RCPrf its own wrapping type byte

RCPrf and ConstrainedRCPrf shared the type byte 0x06, so that a wrapped
object of one class was authenticated as an object of the other, although
Wrapper documents that type bytes must be distinct.
---
 src/include/sse/crypto/wrapper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/sse/crypto/wrapper.hpp b/src/include/sse/crypto/wrapper.hpp
index 576920b..5455024 100644
--- a/src/include/sse/crypto/wrapper.hpp
+++ b/src/include/sse/crypto/wrapper.hpp
@@ -363,7 +363,7 @@ class RCPrf;
 template<uint16_t NBYTES>
 struct Wrapper::TypeByte<RCPrf<NBYTES>>
 {
-    static constexpr uint8_t value = 0x06;
+    static constexpr uint8_t value = 0x05;
 };
 
 template<uint16_t NBYTES>
-- 
2.43.0


From 7e34707b89c0de2e87fcc6272b735be885056111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:56 +0000
Subject: [PATCH 07/39] fix: release the Wrapper's secure buffer on every path

Wrapper::unwrap leaked the secure buffer holding the decrypted object (with
its secrets, in clear) when the tag was invalid or the deserialization threw.
Also check that the secure allocations succeeded.
---
 src/include/sse/crypto/wrapper.hpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/include/sse/crypto/wrapper.hpp b/src/include/sse/crypto/wrapper.hpp
index 5455024..524d9db 100644
--- a/src/include/sse/crypto/wrapper.hpp
+++ b/src/include/sse/crypto/wrapper.hpp
@@ -27,6 +27,8 @@
 #include <algorithm>
 #include <array>
 #include <exception>
+#include <memory>
+#include <new>
 #include <vector>
 
 #include <sodium/crypto_stream_chacha20.h>
@@ -200,8 +202,14 @@ std::vector<uint8_t> Wrapper::wrap(const CryptoClass& c) const
     const size_t buffer_size     = kRandomIVSize + serialized_size
                                + CryptoClass::kPublicContextSize
                                + 1; // the +1 is for the mandatory type byte
-    uint8_t* buffer = static_cast<uint8_t*>(sodium_malloc(buffer_size));
-    // std::array<uint8_t, buffer_size> buffer;
+    // the buffer is freed when leaving the function, whatever the reason
+    const std::unique_ptr<uint8_t, void (*)(void*)> buffer_owner(
+        static_cast<uint8_t*>(sodium_malloc(buffer_size)), &sodium_free);
+    uint8_t* buffer = buffer_owner.get();
+
+    if (buffer == nullptr) {
+        throw std::bad_alloc(); /* LCOV_EXCL_LINE */
+    }
 
     // put the random IV at the beggining
     random_bytes(kRandomIVSize, buffer);
@@ -240,8 +248,6 @@ std::vector<uint8_t> Wrapper::wrap(const CryptoClass& c) const
                                     encryption_key_.unlock_get());
     encryption_key_.lock();
 
-    sodium_free(buffer);
-
     return out;
 }
 
@@ -257,8 +263,14 @@ CryptoClass Wrapper::unwrap(std::vector<uint8_t>& c_rep) const
     const size_t buffer_size = kRandomIVSize + data_size
                                + CryptoClass::kPublicContextSize
                                + 1; // the +1 is for the mandatory type byte
-    uint8_t* buffer = static_cast<uint8_t*>(sodium_malloc(buffer_size));
-    // std::array<uint8_t, buffer_size> buffer;
+    // the buffer is freed when leaving the function, whatever the reason
+    const std::unique_ptr<uint8_t, void (*)(void*)> buffer_owner(
+        static_cast<uint8_t*>(sodium_malloc(buffer_size)), &sodium_free);
+    uint8_t* buffer = buffer_owner.get();
+
+    if (buffer == nullptr) {
+        throw std::bad_alloc(); /* LCOV_EXCL_LINE */
+    }
 
     // copy the IV at the beggining of the buffer
     memcpy(buffer, c_rep.data(), kRandomIVSize);
@@ -319,8 +331,7 @@ CryptoClass Wrapper::unwrap(std::vector<uint8_t>& c_rep) const
         /* LCOV_EXCL_STOP */
     }
 
-    // free the buffer and zero the entry
-    sodium_free(buffer);
+    // zero the entry
     sodium_memzero(c_rep.data(), c_rep.size());
 
     return c;
-- 
2.43.0


From ca0eb164f6b94bfb623a69d3063ade0c401851e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:56 +0000
Subject: [PATCH 08/39] fix: unwrap empty constrained RC-PRFs

An empty ConstrainedRCPrf could be wrapped, but the result could never be
unwrapped.
---
 src/include/sse/crypto/rcprf.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/include/sse/crypto/rcprf.hpp b/src/include/sse/crypto/rcprf.hpp
index 87f933e..276519c 100644
--- a/src/include/sse/crypto/rcprf.hpp
+++ b/src/include/sse/crypto/rcprf.hpp
@@ -1534,11 +1534,11 @@ ConstrainedRCPrf<NBYTES> ConstrainedRCPrf<NBYTES>::deserialize(
     const size_t in_size,
     size_t&      n_bytes_read)
 {
+    // an empty constrained RC-PRF has no element
     constexpr size_t min_size
-        = sizeof(RCPrfParams::depth_type) + sizeof(uint32_t)
-          + ConstrainedRCPrfElement<NBYTES>::kSerializedElementInfoSize;
+        = sizeof(RCPrfParams::depth_type) + sizeof(uint32_t);
 
-    if (in_size <= min_size) {
+    if (in_size < min_size) {
         /* LCOV_EXCL_START */
         throw std::invalid_argument(
             "ConstrainedRCPrf::deserialize: invalid input buffer size. The "
-- 
2.43.0


From 3bbaf4a2b0918f2153fd351728837cc8bd95a64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:18 +0000
Subject: [PATCH 09/39] fix: refuse TDP keys whose modulus is not 2048 bits
 long

The TDP works on 256-byte elements. With a larger imported private key,
invert() wrote past the end of its 256-byte output; with a smaller key, the
objects could be constructed but their elements had an inconsistent size.
---
 src/tdp_impl/tdp_impl_mbedtls.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tdp_impl/tdp_impl_mbedtls.cpp b/src/tdp_impl/tdp_impl_mbedtls.cpp
index bfca8af..cca33db 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.cpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.cpp
@@ -87,6 +87,10 @@ TdpImpl_mbedTLS::TdpImpl_mbedTLS(const std::string& pk)
                                  "initialization");
         /* LCOV_EXCL_STOP */
     }
+
+    if (rsa_key_.len != kMessageSpaceSize) {
+        throw std::runtime_error("Invalid RSA public key size");
+    }
 }
 
 TdpImpl_mbedTLS::TdpImpl_mbedTLS(const TdpImpl_mbedTLS& tdp)
@@ -422,6 +426,10 @@ TdpInverseImpl_mbedTLS::TdpInverseImpl_mbedTLS(const std::string& sk)
             "initialization from existing secret key"); /* LCOV_EXCL_LINE */
     }
 
+    if (rsa_key_.len != kMessageSpaceSize) {
+        throw std::runtime_error("Invalid RSA private key size");
+    }
+
     if (mbedtls_mpi_sub_int(&p_1_, &rsa_key_.P, 1) != 0) {
         throw std::runtime_error(
             "Failed MPI substraction"); /* LCOV_EXCL_LINE */
-- 
2.43.0


From e6dae2ce047c0a49aa5157b684e1793d7270b46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:31 +0000
Subject: [PATCH 10/39] fix: TDP pools of size 1, of order 0 and of other
 public exponents

A pool of size 1 wrote out of its (empty) key array, evaluating order 0
read before the key array, and the pool multiplied the exponents by 65537
even for an imported key with another public exponent, so that its results
differed from iterated evaluations. Also release the keys and report the error when
a key of the pool cannot be set up.
---
 src/tdp_impl/tdp_impl_mbedtls.cpp | 43 +++++++++++++++++--------------
 src/tdp_impl/tdp_impl_mbedtls.hpp |  2 ++
 2 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/tdp_impl/tdp_impl_mbedtls.cpp b/src/tdp_impl/tdp_impl_mbedtls.cpp
index cca33db..fc25b95 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.cpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.cpp
@@ -731,23 +731,20 @@ TdpMultPoolImpl_mbedTLS::TdpMultPoolImpl_mbedTLS(const std::string& sk,
 
     keys_ = new mbedtls_rsa_context[keys_count_];
 
-    mbedtls_rsa_init(keys_, 0, 0);
-    mbedtls_rsa_copy(keys_, &rsa_key_);
-
-    mbedtls_mpi_mul_int(&keys_[0].E, &keys_[0].E, RSA_PK);
-
-    if (mbedtls_rsa_check_pubkey(&keys_[0]) != 0) {
-        throw std::runtime_error("Invalid public key generated during the TDP "
-                                 "pool initialization"); /* LCOV_EXCL_LINE */
-    }
-
-    for (uint8_t i = 1; i < keys_count_; i++) {
+    for (uint8_t i = 0; i < keys_count_; i++) {
         mbedtls_rsa_init(&keys_[i], 0, 0);
-        mbedtls_rsa_copy(&keys_[i], &keys_[i - 1]);
+    }
 
-        mbedtls_mpi_mul_int(&keys_[i].E, &keys_[i - 1].E, RSA_PK);
+    // the key of order i+2 is the one of order i+1 with its exponent
+    // multiplied by the public exponent
+    for (uint8_t i = 0; i < keys_count_; i++) {
+        const mbedtls_rsa_context* previous
+            = (i == 0) ? &rsa_key_ : &keys_[i - 1];
 
-        if (mbedtls_rsa_check_pubkey(&keys_[i]) != 0) {
+        if (mbedtls_rsa_copy(&keys_[i], previous) != 0
+            || mbedtls_mpi_mul_mpi(&keys_[i].E, &previous->E, &rsa_key_.E) != 0
+            || mbedtls_rsa_check_pubkey(&keys_[i]) != 0) {
+            free_keys();
             throw std::runtime_error(
                 "Invalid public key generated during the TDP pool "
                 "initialization"); /* LCOV_EXCL_LINE */
@@ -763,11 +760,12 @@ TdpMultPoolImpl_mbedTLS::TdpMultPoolImpl_mbedTLS(
 
     for (uint8_t i = 0; i < keys_count_; i++) {
         mbedtls_rsa_init(&keys_[i], 0, 0);
+    }
 
-        mbedtls_rsa_copy(&keys_[i], &pool_impl.keys_[i]);
-
-
-        if (mbedtls_rsa_check_pubkey(&keys_[i]) != 0) {
+    for (uint8_t i = 0; i < keys_count_; i++) {
+        if (mbedtls_rsa_copy(&keys_[i], &pool_impl.keys_[i]) != 0
+            || mbedtls_rsa_check_pubkey(&keys_[i]) != 0) {
+            free_keys();
             throw std::runtime_error(
                 "Invalid public key generated by the TDP pool copy "
                 "constructor"); /* LCOV_EXCL_LINE */
@@ -806,7 +804,7 @@ TdpMultPoolImpl_mbedTLS& TdpMultPoolImpl_mbedTLS::operator=(
     return *this;
 }
 
-TdpMultPoolImpl_mbedTLS::~TdpMultPoolImpl_mbedTLS()
+void TdpMultPoolImpl_mbedTLS::free_keys()
 {
     for (uint8_t i = 0; i < keys_count_; i++) {
         zeroize_rsa(&keys_[i]);
@@ -815,6 +813,11 @@ TdpMultPoolImpl_mbedTLS::~TdpMultPoolImpl_mbedTLS()
     delete[] keys_;
 }
 
+TdpMultPoolImpl_mbedTLS::~TdpMultPoolImpl_mbedTLS()
+{
+    free_keys();
+}
+
 std::array<uint8_t, TdpImpl_mbedTLS::kMessageSpaceSize>
 TdpMultPoolImpl_mbedTLS::eval_pool(
     const std::array<uint8_t, kMessageSpaceSize>& in,
@@ -826,7 +829,7 @@ TdpMultPoolImpl_mbedTLS::eval_pool(
         // regular eval
         key = &rsa_key_;
 
-    } else if (order <= maximum_order()) {
+    } else if (order > 1 && order <= maximum_order()) {
         // get the right RSA context, i.e. the one in keys_[order-1]
         key = &keys_[order - 2];
     } else {
diff --git a/src/tdp_impl/tdp_impl_mbedtls.hpp b/src/tdp_impl/tdp_impl_mbedtls.hpp
index fb00270..4a351db 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.hpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.hpp
@@ -132,6 +132,8 @@ public:
     std::unique_ptr<TdpMultPoolImpl> duplicate_pool() const override;
 
 private:
+    void free_keys();
+
     mbedtls_rsa_context* keys_;
 
     uint8_t keys_count_;
-- 
2.43.0


From 76ea6167b2cb42db8b4afd6a8dd4c554a39e173b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:31 +0000
Subject: [PATCH 11/39] fix: check the input size of TdpInverse::invert_mult on
 strings

A short string was read past its end, and a long one silently truncated.
---
 src/tdp_impl/tdp_impl_mbedtls.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tdp_impl/tdp_impl_mbedtls.cpp b/src/tdp_impl/tdp_impl_mbedtls.cpp
index fc25b95..e2836ae 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.cpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.cpp
@@ -708,6 +708,11 @@ void TdpInverseImpl_mbedTLS::invert_mult(const std::string& in,
                                          std::string&       out,
                                          uint32_t           order) const
 {
+    if (in.size() != kMessageSpaceSize) {
+        throw std::invalid_argument("Invalid TDP input size. Input size should "
+                                    "be kMessageSpaceSize bytes long.");
+    }
+
     std::array<uint8_t, kMessageSpaceSize> in_array;
 
     memcpy(in_array.data(), in.data(), kMessageSpaceSize);
-- 
2.43.0


From 8839d70139e45cb847e00a5d76d3ea74005dc1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:29 +0000
Subject: [PATCH 12/39] fix: free the memory of keys whose construction fails

---
 src/include/sse/crypto/key.hpp | 46 ++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/include/sse/crypto/key.hpp b/src/include/sse/crypto/key.hpp
index 689b103..e4095bf 100644
--- a/src/include/sse/crypto/key.hpp
+++ b/src/include/sse/crypto/key.hpp
@@ -114,16 +114,7 @@ public:
 
         random_bytes(N, content_);
 
-#ifdef ENABLE_MEMORY_LOCK
-        int err = sodium_mprotect_noaccess(content_);
-        if (err == -1 && errno != ENOSYS) {
-            /* LCOV_EXCL_START */
-            throw std::runtime_error("Error when locking memory: "
-                                     + std::string(strerror(errno)));
-            /* LCOV_EXCL_STOP */
-        }
-        is_locked_ = true;
-#endif
+        lock_initialized();
     }
 
     ///
@@ -153,16 +144,7 @@ public:
         memcpy(content_, key, N); // copy the content of the input key
         sodium_memzero(key, N);   // erase the content of the input key
 
-#ifdef ENABLE_MEMORY_LOCK
-        int err = sodium_mprotect_noaccess(content_);
-        if (err == -1 && errno != ENOSYS) {
-            /* LCOV_EXCL_START */
-            throw std::runtime_error("Error when locking memory: "
-                                     + std::string(strerror(errno)));
-            /* LCOV_EXCL_STOP */
-        }
-        is_locked_ = true;
-#endif
+        lock_initialized();
     }
 
 
@@ -261,14 +243,34 @@ private:
             throw std::bad_alloc(); /* LCOV_EXCL_LINE */
         }
 
-        init_callback(content_); // use the callback to fill the key
+        try {
+            init_callback(content_); // use the callback to fill the key
+        } catch (...) {
+            erase(); // do not leak the (partially filled) key
+            throw;
+        }
+
+        lock_initialized();
+    }
 
+    ///
+    /// @brief Locks a key under construction
+    ///
+    /// Makes the key content neither readable or writable. When this fails, the
+    /// key memory is erased and freed: the destructor will not be called.
+    ///
+    /// @exception std::runtime_error Memory cannot be locked.
+    ///
+    void lock_initialized()
+    {
 #ifdef ENABLE_MEMORY_LOCK
         int err = sodium_mprotect_noaccess(content_);
         if (err == -1 && errno != ENOSYS) {
             /* LCOV_EXCL_START */
+            const int lock_errno = errno;
+            erase();
             throw std::runtime_error("Error when locking memory: "
-                                     + std::string(strerror(errno)));
+                                     + std::string(strerror(lock_errno)));
             /* LCOV_EXCL_STOP */
         }
         is_locked_ = true;
-- 
2.43.0


From 47e707c0095e2975f13e92c24a6807175d022cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:29 +0000
Subject: [PATCH 13/39] fix: lock the PRP key again after encrypting a buffer

---
 src/prp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/prp.cpp b/src/prp.cpp
index 4bd0fb2..b1ce4ae 100644
--- a/src/prp.cpp
+++ b/src/prp.cpp
@@ -196,6 +196,8 @@ void Prp::encrypt(const uint8_t* in, const unsigned int len, uint8_t* out)
                 reinterpret_cast<const char*>(in),
                 len,
                 reinterpret_cast<char*>(out));
+
+    aez_ctx_.lock();
 }
 
 void Prp::encrypt(const std::string& in, std::string& out)
-- 
2.43.0


From 993df17cdb63f45bbcd9dde2e3bf893ede103e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:29 +0000
Subject: [PATCH 14/39] fix: do not leave the PRG key unlocked when given a
 null buffer

---
 src/prg.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/prg.cpp b/src/prg.cpp
index b1ff2b4..cfd126b 100644
--- a/src/prg.cpp
+++ b/src/prg.cpp
@@ -134,6 +134,11 @@ void Prg::derive(const size_t   offset,
         return;
     }
 
+    if (out == nullptr) {
+        // reject the call before unlocking the key
+        throw std::invalid_argument("out is NULL");
+    }
+
     prg_derivation(key_.unlock_get(), offset, len, out);
     key_.lock();
 }
-- 
2.43.0


From dcb47e3cfa2ac6f5cf565fde48eb88a9b1ddd7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:29 +0000
Subject: [PATCH 15/39] fix: refuse to access the data of empty keys

---
 src/include/sse/crypto/key.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/include/sse/crypto/key.hpp b/src/include/sse/crypto/key.hpp
index e4095bf..e587176 100644
--- a/src/include/sse/crypto/key.hpp
+++ b/src/include/sse/crypto/key.hpp
@@ -359,6 +359,9 @@ private:
     ///
     const uint8_t* data() const
     {
+        if (content_ == nullptr) {
+            throw std::runtime_error("Memory is absent");
+        }
         if (is_locked()) {
             throw std::runtime_error("Memory is locked");
         }
-- 
2.43.0


From c3a83c5b4ccf22cb81da19e8b36dc5f30f08555b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:25 +0000
Subject: [PATCH 16/39] fix: free the PRG's buffers when a call throws, accept
 empty one-shot derivations

---
 src/prg.cpp | 39 +++++++++++++--------------------------
 1 file changed, 13 insertions(+), 26 deletions(-)

diff --git a/src/prg.cpp b/src/prg.cpp
index cfd126b..4ad4d4d 100644
--- a/src/prg.cpp
+++ b/src/prg.cpp
@@ -24,6 +24,8 @@
 #include <cassert>
 #include <cstring>
 
+#include <memory>
+
 #include <sodium/crypto_stream_chacha20.h>
 
 
@@ -106,15 +108,13 @@ static void prg_derivation(const unsigned char* key,
 
 void Prg::derive(const size_t offset, const size_t len, std::string& out) const
 {
-    unsigned char* data = new unsigned char[len];
+    const std::unique_ptr<uint8_t[]> data(new uint8_t[len]);
 
-    derive(offset, len, data);
-    out = std::string(reinterpret_cast<char*>(data), len);
+    derive(offset, len, data.get());
+    out = std::string(reinterpret_cast<const char*>(data.get()), len);
 
     // erase the buffer
-    sodium_memzero(data, len);
-
-    delete[] data;
+    sodium_memzero(data.get(), len);
 }
 
 std::string Prg::derive(const size_t offset, const size_t len) const
@@ -145,13 +145,7 @@ void Prg::derive(const size_t   offset,
 
 void Prg::derive(Key<kKeySize>&& k, const size_t len, std::string& out)
 {
-    std::vector<uint8_t> data(len);
-
-    derive(std::move(k), 0, len, data.data());
-    out = std::string(reinterpret_cast<const char*>(data.data()), len);
-
-    // erase the buffer
-    sodium_memzero(data.data(), len);
+    derive(std::move(k), 0, len, out);
 }
 
 void Prg::derive(Key<kKeySize>&& k,
@@ -176,30 +170,23 @@ void Prg::derive(Key<kKeySize>&& k,
                  const size_t    len,
                  std::string&    out)
 {
-    unsigned char* data = new unsigned char[len];
+    const std::unique_ptr<uint8_t[]> data(new uint8_t[len]);
 
-    derive(std::move(k), offset, len, data);
-    out = std::string(reinterpret_cast<char*>(data), len);
+    derive(std::move(k), offset, len, data.get());
+    out = std::string(reinterpret_cast<const char*>(data.get()), len);
 
     // erase the buffer
-    sodium_memzero(data, len);
-
-    delete[] data;
+    sodium_memzero(data.get(), len);
 }
 
 std::string Prg::derive(Key<kKeySize>&& k,
                         const size_t    offset,
                         const size_t    len)
 {
-    unsigned char* data = new unsigned char[len];
-
-    derive(std::move(k), offset, len, data);
-    std::string out = std::string(reinterpret_cast<char*>(data), len);
+    std::string out;
 
-    // erase the buffer
-    sodium_memzero(data, len);
+    derive(std::move(k), offset, len, out);
 
-    delete[] data;
     return out;
 }
 
-- 
2.43.0


From 064e59b9c6e314893f044b437d8f969fe64b2c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:25 +0000
Subject: [PATCH 17/39] fix: free the temporary buffers of Cipher and Prp when
 a call throws

---
 src/cipher.cpp | 16 ++++++++--------
 src/prp.cpp    | 15 +++++++--------
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/cipher.cpp b/src/cipher.cpp
index 828e797..87f5bfa 100644
--- a/src/cipher.cpp
+++ b/src/cipher.cpp
@@ -106,17 +106,17 @@ void Cipher::encrypt(const std::string& in, std::string& out)
             "The minimum number of bytes to encrypt is 1.");
     }
 
-    size_t         len   = in.size();
-    size_t         c_len = ciphertext_length(len);
-    unsigned char* data  = new unsigned char[c_len];
+    size_t len   = in.size();
+    size_t c_len = ciphertext_length(len);
 
-    encrypt(reinterpret_cast<const unsigned char*>(in.data()), len, data);
-    out = std::string(reinterpret_cast<char*>(data), c_len);
+    std::vector<uint8_t> data(c_len);
 
-    // erase the buffer
-    sodium_memzero(data, c_len);
+    encrypt(
+        reinterpret_cast<const unsigned char*>(in.data()), len, data.data());
+    out = std::string(reinterpret_cast<const char*>(data.data()), c_len);
 
-    delete[] data;
+    // erase the buffer
+    sodium_memzero(data.data(), c_len);
 }
 
 void Cipher::decrypt(const unsigned char* in,
diff --git a/src/prp.cpp b/src/prp.cpp
index b1ce4ae..92591b3 100644
--- a/src/prp.cpp
+++ b/src/prp.cpp
@@ -32,6 +32,7 @@
 #include <array>
 #include <exception>
 #include <iomanip>
+#include <memory>
 
 #include <sodium/runtime.h>
 
@@ -219,13 +220,12 @@ void Prp::encrypt(const std::string& in, std::string& out)
         /* LCOV_EXCL_STOP */
     }
 
-    unsigned char* data = new unsigned char[len];
+    const std::unique_ptr<uint8_t[]> data(new uint8_t[len]);
 
     encrypt(reinterpret_cast<const unsigned char*>(in.data()),
             static_cast<unsigned int>(len),
-            data);
-    out = std::string(reinterpret_cast<char*>(data), len);
-    delete[] data;
+            data.get());
+    out = std::string(reinterpret_cast<const char*>(data.get()), len);
 }
 
 void Prp::decrypt(const uint8_t* in, const unsigned int len, uint8_t* out)
@@ -283,14 +283,13 @@ void Prp::decrypt(const std::string& in, std::string& out)
         /* LCOV_EXCL_STOP */
     }
 
-    unsigned char* data = new unsigned char[len];
+    const std::unique_ptr<uint8_t[]> data(new uint8_t[len]);
 
     decrypt(reinterpret_cast<const unsigned char*>(in.data()),
             static_cast<unsigned int>(len),
-            data);
+            data.get());
 
-    out = std::string(reinterpret_cast<const char*>(data), len);
-    delete[] data;
+    out = std::string(reinterpret_cast<const char*>(data.get()), len);
 }
 
 void Prp::serialize(uint8_t* out) const
-- 
2.43.0


From 60eecdf6a36a5311dc855caad4d1993df344c8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:43 +0000
Subject: [PATCH 18/39] fix: free the buffers of HMac and Prf when a call
 throws

---
 src/include/sse/crypto/hmac.hpp | 8 ++++----
 src/include/sse/crypto/prf.hpp  | 6 ++++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/include/sse/crypto/hmac.hpp b/src/include/sse/crypto/hmac.hpp
index 4a4200f..7fe0862 100644
--- a/src/include/sse/crypto/hmac.hpp
+++ b/src/include/sse/crypto/hmac.hpp
@@ -30,6 +30,7 @@
 #include <array>
 #include <iomanip>
 #include <iostream>
+#include <memory>
 #include <string>
 
 #include <sodium/utils.h>
@@ -194,13 +195,13 @@ void HMac<H, N>::hmac(const unsigned char* in,
         throw std::invalid_argument("out is NULL");
     }
 
-    uint8_t*         buffer;
     size_t           i_len      = kHMACKeySize + length;
     constexpr size_t tmp_len    = kHMACKeySize + kDigestSize;
     size_t           buffer_len = (i_len > kDigestSize) ? i_len : (kDigestSize);
 
-    buffer = new uint8_t[buffer_len];
-    uint8_t tmp[tmp_len];
+    const std::unique_ptr<uint8_t[]> buffer_owner(new uint8_t[buffer_len]);
+    uint8_t*                         buffer = buffer_owner.get();
+    uint8_t                          tmp[tmp_len];
 
     key_.unlock();
 
@@ -241,7 +242,6 @@ void HMac<H, N>::hmac(const unsigned char* in,
     memcpy(out, buffer, out_len);
 
     sodium_memzero(buffer, buffer_len);
-    delete[] buffer;
 
     sodium_memzero(tmp, tmp_len);
 
diff --git a/src/include/sse/crypto/prf.hpp b/src/include/sse/crypto/prf.hpp
index 4250956..f7f49ee 100644
--- a/src/include/sse/crypto/prf.hpp
+++ b/src/include/sse/crypto/prf.hpp
@@ -30,6 +30,7 @@
 
 #include <algorithm>
 #include <array>
+#include <memory>
 #include <string>
 
 namespace sse {
@@ -279,7 +280,9 @@ std::array<uint8_t, NBYTES> Prf<NBYTES>::prf(const unsigned char* in,
                                                                          : 1;
         const size_t tmp_len = length + kCounterSize;
 
-        unsigned char* tmp = new unsigned char[tmp_len];
+        const std::unique_ptr<unsigned char[]> tmp_owner(
+            new unsigned char[tmp_len]);
+        unsigned char* tmp = tmp_owner.get();
         memcpy(tmp, in, length);
 
         size_t   pos = 0;
@@ -304,7 +307,6 @@ std::array<uint8_t, NBYTES> Prf<NBYTES>::prf(const unsigned char* in,
         }
 
         sodium_memzero(tmp, tmp_len);
-        delete[] tmp;
     } else if (NBYTES <= Hash::kDigestSize) {
         // only need one output bloc of PrfBase.
         base_.hmac(in, length, result.data(), result.size());
-- 
2.43.0


From fcaf8e7fa7908ee71d7a8fb3a3e072f5750721c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:43 +0000
Subject: [PATCH 19/39] fix: check and always free the buffer of
 Prg::derive_keys

---
 src/include/sse/crypto/prg.hpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/include/sse/crypto/prg.hpp b/src/include/sse/crypto/prg.hpp
index 2afa5ca..ed08b3f 100644
--- a/src/include/sse/crypto/prg.hpp
+++ b/src/include/sse/crypto/prg.hpp
@@ -27,6 +27,8 @@
 
 #include <array>
 #include <memory>
+#include <memory>
+#include <new>
 #include <string>
 #include <vector>
 
@@ -460,8 +462,15 @@ std::vector<Key<K>> Prg::derive_keys(const uint16_t n_keys,
         return std::vector<Key<K>>(); // return empty vector
     }
 
-    uint8_t* key_buffer
-        = reinterpret_cast<uint8_t*>(sodium_allocarray(n_keys, K));
+    // the buffer is erased and freed when leaving the function, whatever the
+    // reason
+    const std::unique_ptr<uint8_t, void (*)(void*)> key_buffer_owner(
+        static_cast<uint8_t*>(sodium_allocarray(n_keys, K)), &sodium_free);
+    uint8_t* key_buffer = key_buffer_owner.get();
+
+    if (key_buffer == nullptr) {
+        throw std::bad_alloc(); /* LCOV_EXCL_LINE */
+    }
 
     this->derive(key_offset * K, n_keys * K, key_buffer);
 
@@ -471,8 +480,6 @@ std::vector<Key<K>> Prg::derive_keys(const uint16_t n_keys,
         derived_keys.push_back(Key<K>(key_buffer + i * K));
     }
 
-    sodium_free(key_buffer);
-
     return derived_keys;
 }
 
@@ -504,8 +511,15 @@ std::vector<Key<K>> Prg::derive_keys(Key<kKeySize>&& k,
     }
 
 
-    uint8_t* key_buffer
-        = reinterpret_cast<uint8_t*>(sodium_allocarray(n_keys, K));
+    // the buffer is erased and freed when leaving the function, whatever the
+    // reason
+    const std::unique_ptr<uint8_t, void (*)(void*)> key_buffer_owner(
+        static_cast<uint8_t*>(sodium_allocarray(n_keys, K)), &sodium_free);
+    uint8_t* key_buffer = key_buffer_owner.get();
+
+    if (key_buffer == nullptr) {
+        throw std::bad_alloc(); /* LCOV_EXCL_LINE */
+    }
 
     derive(std::move(k), key_offset * K, n_keys * K, key_buffer);
 
@@ -515,8 +529,6 @@ std::vector<Key<K>> Prg::derive_keys(Key<kKeySize>&& k,
         derived_keys.push_back(Key<K>(key_buffer + i * K));
     }
 
-    sodium_free(key_buffer);
-
     return derived_keys;
 }
 
-- 
2.43.0


From c4e26502c54ac62f35ea39d095feb39daaaeb38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:42 +0000
Subject: [PATCH 20/39] fix: report allocation failures while importing RSA
 keys

mbedtls_rsa_parse_key and mbedtls_rsa_parse_public_key ignored the result of
the copy of the parsed key, and mbedtls_pk_parse_key returned success when its
context could not be allocated, after which the caller dereferenced NULL.
---
 src/mbedtls/pkparse.c | 6 ++++--
 src/mbedtls/rsa_io.c  | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mbedtls/pkparse.c b/src/mbedtls/pkparse.c
index 828f64c..c9b952f 100644
--- a/src/mbedtls/pkparse.c
+++ b/src/mbedtls/pkparse.c
@@ -445,8 +445,10 @@ int mbedtls_pk_parse_key( mbedtls_pk_context *pk,
     if( ( pk_info = mbedtls_pk_info_from_type( MBEDTLS_PK_RSA ) ) == NULL )
         return( MBEDTLS_ERR_PK_UNKNOWN_PK_ALG );
 
-    if( ( ret = mbedtls_pk_setup( pk, pk_info                           ) ) != 0 ||
-        ( ret = pk_parse_key_pkcs1_der( mbedtls_pk_rsa( *pk ), key, keylen ) ) == 0 )
+    if( ( ret = mbedtls_pk_setup( pk, pk_info                           ) ) != 0 )
+        return( ret );
+
+    if( ( ret = pk_parse_key_pkcs1_der( mbedtls_pk_rsa( *pk ), key, keylen ) ) == 0 )
     {
         return( 0 );
     }
diff --git a/src/mbedtls/rsa_io.c b/src/mbedtls/rsa_io.c
index 43549db..7eba18a 100644
--- a/src/mbedtls/rsa_io.c
+++ b/src/mbedtls/rsa_io.c
@@ -51,7 +51,7 @@ int mbedtls_rsa_parse_public_key( mbedtls_rsa_context *rsa_ctx,
     if( mbedtls_pk_get_type( &pk_ctx ) == MBEDTLS_PK_RSA )
     {
         // copy the key context to rsa_ctx
-        mbedtls_rsa_copy(rsa_ctx, mbedtls_pk_rsa(pk_ctx));
+        ret = mbedtls_rsa_copy(rsa_ctx, mbedtls_pk_rsa(pk_ctx));
     }else{
         ret = MBEDTLS_ERR_PK_UNKNOWN_PK_ALG;
     }
@@ -81,7 +81,7 @@ int mbedtls_rsa_parse_key( mbedtls_rsa_context *rsa_ctx,
     if( mbedtls_pk_get_type( &pk_ctx ) == MBEDTLS_PK_RSA )
     {
         // copy the key context to rsa_ctx
-        mbedtls_rsa_copy(rsa_ctx, mbedtls_pk_rsa(pk_ctx));
+        ret = mbedtls_rsa_copy(rsa_ctx, mbedtls_pk_rsa(pk_ctx));
     }else{
         ret = MBEDTLS_ERR_PK_UNKNOWN_PK_ALG;
     }
-- 
2.43.0


From 42956cb5aac6b2f6c8ad358dacf574044e1a914a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:53 +0000
Subject: [PATCH 21/39] fix: do not leak the buffer of random_string when out
 of memory

---
 src/include/sse/crypto/random.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/include/sse/crypto/random.hpp b/src/include/sse/crypto/random.hpp
index e53aa88..902f303 100644
--- a/src/include/sse/crypto/random.hpp
+++ b/src/include/sse/crypto/random.hpp
@@ -82,11 +82,8 @@ inline std::array<T, N> random_bytes() noexcept
 ///
 inline std::string random_string(const size_t length)
 {
-    uint8_t* tmp = new uint8_t[length];
-    random_bytes(length, tmp);
-
-    std::string out(reinterpret_cast<char*>(tmp), length);
-    delete[] tmp;
+    std::string out(length, '\0');
+    random_bytes(length, reinterpret_cast<unsigned char*>(&out[0]));
 
     return out;
 }
-- 
2.43.0


From baad17275d9678ea3bb8f2ca82f04520b195bd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:53 +0000
Subject: [PATCH 22/39] fix: TdpInverse::serialized_size can throw

It serializes the private key, which throws when memory is exhausted: being
noexcept, it terminated the program.
---
 src/include/sse/crypto/tdp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/sse/crypto/tdp.hpp b/src/include/sse/crypto/tdp.hpp
index a98b58f..fdb2f6b 100644
--- a/src/include/sse/crypto/tdp.hpp
+++ b/src/include/sse/crypto/tdp.hpp
@@ -584,7 +584,7 @@ private:
     ///
     /// @return The size in bytes of the buffer needed to serialize the object.
     ///
-    size_t serialized_size() const noexcept
+    size_t serialized_size() const
     {
         return private_key().size();
     }
-- 
2.43.0


From 921130bc7c74ccd3c3a8a92f4c283c3c486c02d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:53 +0000
Subject: [PATCH 23/39] fix: free the RSA key and the temporaries of trapdoor
 permutations on errors

A constructor which refused a key, or a call which failed, leaked the RSA key
and the integers it had allocated.
---
 src/tdp_impl/tdp_impl_mbedtls.cpp | 134 +++++++++++++-----------------
 1 file changed, 60 insertions(+), 74 deletions(-)

diff --git a/src/tdp_impl/tdp_impl_mbedtls.cpp b/src/tdp_impl/tdp_impl_mbedtls.cpp
index e2836ae..2785eaf 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.cpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.cpp
@@ -62,16 +62,32 @@ static void zeroize_rsa(mbedtls_rsa_context* rsa)
     mbedtls_mpi_lset(&rsa->Vf, 0);
 }
 
+// A temporary integer, erased and freed on every exit path, including when an
+// exception is thrown
+struct ScopedMpi
+{
+    ScopedMpi()
+    {
+        mbedtls_mpi_init(&value);
+    }
+    ScopedMpi(const ScopedMpi&) = delete;
+    ScopedMpi& operator=(const ScopedMpi&) = delete;
+    ~ScopedMpi()
+    {
+        mbedtls_mpi_free(&value);
+    }
+
+    mbedtls_mpi value;
+};
+
 // mbedTLS implementation of the trapdoor permutation
 
 TdpImpl_mbedTLS::TdpImpl_mbedTLS()
 {
     mbedtls_rsa_init(&rsa_key_, 0, 0);
 }
-TdpImpl_mbedTLS::TdpImpl_mbedTLS(const std::string& pk)
+TdpImpl_mbedTLS::TdpImpl_mbedTLS(const std::string& pk) : TdpImpl_mbedTLS()
 {
-    mbedtls_rsa_init(&rsa_key_, 0, 0);
-
     // parse the public key
     if (mbedtls_rsa_parse_public_key(
             &rsa_key_,
@@ -93,9 +109,8 @@ TdpImpl_mbedTLS::TdpImpl_mbedTLS(const std::string& pk)
     }
 }
 
-TdpImpl_mbedTLS::TdpImpl_mbedTLS(const TdpImpl_mbedTLS& tdp)
+TdpImpl_mbedTLS::TdpImpl_mbedTLS(const TdpImpl_mbedTLS& tdp) : TdpImpl_mbedTLS()
 {
-    mbedtls_rsa_init(&rsa_key_, 0, 0); /* LCOV_EXCL_LINE */
     if (mbedtls_rsa_copy(&rsa_key_, &tdp.rsa_key_) != 0) {
         throw std::runtime_error(
             "Error when copying an RSA private key"); /* LCOV_EXCL_LINE */
@@ -123,7 +138,10 @@ TdpImpl_mbedTLS::~TdpImpl_mbedTLS()
 TdpImpl_mbedTLS& TdpImpl_mbedTLS::operator=(const TdpImpl_mbedTLS& t)
 {
     if (this != &t) {
-        mbedtls_rsa_copy(&rsa_key_, &(t.rsa_key_));
+        if (mbedtls_rsa_copy(&rsa_key_, &(t.rsa_key_)) != 0) {
+            throw std::runtime_error(
+                "Error when copying an RSA key"); /* LCOV_EXCL_LINE */
+        }
     }
 
     return *this;
@@ -183,9 +201,9 @@ std::array<uint8_t, TdpImpl_mbedTLS::kMessageSpaceSize> TdpImpl_mbedTLS::eval(
             "bytes long."); /* LCOV_EXCL_LINE */
     }
 
-    int         ret;
-    mbedtls_mpi x;
-    mbedtls_mpi_init(&x);
+    int          ret;
+    ScopedMpi    scoped_x;
+    mbedtls_mpi& x = scoped_x.value;
 
     // deserialize the integer
     ret = mbedtls_mpi_read_binary(&x, in.data(), in.size());
@@ -226,8 +244,6 @@ std::array<uint8_t, TdpImpl_mbedTLS::kMessageSpaceSize> TdpImpl_mbedTLS::eval(
     }
 
     mbedtls_mpi_write_binary(&x, out.data(), out.size());
-    mbedtls_mpi_lset(&x, 0); // erase the temporary variable
-    mbedtls_mpi_free(&x);
 
     return out;
 }
@@ -248,8 +264,8 @@ std::string TdpImpl_mbedTLS::sample() const
 std::array<uint8_t, TdpImpl_mbedTLS::kMessageSpaceSize> TdpImpl_mbedTLS::
     sample_array() const
 {
-    mbedtls_mpi x;
-    mbedtls_mpi_init(&x);
+    ScopedMpi    scoped_x;
+    mbedtls_mpi& x = scoped_x.value;
     std::array<uint8_t, kMessageSpaceSize> out;
     std::fill(out.begin(), out.end(), 0);
 
@@ -271,8 +287,6 @@ std::array<uint8_t, TdpImpl_mbedTLS::kMessageSpaceSize> TdpImpl_mbedTLS::
     }
 
     mbedtls_mpi_write_binary(&x, out.data(), out.size());
-    mbedtls_mpi_lset(&x, 0);
-    mbedtls_mpi_free(&x);
 
     return out;
 }
@@ -296,8 +310,8 @@ std::array<uint8_t, TdpImpl_mbedTLS::kMessageSpaceSize> TdpImpl_mbedTLS::
 {
     std::array<uint8_t, Tdp::kRSAPrfSize> rnd = prg.prf(seed);
 
-    mbedtls_mpi x;
-    mbedtls_mpi_init(&x);
+    ScopedMpi    scoped_x;
+    mbedtls_mpi& x = scoped_x.value;
     std::array<uint8_t, kMessageSpaceSize> out;
     std::fill(out.begin(), out.end(), 0);
 
@@ -320,8 +334,6 @@ std::array<uint8_t, TdpImpl_mbedTLS::kMessageSpaceSize> TdpImpl_mbedTLS::
     }
 
     mbedtls_mpi_write_binary(&x, out.data(), out.size());
-    mbedtls_mpi_lset(&x, 0);
-    mbedtls_mpi_free(&x);
 
     return out;
 }
@@ -382,17 +394,15 @@ TdpInverseImpl_mbedTLS::TdpInverseImpl_mbedTLS()
             "initialization"); /* LCOV_EXCL_LINE */
     }
 
-    if (mbedtls_mpi_sub_int(&p_1_, &rsa_key_.P, 1) != 0) {
-        throw std::runtime_error(
-            "Failed MPI substraction"); /* LCOV_EXCL_LINE */
-    }
-    if (mbedtls_mpi_sub_int(&q_1_, &rsa_key_.Q, 1) != 0) {
-        throw std::runtime_error(
-            "Failed MPI substraction"); /* LCOV_EXCL_LINE */
-    }
-    if (mbedtls_mpi_mul_mpi(&phi_, &p_1_, &q_1_) != 0) {
+    if (mbedtls_mpi_sub_int(&p_1_, &rsa_key_.P, 1) != 0
+        || mbedtls_mpi_sub_int(&q_1_, &rsa_key_.Q, 1) != 0
+        || mbedtls_mpi_mul_mpi(&phi_, &p_1_, &q_1_) != 0) {
+        // the destructor is not called when the constructor throws
+        mbedtls_mpi_free(&p_1_);
+        mbedtls_mpi_free(&q_1_);
+        mbedtls_mpi_free(&phi_);
         throw std::runtime_error(
-            "Failed MPI multiplication"); /* LCOV_EXCL_LINE */
+            "Failed MPI computation"); /* LCOV_EXCL_LINE */
     }
 }
 
@@ -430,17 +440,15 @@ TdpInverseImpl_mbedTLS::TdpInverseImpl_mbedTLS(const std::string& sk)
         throw std::runtime_error("Invalid RSA private key size");
     }
 
-    if (mbedtls_mpi_sub_int(&p_1_, &rsa_key_.P, 1) != 0) {
-        throw std::runtime_error(
-            "Failed MPI substraction"); /* LCOV_EXCL_LINE */
-    }
-    if (mbedtls_mpi_sub_int(&q_1_, &rsa_key_.Q, 1) != 0) {
+    if (mbedtls_mpi_sub_int(&p_1_, &rsa_key_.P, 1) != 0
+        || mbedtls_mpi_sub_int(&q_1_, &rsa_key_.Q, 1) != 0
+        || mbedtls_mpi_mul_mpi(&phi_, &p_1_, &q_1_) != 0) {
+        // the destructor is not called when the constructor throws
+        mbedtls_mpi_free(&p_1_);
+        mbedtls_mpi_free(&q_1_);
+        mbedtls_mpi_free(&phi_);
         throw std::runtime_error(
-            "Failed MPI substraction"); /* LCOV_EXCL_LINE */
-    }
-    if (mbedtls_mpi_mul_mpi(&phi_, &p_1_, &q_1_) != 0) {
-        throw std::runtime_error(
-            "Failed MPI multiplication"); /* LCOV_EXCL_LINE */
+            "Failed MPI computation"); /* LCOV_EXCL_LINE */
     }
 }
 
@@ -578,17 +586,16 @@ TdpInverseImpl_mbedTLS::invert_mult(
             "bytes long."); /* LCOV_EXCL_LINE */
     }
 
-    int         ret;
-    mbedtls_mpi x, mpi_order, d_p, d_q;
-    mbedtls_mpi y_p, y_q;
-    mbedtls_mpi y;
-    mbedtls_mpi_init(&x);
-    mbedtls_mpi_init(&mpi_order);
-    mbedtls_mpi_init(&d_p);
-    mbedtls_mpi_init(&d_q);
-    mbedtls_mpi_init(&y_p);
-    mbedtls_mpi_init(&y_q);
-    mbedtls_mpi_init(&y);
+    int          ret;
+    ScopedMpi    scoped_x, scoped_order, scoped_d_p, scoped_d_q;
+    ScopedMpi    scoped_y_p, scoped_y_q, scoped_y;
+    mbedtls_mpi& x         = scoped_x.value;
+    mbedtls_mpi& mpi_order = scoped_order.value;
+    mbedtls_mpi& d_p       = scoped_d_p.value;
+    mbedtls_mpi& d_q       = scoped_d_q.value;
+    mbedtls_mpi& y_p       = scoped_y_p.value;
+    mbedtls_mpi& y_q       = scoped_y_q.value;
+    mbedtls_mpi& y         = scoped_y.value;
 
     // deserialize the integer
     ret = mbedtls_mpi_read_binary(&x, in.data(), in.size());
@@ -678,29 +685,11 @@ TdpInverseImpl_mbedTLS::invert_mult(
     // macros
 // cppcheck-suppress unusedLabel
 cleanup:
-    // erase the temporary variables
-    mbedtls_mpi_lset(&x, 0);
-    mbedtls_mpi_lset(&d_p, 0);
-    mbedtls_mpi_lset(&d_q, 0);
-    mbedtls_mpi_lset(&y_p, 0);
-    mbedtls_mpi_lset(&y_q, 0);
-    mbedtls_mpi_lset(&mpi_order, 0);
-
-    mbedtls_mpi_free(&x);
-    mbedtls_mpi_free(&d_p);
-    mbedtls_mpi_free(&d_q);
-    mbedtls_mpi_free(&y_p);
-    mbedtls_mpi_free(&y_q);
-    mbedtls_mpi_free(&mpi_order);
-
     if (ret != 0) {
         throw std::runtime_error(
             "Error during the modular exponentiation"); /* LCOV_EXCL_LINE */
     }
 
-    mbedtls_mpi_lset(&y, 0); // erase the temporary variable
-    mbedtls_mpi_free(&y);
-
     return out;
 }
 
@@ -851,9 +840,9 @@ TdpMultPoolImpl_mbedTLS::eval_pool(
             "bytes long."); /* LCOV_EXCL_LINE */
     }
 
-    int         ret;
-    mbedtls_mpi x;
-    mbedtls_mpi_init(&x);
+    int          ret;
+    ScopedMpi    scoped_x;
+    mbedtls_mpi& x = scoped_x.value;
 
     // deserialize the integer
     ret = mbedtls_mpi_read_binary(&x, in.data(), in.size());
@@ -895,9 +884,6 @@ TdpMultPoolImpl_mbedTLS::eval_pool(
 
     mbedtls_mpi_write_binary(&x, out.data(), out.size());
 
-    mbedtls_mpi_lset(&x, 0);
-    mbedtls_mpi_free(&x);
-
     return out;
 }
 
-- 
2.43.0


From ca9ea26261c06f67633aa46a4a88ef2b4b1a2a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:00 +0000
Subject: [PATCH 24/39] fix: drop the RSA blinding values when their
 computation fails

When an allocation failed between the updates of the blinding and unblinding
values, every later private key operation with that key returned a wrong
result.
---
 src/mbedtls/rsa.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mbedtls/rsa.c b/src/mbedtls/rsa.c
index c14a661..f416c14 100644
--- a/src/mbedtls/rsa.c
+++ b/src/mbedtls/rsa.c
@@ -350,6 +350,13 @@ static int rsa_prepare_blinding( mbedtls_rsa_context *ctx,
 
 
 cleanup:
+    if( ret != 0 )
+    {
+        /* Do not keep values which do not match: start again next time */
+        mbedtls_mpi_free( &ctx->Vi );
+        mbedtls_mpi_free( &ctx->Vf );
+    }
+
     return( ret );
 }
 
-- 
2.43.0


From 99fe81f610f8993a7b7d83735addd68c37007146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:07 +0000
Subject: [PATCH 25/39] fix: primality test of numbers just above a power of
 two

The witnesses had the length of the candidate with the leading bit set, hence
were almost never smaller than candidates such as 65537, which were refused
(leaking the temporary integers).
---
 src/mbedtls/bignum.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/mbedtls/bignum.c b/src/mbedtls/bignum.c
index 0c0f549..2b338a8 100644
--- a/src/mbedtls/bignum.c
+++ b/src/mbedtls/bignum.c
@@ -2027,16 +2027,17 @@ static int mpi_miller_rabin( const mbedtls_mpi *X,
 
         count = 0;
         do {
-            MBEDTLS_MPI_CHK( mbedtls_mpi_fill_random( &A, X->n * ciL, f_rng, p_rng ) );
-
-            j = mbedtls_mpi_bitlen( &A );
+            /* A random number of as many bits as W. Do not shift the leading
+             * one away: A would never be smaller than W when W is close to a
+             * power of two. */
             k = mbedtls_mpi_bitlen( &W );
-            if (j > k) {
-                MBEDTLS_MPI_CHK( mbedtls_mpi_shift_r( &A, j - k ) );
-            }
+            j = ( k + 7 ) / 8;
+            MBEDTLS_MPI_CHK( mbedtls_mpi_fill_random( &A, j, f_rng, p_rng ) );
+            MBEDTLS_MPI_CHK( mbedtls_mpi_shift_r( &A, 8 * j - k ) );
 
             if (count++ > 30) {
-                return MBEDTLS_ERR_MPI_NOT_ACCEPTABLE;
+                ret = MBEDTLS_ERR_MPI_NOT_ACCEPTABLE;
+                goto cleanup;
             }
 
         } while ( mbedtls_mpi_cmp_mpi( &A, &W ) >= 0 ||
-- 
2.43.0


From 55f67fb1f7b897b5bd3e6c65b5d9b8bf65762fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:33 +0000
Subject: [PATCH 26/39] fix: signs and remainder of a division whose quotient
 replaces an operand

---
 src/mbedtls/bignum.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mbedtls/bignum.c b/src/mbedtls/bignum.c
index 2b338a8..991efc7 100644
--- a/src/mbedtls/bignum.c
+++ b/src/mbedtls/bignum.c
@@ -1264,17 +1264,21 @@ int mbedtls_mpi_div_mpi( mbedtls_mpi *Q, mbedtls_mpi *R, const mbedtls_mpi *A, c
     int ret;
     size_t i, n, t, k;
     mbedtls_mpi X, Y, Z, T1, T2;
+    int sa, sb; /* Q may be A or B */
 
     if( mbedtls_mpi_cmp_int( B, 0 ) == 0 )
         return( MBEDTLS_ERR_MPI_DIVISION_BY_ZERO );
 
+    sa = A->s;
+    sb = B->s;
+
     mbedtls_mpi_init( &X ); mbedtls_mpi_init( &Y ); mbedtls_mpi_init( &Z );
     mbedtls_mpi_init( &T1 ); mbedtls_mpi_init( &T2 );
 
     if( mbedtls_mpi_cmp_abs( A, B ) < 0 )
     {
-        if( Q != NULL ) MBEDTLS_MPI_CHK( mbedtls_mpi_lset( Q, 0 ) );
         if( R != NULL ) MBEDTLS_MPI_CHK( mbedtls_mpi_copy( R, A ) );
+        if( Q != NULL ) MBEDTLS_MPI_CHK( mbedtls_mpi_lset( Q, 0 ) );
         return( 0 );
     }
 
@@ -1350,13 +1354,13 @@ int mbedtls_mpi_div_mpi( mbedtls_mpi *Q, mbedtls_mpi *R, const mbedtls_mpi *A, c
     if( Q != NULL )
     {
         MBEDTLS_MPI_CHK( mbedtls_mpi_copy( Q, &Z ) );
-        Q->s = A->s * B->s;
+        Q->s = sa * sb;
     }
 
     if( R != NULL )
     {
         MBEDTLS_MPI_CHK( mbedtls_mpi_shift_r( &X, k ) );
-        X.s = A->s;
+        X.s = sa;
         MBEDTLS_MPI_CHK( mbedtls_mpi_copy( R, &X ) );
 
         if( mbedtls_mpi_cmp_int( R, 0 ) == 0 )
-- 
2.43.0


From 3519111b61a4e45a0e024fcc38740b6e471e10fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:59 +0000
Subject: [PATCH 27/39] fix: gcd(A, 0) is |A|, not 0

---
 src/mbedtls/bignum.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mbedtls/bignum.c b/src/mbedtls/bignum.c
index 991efc7..60446fe 100644
--- a/src/mbedtls/bignum.c
+++ b/src/mbedtls/bignum.c
@@ -1767,6 +1767,10 @@ int mbedtls_mpi_gcd( mbedtls_mpi *G, const mbedtls_mpi *A, const mbedtls_mpi *B
     MBEDTLS_MPI_CHK( mbedtls_mpi_copy( &TA, A ) );
     MBEDTLS_MPI_CHK( mbedtls_mpi_copy( &TB, B ) );
 
+    /* gcd( A, 0 ) = |A|; the loop below expects TB to be non-zero */
+    if( mbedtls_mpi_cmp_int( &TB, 0 ) == 0 )
+        mbedtls_mpi_swap( &TA, &TB );
+
     lz = mbedtls_mpi_lsb( &TA );
     lzt = mbedtls_mpi_lsb( &TB );
 
-- 
2.43.0


From d954ae8a6e40a1a12e14872ed832df9275151048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:59 +0000
Subject: [PATCH 28/39] fix: mbedtls_mpi_mod_int with a divisor above half a
 limb

---
 src/mbedtls/bignum.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mbedtls/bignum.c b/src/mbedtls/bignum.c
index 60446fe..2ca2f7e 100644
--- a/src/mbedtls/bignum.c
+++ b/src/mbedtls/bignum.c
@@ -1449,6 +1449,14 @@ int mbedtls_mpi_mod_int( mbedtls_mpi_uint *r, const mbedtls_mpi *A, mbedtls_mpi_
     for( i = A->n, y = 0; i > 0; i-- )
     {
         x  = A->p[i - 1];
+
+        /* y << biH does not fit when b exceeds half a limb */
+        if( (mbedtls_mpi_uint) b >> biH != 0 )
+        {
+            (void) mbedtls_int_div_int( y, x, b, &y );
+            continue;
+        }
+
         y  = ( y << biH ) | ( x >> biH );
         z  = y / b;
         y -= z * b;
-- 
2.43.0


From 9c4cc4752ec074f82f6fe888a971fec8e62dfa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:59 +0000
Subject: [PATCH 29/39] fix: odd power of a negative multiple of the modulus is
 0

---
 src/mbedtls/bignum.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mbedtls/bignum.c b/src/mbedtls/bignum.c
index 2ca2f7e..a34260b 100644
--- a/src/mbedtls/bignum.c
+++ b/src/mbedtls/bignum.c
@@ -1744,8 +1744,12 @@ int mbedtls_mpi_exp_mod( mbedtls_mpi *X, const mbedtls_mpi *A, const mbedtls_mpi
 
     if( neg && E->n != 0 && ( E->p[0] & 1 ) != 0 )
     {
-        X->s = -1;
-        MBEDTLS_MPI_CHK( mbedtls_mpi_add_mpi( X, N, X ) );
+        /* 0 is its own opposite: N - 0 would not be reduced */
+        if( mbedtls_mpi_cmp_int( X, 0 ) != 0 )
+        {
+            X->s = -1;
+            MBEDTLS_MPI_CHK( mbedtls_mpi_add_mpi( X, N, X ) );
+        }
     }
 
 cleanup:
-- 
2.43.0


From 80b3a2e089217cef5cf0d3544293e5c6d794c2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:59 +0000
Subject: [PATCH 30/39] fix: signed overflow negating the smallest
 mbedtls_mpi_sint

---
 src/mbedtls/bignum.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mbedtls/bignum.c b/src/mbedtls/bignum.c
index a34260b..6d9f126 100644
--- a/src/mbedtls/bignum.c
+++ b/src/mbedtls/bignum.c
@@ -300,7 +300,7 @@ int mbedtls_mpi_lset( mbedtls_mpi *X, mbedtls_mpi_sint z )
     MBEDTLS_MPI_CHK( mbedtls_mpi_grow( X, 1 ) );
     memset( X->p, 0, X->n * ciL );
 
-    X->p[0] = ( z < 0 ) ? -z : z;
+    X->p[0] = ( z < 0 ) ? - (mbedtls_mpi_uint) z : (mbedtls_mpi_uint) z;
     X->s    = ( z < 0 ) ? -1 : 1;
 
 cleanup:
@@ -810,7 +810,7 @@ int mbedtls_mpi_cmp_int( const mbedtls_mpi *X, mbedtls_mpi_sint z )
     mbedtls_mpi Y;
     mbedtls_mpi_uint p[1];
 
-    *p  = ( z < 0 ) ? -z : z;
+    *p  = ( z < 0 ) ? - (mbedtls_mpi_uint) z : (mbedtls_mpi_uint) z;
     Y.s = ( z < 0 ) ? -1 : 1;
     Y.n = 1;
     Y.p = p;
@@ -1008,7 +1008,7 @@ int mbedtls_mpi_add_int( mbedtls_mpi *X, const mbedtls_mpi *A, mbedtls_mpi_sint
     mbedtls_mpi _B;
     mbedtls_mpi_uint p[1];
 
-    p[0] = ( b < 0 ) ? -b : b;
+    p[0] = ( b < 0 ) ? - (mbedtls_mpi_uint) b : (mbedtls_mpi_uint) b;
     _B.s = ( b < 0 ) ? -1 : 1;
     _B.n = 1;
     _B.p = p;
@@ -1024,7 +1024,7 @@ int mbedtls_mpi_sub_int( mbedtls_mpi *X, const mbedtls_mpi *A, mbedtls_mpi_sint
     mbedtls_mpi _B;
     mbedtls_mpi_uint p[1];
 
-    p[0] = ( b < 0 ) ? -b : b;
+    p[0] = ( b < 0 ) ? - (mbedtls_mpi_uint) b : (mbedtls_mpi_uint) b;
     _B.s = ( b < 0 ) ? -1 : 1;
     _B.n = 1;
     _B.p = p;
@@ -1383,7 +1383,7 @@ int mbedtls_mpi_div_int( mbedtls_mpi *Q, mbedtls_mpi *R, const mbedtls_mpi *A, m
     mbedtls_mpi _B;
     mbedtls_mpi_uint p[1];
 
-    p[0] = ( b < 0 ) ? -b : b;
+    p[0] = ( b < 0 ) ? - (mbedtls_mpi_uint) b : (mbedtls_mpi_uint) b;
     _B.s = ( b < 0 ) ? -1 : 1;
     _B.n = 1;
     _B.p = p;
-- 
2.43.0


From 61e454ffe25e9814904941039626a8d8e515f977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:40 +0000
Subject: [PATCH 31/39] fix: multiplication assembly writes memory the compiler
 is not told about

---
 src/mbedtls/bn_mul.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mbedtls/bn_mul.h b/src/mbedtls/bn_mul.h
index cac3f14..968a0d9 100644
--- a/src/mbedtls/bn_mul.h
+++ b/src/mbedtls/bn_mul.h
@@ -179,7 +179,7 @@
 #define MULADDC_STOP                        \
         : "+c" (c), "+D" (d), "+S" (s)      \
         : "b" (b)                           \
-        : "rax", "rdx", "r8"                \
+        : "rax", "rdx", "r8", "memory"      \
     );
 
 #endif /* AMD64 */
-- 
2.43.0


From 88739c3d36314ad9093a7b20871ffafbc604aecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:19 +0000
Subject: [PATCH 32/39] fix: base64 text cut in the middle of a group was
 accepted

---
 src/mbedtls/base64.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mbedtls/base64.c b/src/mbedtls/base64.c
index f46b675..eab385d 100644
--- a/src/mbedtls/base64.c
+++ b/src/mbedtls/base64.c
@@ -195,6 +195,10 @@ int mbedtls_base64_decode( unsigned char *dst, size_t dlen, size_t *olen,
         return( 0 );
     }
 
+    /* An incomplete last group would be dropped silently */
+    if( n % 4 != 0 )
+        return( MBEDTLS_ERR_BASE64_INVALID_CHARACTER );
+
     /* The following expression is to calculate the following formula without
      * risk of integer overflow in n:
      *     n = ( ( n * 6 ) + 7 ) >> 3;
-- 
2.43.0


From 80d5e56b2d5a539ec3110938ea4c36c5d75898fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:19 +0000
Subject: [PATCH 33/39] fix: DER of the integer zero, which read beyond the
 output buffer

---
 src/mbedtls/asn1write.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mbedtls/asn1write.c b/src/mbedtls/asn1write.c
index f3f75df..3754242 100644
--- a/src/mbedtls/asn1write.c
+++ b/src/mbedtls/asn1write.c
@@ -138,6 +138,11 @@ int mbedtls_asn1_write_mpi( unsigned char **p, unsigned char *start, const mbedt
     //
     len = mbedtls_mpi_size( X );
 
+    // DER represents 0 with one byte, not as an empty integer
+    //
+    if( len == 0 )
+        len = 1;
+
     if( *p < start || (size_t)( *p - start ) < len )
         return( MBEDTLS_ERR_ASN1_BUF_TOO_SMALL );
 
-- 
2.43.0


From d936c0d1a1b286bb60a5ec2455a5cac0492a378f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:54 +0000
Subject: [PATCH 34/39] fix: private RSA keys whose factors are not prime were
 accepted

Such a key passes every consistency check, but its inversion is not the
inverse of its evaluation.
---
 src/tdp_impl/tdp_impl_mbedtls.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tdp_impl/tdp_impl_mbedtls.cpp b/src/tdp_impl/tdp_impl_mbedtls.cpp
index 2785eaf..b72afb3 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.cpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.cpp
@@ -440,6 +440,13 @@ TdpInverseImpl_mbedTLS::TdpInverseImpl_mbedTLS(const std::string& sk)
         throw std::runtime_error("Invalid RSA private key size");
     }
 
+    // the inversion is only correct when the factors are prime numbers
+    if (mbedtls_mpi_is_prime(&rsa_key_.P, mbedTLS_rng_wrap, nullptr) != 0
+        || mbedtls_mpi_is_prime(&rsa_key_.Q, mbedTLS_rng_wrap, nullptr) != 0) {
+        throw std::runtime_error("Invalid RSA private key: a factor of the "
+                                 "modulus is not a prime number");
+    }
+
     if (mbedtls_mpi_sub_int(&p_1_, &rsa_key_.P, 1) != 0
         || mbedtls_mpi_sub_int(&q_1_, &rsa_key_.Q, 1) != 0
         || mbedtls_mpi_mul_mpi(&phi_, &p_1_, &q_1_) != 0) {
-- 
2.43.0


From b58f5a5a684be73186355994395af4dcaedddc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:37 +0000
Subject: [PATCH 35/39] fix: private RSA keys were left in released memory by
 import, export and wrapping

---
 src/include/sse/crypto/tdp.hpp |  5 +----
 src/mbedtls/pem.c              |  7 ++++++-
 src/tdp.cpp                    | 25 +++++++++++++++++++++++--
 3 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/include/sse/crypto/tdp.hpp b/src/include/sse/crypto/tdp.hpp
index fdb2f6b..f078551 100644
--- a/src/include/sse/crypto/tdp.hpp
+++ b/src/include/sse/crypto/tdp.hpp
@@ -584,10 +584,7 @@ private:
     ///
     /// @return The size in bytes of the buffer needed to serialize the object.
     ///
-    size_t serialized_size() const
-    {
-        return private_key().size();
-    }
+    size_t serialized_size() const;
 
     /// @brief Serialize the object in the given buffer
     ///
diff --git a/src/mbedtls/pem.c b/src/mbedtls/pem.c
index 69d0210..f8d09f5 100644
--- a/src/mbedtls/pem.c
+++ b/src/mbedtls/pem.c
@@ -123,6 +123,9 @@ int mbedtls_pem_read_buffer( mbedtls_pem_context *ctx, const char *header, const
 
 void mbedtls_pem_free( mbedtls_pem_context *ctx )
 {
+    if( ctx->buf != NULL )
+        mbedtls_zeroize( ctx->buf, ctx->buflen );
+
     mbedtls_free( ctx->buf );
     mbedtls_free( ctx->info );
 
@@ -137,9 +140,10 @@ int mbedtls_pem_write_buffer( const char *header, const char *footer,
 {
     int ret;
     unsigned char *encode_buf, *c, *p = buf;
-    size_t len = 0, use_len, add_len = 0;
+    size_t len = 0, use_len, encode_len, add_len = 0;
 
     mbedtls_base64_encode( NULL, 0, &use_len, der_data, der_len );
+    encode_len = use_len;
     add_len = strlen( header ) + strlen( footer ) + ( use_len / 64 ) + 1;
 
     if( use_len + add_len > buf_len )
@@ -178,6 +182,7 @@ int mbedtls_pem_write_buffer( const char *header, const char *footer,
     *p++ = '\0';
     *olen = p - buf;
 
+    mbedtls_zeroize( encode_buf, encode_len );
     mbedtls_free( encode_buf );
     return( 0 );
 }
diff --git a/src/tdp.cpp b/src/tdp.cpp
index 3fe408c..eea4412 100644
--- a/src/tdp.cpp
+++ b/src/tdp.cpp
@@ -30,6 +30,9 @@
 #include <exception>
 #include <iomanip>
 #include <iostream>
+#include <memory>
+
+#include <sodium/utils.h>
 
 #define SSE_CRYPTO_TDP_IMPL_MBEDTLS 1
 #define SSE_CRYPTO_TDP_IMPL_OPENSSL 2
@@ -285,11 +288,21 @@ std::array<uint8_t, TdpInverse::kMessageSize> TdpInverse::invert_mult(
 }
 
 
+size_t TdpInverse::serialized_size() const
+{
+    std::string  sk   = private_key();
+    const size_t size = sk.size();
+    sodium_memzero(&sk[0], sk.size());
+
+    return size;
+}
+
 void TdpInverse::serialize(uint8_t* out) const
 {
     std::string sk = private_key();
     // NOLINTNEXTLINE(bugprone-not-null-terminated-result)
     memcpy(out, sk.data(), sk.size());
+    sodium_memzero(&sk[0], sk.size());
 }
 
 
@@ -318,14 +331,22 @@ TdpInverse TdpInverse::deserialize(uint8_t*     in,
     std::string sk(
         reinterpret_cast<const char*>(in),
         reinterpret_cast<const char*>(suffix_start + kKeySuffixSize));
-    TdpInverse result(sk);
+
+    std::unique_ptr<TdpInverse> result;
+    try {
+        result.reset(new TdpInverse(sk));
+    } catch (...) {
+        sodium_memzero(&sk[0], sk.size());
+        throw;
+    }
+    sodium_memzero(&sk[0], sk.size());
 
     if ((n_bytes_read < in_size) && (in[n_bytes_read] == '\n')) {
         n_bytes_read++; // there might be a trailing \n character at the
                         // end
     }
 
-    return result;
+    return std::move(*result);
 }
 
 
-- 
2.43.0


From db607feaefe22e8e9681a6bcfe91a143cc82449b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:25 +0000
Subject: [PATCH 36/39] fix: exporting a private RSA key left its encoding on
 the stack

---
 src/mbedtls/rsa_io.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/mbedtls/rsa_io.c b/src/mbedtls/rsa_io.c
index 7eba18a..e297773 100644
--- a/src/mbedtls/rsa_io.c
+++ b/src/mbedtls/rsa_io.c
@@ -29,6 +29,11 @@
 #define mbedtls_free       free
 #endif
 
+/* Implementation that should never be optimized out by the compiler */
+static void mbedtls_zeroize( void *v, size_t n ) {
+    volatile unsigned char *p = v; while( n-- ) *p++ = 0;
+}
+
 #pragma GCC diagnostic push
 // mbedTLS does sign conversion everywhere
 #pragma GCC diagnostic ignored "-Wsign-conversion"
@@ -237,7 +242,7 @@ int mbedtls_rsa_write_key_pem( mbedtls_rsa_context *key, unsigned char *buf, siz
     size_t olen = 0;
     
     if( ( ret = mbedtls_rsa_write_key_der( key, output_buf, sizeof(output_buf) ) ) < 0 )
-        return( ret );
+        goto cleanup;
     
     begin = PEM_BEGIN_PRIVATE_KEY_RSA;
     end = PEM_END_PRIVATE_KEY_RSA;
@@ -246,10 +251,13 @@ int mbedtls_rsa_write_key_pem( mbedtls_rsa_context *key, unsigned char *buf, siz
                                          output_buf + sizeof(output_buf) - ret,
                                          ret, buf, size, &olen ) ) != 0 )
     {
-        return( ret );
+        goto cleanup;
     }
     
-    return( 0 );
+cleanup:
+    mbedtls_zeroize( output_buf, sizeof(output_buf) );
+
+    return( ret );
 }
 
 #pragma GCC diagnostic pop
-- 
2.43.0


From f8bcaaee051a925b5d8d18ed11721c273beba0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:49 +0000
Subject: [PATCH 37/39] fix: refuse the reserved tag in incremental punctures

inc_puncture documents std::invalid_argument for the NULL tag; skShareGen only
asserted, and without assertions returned a share on the reserved tag.
---
 src/ppke/GMPpke.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ppke/GMPpke.cpp b/src/ppke/GMPpke.cpp
index 98b7798..5bdb4e9 100644
--- a/src/ppke/GMPpke.cpp
+++ b/src/ppke/GMPpke.cpp
@@ -283,11 +283,15 @@ GmppkePrivateKeyShare Gmppke::skShareGen(
     size_t                                      d,
     const tag_type&                             tag) const
 {
+    if (tag == NULLTAG) {
+        throw std::invalid_argument(
+            "Invalid tag: the NULLTAG is reserved and cannot be used.");
+    }
+
     const ZR              h = group.hashListToZR(tag);
     GmppkePrivateKeyShare share;
 
     assert(d > 0);
-    assert(tag != NULLTAG);
     std::string d_string = std::to_string(d);
 
     const ZR r1 = group.pseudoRandomZR(prf, ("param_r1_" + d_string));
-- 
2.43.0


From b3298c6c423d6305827ec7fd7e891ae54534de3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:49 +0000
Subject: [PATCH 38/39] fix: print the bytes of G1, G2 and GT elements

The stream operators indexed the serialised element by its own byte values,
reading out of bounds and printing the wrong bytes.
---
 src/ppke/relic_wrapper/relic_api.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ppke/relic_wrapper/relic_api.cpp b/src/ppke/relic_wrapper/relic_api.cpp
index 409de63..9e68616 100644
--- a/src/ppke/relic_wrapper/relic_api.cpp
+++ b/src/ppke/relic_wrapper/relic_api.cpp
@@ -378,7 +378,7 @@ std::ostream& operator<<(std::ostream& s, const G1& g1)
     auto data = g1.getBytes();
     s << "0x";
     for (auto i : data) {
-        s << std::hex << static_cast<unsigned int>(data[i]);
+        s << std::hex << static_cast<unsigned int>(i);
     }
     s << std::endl;
 
@@ -497,7 +497,7 @@ std::ostream& operator<<(std::ostream& s, const G2& g2)
     auto data = g2.getBytes();
     s << "0x";
     for (auto i : data) {
-        s << std::hex << static_cast<unsigned int>(data[i]);
+        s << std::hex << static_cast<unsigned int>(i);
     }
     s << std::endl;
 
@@ -640,7 +640,7 @@ std::ostream& operator<<(std::ostream& s, const GT& gt)
     auto data = gt.getBytes();
     s << "0x";
     for (auto i : data) {
-        s << std::hex << static_cast<unsigned int>(data[i]);
+        s << std::hex << static_cast<unsigned int>(i);
     }
     s << std::endl;
 
-- 
2.43.0


From a6a3d71519f1d5a0ff1289a32422823a9d7cb6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:00 +0000
Subject: [PATCH 39/39] fix: test primality in 40 rounds, whatever the size of
 the number

The number of rounds came from a table whose error bounds only hold for random
numbers: 3 rounds for the factors of a private key. A composite number chosen
for it, such as (2k+1)(4k+1), passed with probability 1/64, and a private key
with such a factor was imported.
---
 src/mbedtls/bignum.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/mbedtls/bignum.c b/src/mbedtls/bignum.c
index 6d9f126..31523a0 100644
--- a/src/mbedtls/bignum.c
+++ b/src/mbedtls/bignum.c
@@ -2023,13 +2023,12 @@ static int mpi_miller_rabin( const mbedtls_mpi *X,
     MBEDTLS_MPI_CHK( mbedtls_mpi_copy( &R, &W ) );
     MBEDTLS_MPI_CHK( mbedtls_mpi_shift_r( &R, s ) );
 
-    i = mbedtls_mpi_bitlen( X );
     /*
-     * HAC, table 4.4
+     * The error bounds of HAC, table 4.4 only hold for random numbers. X may
+     * come from somebody else, who can choose a composite number that passes
+     * a round with probability 1/4.
      */
-    n = ( ( i >= 1300 ) ?  2 : ( i >=  850 ) ?  3 :
-          ( i >=  650 ) ?  4 : ( i >=  350 ) ?  8 :
-          ( i >=  250 ) ? 12 : ( i >=  150 ) ? 18 : 27 );
+    n = 40;
 
     for( i = 0; i < n; i++ )
     {
-- 
2.43.0

