From ce263f185bc6f548508ccde7a0d0eb54e4ebe65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:26 +0000
Subject: [PATCH 01/11] fix: verifyTimeConstraint no longer wraps around for
 large exp, now or skew

exp + clock_skew (and now + clock_skew) overflowed uint64_t, so a token with
an exp close to 2^64 was reported as expired and one with nbf in the future
could be accepted when now + clock_skew wrapped.
---
 src/jwt.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jwt.cc b/src/jwt.cc
index 2c22eb4..04b999d 100644
--- a/src/jwt.cc
+++ b/src/jwt.cc
@@ -146,12 +146,13 @@ Status Jwt::parseFromString(const std::string& jwt) {
 }
 
 Status Jwt::verifyTimeConstraint(uint64_t now, uint64_t clock_skew) const {
+  // The differences are compared instead of the sums, which could overflow.
   // Check Jwt is active (nbf).
-  if (now + clock_skew < nbf_) {
+  if (now < nbf_ && nbf_ - now > clock_skew) {
     return Status::JwtNotYetValid;
   }
   // Check JWT has not expired (exp).
-  if (exp_ && now > exp_ + clock_skew) {
+  if (exp_ && now > exp_ && now - exp_ > clock_skew) {
     return Status::JwtExpired;
   }
   return Status::Ok;
-- 
2.43.0


From aaf8dea78175eeff4e01a4e4c651a427e8695eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 02/11] fix: a key only verifies algorithms of its own type and
 curve

A key without alg, or a PEM key labelled with an unrelated alg, was used for
whatever alg the token named: an EC key verified RS256 or HS256 tokens with
ECDSA/SHA-256, an HMAC key ES384 tokens with HMAC-SHA-256, and an Ed25519 key
without alg made every other token fail with the Ed25519 length error.
---
 src/verify.cc | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/verify.cc b/src/verify.cc
index 70eb817..63b9afe 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -104,6 +104,11 @@ bool verifySignatureRSAPSS(RSA* key, const EVP_MD* md,
                                signed_data.length());
 }
 
+bool isEcKeyOnCurve(const EC_KEY* key, int nid) {
+  const EC_GROUP* group = key == nullptr ? nullptr : EC_KEY_get0_group(key);
+  return group != nullptr && EC_GROUP_get_curve_name(group) == nid;
+}
+
 bool verifySignatureEC(EC_KEY* key, const EVP_MD* md, const uint8_t* signature,
                        size_t signature_len, const uint8_t* signed_data,
                        size_t signed_data_len) {
@@ -226,18 +231,26 @@ Status verifyJwtWithoutTimeChecking(const Jwt& jwt, const Jwks& jwks) {
     }
     kid_alg_matched = true;
 
+    // A key may come without an alg, or with an arbitrary one (PEM); it must not
+    // be used for an algorithm of another key type or curve.
     if (jwk->kty_ == "EC") {
       const EVP_MD* md;
-      if (jwt.alg_ == "ES384") {
+      int nid;
+      if (jwt.alg_ == "ES256") {
+        md = EVP_sha256();
+        nid = NID_X9_62_prime256v1;
+      } else if (jwt.alg_ == "ES384") {
         md = EVP_sha384();
+        nid = NID_secp384r1;
       } else if (jwt.alg_ == "ES512") {
         md = EVP_sha512();
+        nid = NID_secp521r1;
       } else {
-        // default to SHA256
-        md = EVP_sha256();
+        continue;
       }
 
-      if (verifySignatureEC(jwk->ec_key_.get(), md, jwt.signature_,
+      if (isEcKeyOnCurve(jwk->ec_key_.get(), nid) &&
+          verifySignatureEC(jwk->ec_key_.get(), md, jwt.signature_,
                             signed_data)) {
         // Verification succeeded.
         return Status::Ok;
@@ -268,20 +281,22 @@ Status verifyJwtWithoutTimeChecking(const Jwt& jwt, const Jwks& jwks) {
       }
     } else if (jwk->kty_ == "oct") {
       const EVP_MD* md;
-      if (jwt.alg_ == "HS384") {
+      if (jwt.alg_ == "HS256") {
+        md = EVP_sha256();
+      } else if (jwt.alg_ == "HS384") {
         md = EVP_sha384();
       } else if (jwt.alg_ == "HS512") {
         md = EVP_sha512();
       } else {
-        // default to SHA256
-        md = EVP_sha256();
+        continue;
       }
 
       if (verifySignatureOct(jwk->hmac_key_, md, jwt.signature_, signed_data)) {
         // Verification succeeded.
         return Status::Ok;
       }
-    } else if (jwk->kty_ == "OKP" && jwk->crv_ == "Ed25519") {
+    } else if (jwk->kty_ == "OKP" && jwk->crv_ == "Ed25519" &&
+               jwt.alg_ == "EdDSA") {
       Status status = verifySignatureEd25519(jwk->okp_key_raw_, jwt.signature_,
                                              signed_data);
       // For verification failures keep going and try the rest of the keys in
-- 
2.43.0


From 7795f0ec62f64e0209e01400b4498c889ed470d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:58 +0000
Subject: [PATCH 03/11] fix: ECDSA signatures must have exactly the length of
 their curve

A signature with an extra byte, or with r and s zero-padded or stripped of
leading zeros, was accepted as well.
---
 src/verify.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/verify.cc b/src/verify.cc
index 63b9afe..4254197 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -116,6 +116,13 @@ bool verifySignatureEC(EC_KEY* key, const EVP_MD* md, const uint8_t* signature,
       signed_data == nullptr) {
     return false;
   }
+  // The signature is r and s, each as long as the curve's coordinates
+  // (RFC 7518, section 3.4).
+  const size_t coord_len =
+      (EC_GROUP_get_degree(EC_KEY_get0_group(key)) + 7) / 8;
+  if (signature_len != 2 * coord_len) {
+    return false;
+  }
   bssl::UniquePtr<EVP_MD_CTX> md_ctx(EVP_MD_CTX_create());
   std::vector<uint8_t> digest(EVP_MAX_MD_SIZE);
   unsigned int digest_len = 0;
-- 
2.43.0


From c432d397956f9363b62706d43e8d88586176ad9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:23 +0000
Subject: [PATCH 04/11] fix: a failed allocation during signature verification
 rejects the token

EVP_PKEY_new and EVP_MD_CTX_create may return null, which the following
calls dereference.
---
 src/verify.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/verify.cc b/src/verify.cc
index 4254197..e94435c 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -44,11 +44,17 @@ bool verifySignatureRSA(RSA* key, const EVP_MD* md, const uint8_t* signature,
     return false;
   }
   bssl::UniquePtr<EVP_PKEY> evp_pkey(EVP_PKEY_new());
+  if (evp_pkey == nullptr) {
+    return false;
+  }
   if (EVP_PKEY_set1_RSA(evp_pkey.get(), key) != 1) {
     return false;
   }
 
   bssl::UniquePtr<EVP_MD_CTX> md_ctx(EVP_MD_CTX_create());
+  if (md_ctx == nullptr) {
+    return false;
+  }
   if (EVP_DigestVerifyInit(md_ctx.get(), nullptr, md, nullptr,
                            evp_pkey.get()) == 1) {
     if (EVP_DigestVerifyUpdate(md_ctx.get(), signed_data, signed_data_len) ==
@@ -76,11 +82,17 @@ bool verifySignatureRSAPSS(RSA* key, const EVP_MD* md, const uint8_t* signature,
     return false;
   }
   bssl::UniquePtr<EVP_PKEY> evp_pkey(EVP_PKEY_new());
+  if (evp_pkey == nullptr) {
+    return false;
+  }
   if (EVP_PKEY_set1_RSA(evp_pkey.get(), key) != 1) {
     return false;
   }
 
   bssl::UniquePtr<EVP_MD_CTX> md_ctx(EVP_MD_CTX_create());
+  if (md_ctx == nullptr) {
+    return false;
+  }
   // pctx is owned by md_ctx, no need to free it separately.
   EVP_PKEY_CTX* pctx;
   if (EVP_DigestVerifyInit(md_ctx.get(), &pctx, md, nullptr, evp_pkey.get()) ==
@@ -124,6 +136,9 @@ bool verifySignatureEC(EC_KEY* key, const EVP_MD* md, const uint8_t* signature,
     return false;
   }
   bssl::UniquePtr<EVP_MD_CTX> md_ctx(EVP_MD_CTX_create());
+  if (md_ctx == nullptr) {
+    return false;
+  }
   std::vector<uint8_t> digest(EVP_MAX_MD_SIZE);
   unsigned int digest_len = 0;
 
-- 
2.43.0


From 158b546fa8b8b4dd635eb4a22a45c3bbc4d2cd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:39 +0000
Subject: [PATCH 05/11] fix: a NaN claim is out of range, not undefined
 behaviour

---
 src/struct_utils.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/struct_utils.cc b/src/struct_utils.cc
index 077a1d5..f26ec99 100644
--- a/src/struct_utils.cc
+++ b/src/struct_utils.cc
@@ -57,7 +57,8 @@ StructUtils::FindResult StructUtils::GetUInt64(const std::string& name,
   if (result != OK) {
     return result;
   }
-  if (double_value < 0 ||
+  // Written so that NaN is out of range too.
+  if (!(double_value >= 0) ||
       double_value >=
           static_cast<double>(std::numeric_limits<uint64_t>::max())) {
     return OUT_OF_RANGE;
-- 
2.43.0


From 338a57fd7ec52a8b10c11a88685c49967e6362b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:39 +0000
Subject: [PATCH 06/11] fix: a token has exactly two dots and three non-empty
 sections

---
 src/jwt.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jwt.cc b/src/jwt.cc
index 04b999d..98cdb96 100644
--- a/src/jwt.cc
+++ b/src/jwt.cc
@@ -50,9 +50,9 @@ Jwt& Jwt::operator=(const Jwt& rhs) {
 Status Jwt::parseFromString(const std::string& jwt) {
   // jwt must have exactly 2 dots with 3 sections.
   jwt_ = jwt;
-  std::vector<absl::string_view> jwt_split =
-      absl::StrSplit(jwt, '.', absl::SkipEmpty());
-  if (jwt_split.size() != 3) {
+  std::vector<absl::string_view> jwt_split = absl::StrSplit(jwt, '.');
+  if (jwt_split.size() != 3 || jwt_split[0].empty() || jwt_split[1].empty() ||
+      jwt_split[2].empty()) {
     return Status::JwtBadFormat;
   }
 
-- 
2.43.0


From 82b446badf16b1627de1611904c733e3fc006e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:39 +0000
Subject: [PATCH 07/11] fix: parsing a token leaves nothing of an earlier one
 in the object

---
 src/jwt.cc | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/jwt.cc b/src/jwt.cc
index 98cdb96..9b0680e 100644
--- a/src/jwt.cc
+++ b/src/jwt.cc
@@ -48,9 +48,28 @@ Jwt& Jwt::operator=(const Jwt& rhs) {
 }
 
 Status Jwt::parseFromString(const std::string& jwt) {
-  // jwt must have exactly 2 dots with 3 sections.
+  // Nothing of an earlier token may remain. The argument is not used any more
+  // once it is stored: it may be a member of this object.
   jwt_ = jwt;
-  std::vector<absl::string_view> jwt_split = absl::StrSplit(jwt, '.');
+  header_str_.clear();
+  header_str_base64url_.clear();
+  header_pb_.Clear();
+  payload_str_.clear();
+  payload_str_base64url_.clear();
+  payload_pb_.Clear();
+  signature_.clear();
+  alg_.clear();
+  kid_.clear();
+  iss_.clear();
+  audiences_.clear();
+  sub_.clear();
+  iat_ = 0;
+  nbf_ = 0;
+  exp_ = 0;
+  jti_.clear();
+
+  // jwt must have exactly 2 dots with 3 sections.
+  std::vector<absl::string_view> jwt_split = absl::StrSplit(jwt_, '.');
   if (jwt_split.size() != 3 || jwt_split[0].empty() || jwt_split[1].empty() ||
       jwt_split[2].empty()) {
     return Status::JwtBadFormat;
-- 
2.43.0


From f49af4e6bfe9fde1211df169bd40b668348b4d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:52 +0000
Subject: [PATCH 08/11] fix: a certificate map that fails to load yields no
 keys

---
 src/jwks.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jwks.cc b/src/jwks.cc
index 2b1acb0..d0d3809 100644
--- a/src/jwks.cc
+++ b/src/jwks.cc
@@ -409,6 +409,8 @@ Status createFromX509(const ::google::protobuf::Struct& jwks_pb,
     Jwks::PubkeyPtr key_ptr(new Jwks::Pubkey());
     Status status = extractX509(kid.second.string_value(), key_ptr.get());
     if (status != Status::Ok) {
+      // All or nothing: do not keep the keys of the earlier certificates.
+      keys.clear();
       return status;
     }
 
-- 
2.43.0


From 43ec1023b444610ee5f85526d249dfb4abb1f06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:19 +0000
Subject: [PATCH 09/11] fix: the reported age of the oldest cached item no
 longer overflows

---
 simple_lru_cache/simple_lru_cache_inl.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simple_lru_cache/simple_lru_cache_inl.h b/simple_lru_cache/simple_lru_cache_inl.h
index 99aad30..9b1ae84 100644
--- a/simple_lru_cache/simple_lru_cache_inl.h
+++ b/simple_lru_cache/simple_lru_cache_inl.h
@@ -963,8 +963,12 @@ template <class Key, class Value, class MapType, class EQ>
 int64_t SimpleLRUCacheBase<Key, Value, MapType,
                            EQ>::ageOfLRUItemInMicroseconds() const {
   if (head_.prev == &head_) return 0;
-  return kSecToUsec * (SimpleCycleTimer::now() - head_.prev->last_use_) /
-         SimpleCycleTimer::frequency();
+  // Whole seconds and the rest are converted apart, so that no product can
+  // overflow.
+  const int64_t cycles = SimpleCycleTimer::now() - head_.prev->last_use_;
+  const int64_t frequency = SimpleCycleTimer::frequency();
+  return cycles / frequency * kSecToUsec +
+         cycles % frequency * kSecToUsec / frequency;
 }
 
 template <class Key, class Value, class MapType, class EQ>
-- 
2.43.0


From 797ebd0a95b618faf6bd194b442f7b8d4cd54b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:19 +0000
Subject: [PATCH 10/11] fix: a cache timeout that is not a number means no
 timeout

---
 simple_lru_cache/simple_lru_cache_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_lru_cache/simple_lru_cache_inl.h b/simple_lru_cache/simple_lru_cache_inl.h
index 9b1ae84..7e4e56d 100644
--- a/simple_lru_cache/simple_lru_cache_inl.h
+++ b/simple_lru_cache/simple_lru_cache_inl.h
@@ -594,7 +594,7 @@ SimpleLRUCacheBase<Key, Value, MapType, EQ>::SimpleLRUCacheBase(
 template <class Key, class Value, class MapType, class EQ>
 void SimpleLRUCacheBase<Key, Value, MapType, EQ>::setTimeout(double seconds,
                                                              bool lru) {
-  if (seconds < 0 || std::isinf(seconds)) {
+  if (!(seconds >= 0) || std::isinf(seconds)) {
     // Treat as no expiration based on idle time
     lru_ = lru;
     max_idle_ = -1;
-- 
2.43.0


From ddc29d3de5fd95d8db7555c845f06ba456a32602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:37 +0000
Subject: [PATCH 11/11] fix: accesses that do not update the order, and mode
 changes, keep the cache's list sound

---
 simple_lru_cache/simple_lru_cache_inl.h | 29 ++++++++++++++++++-------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/simple_lru_cache/simple_lru_cache_inl.h b/simple_lru_cache/simple_lru_cache_inl.h
index 7e4e56d..91d2f8e 100644
--- a/simple_lru_cache/simple_lru_cache_inl.h
+++ b/simple_lru_cache/simple_lru_cache_inl.h
@@ -681,10 +681,12 @@ Value* SimpleLRUCacheBase<Key, Value, MapType, EQ>::lookupWithOptions(
     Elem* e = iter->second;
     if (e->pin == 0) {
       pinned_units_ += e->units;
-      // We are pinning this entry, take it off the LRU list if we are in LRU
-      // mode. In strict age-based mode entries stay on the list while pinned.
-      if (lru_ && options.update_eviction_order()) e->unlink();
     }
+    // We are pinning this entry, take it off the LRU list if we are in LRU
+    // mode. In strict age-based mode entries stay on the list while pinned.
+    // It may still be on the list although pinned already, if its pins do not
+    // update the eviction order.
+    if (lru_ && options.update_eviction_order()) e->unlink();
     e->pin++;
     return e->value;
   }
@@ -735,11 +737,22 @@ void SimpleLRUCacheBase<Key, Value, MapType, EQ>::releaseWithOptions(
     assert(e->pin > 0);
     if (lru_ && options.update_eviction_order()) {
       e->last_use_ = SimpleCycleTimer::now();
+      // It may be on the list if it was pinned in strict age-based mode.
+      e->unlink();
     }
     e->pin--;
 
     if (e->pin == 0) {
-      if (lru_ && options.update_eviction_order()) e->link(&head_);
+      if (lru_ && options.update_eviction_order()) {
+        e->link(&head_);
+      } else if (!e->isLinked()) {
+        // Another pin took it off the list: back to the place of its last use.
+        Elem* place = &head_;
+        while (place->next != &head_ && place->next->last_use_ > e->last_use_) {
+          place = place->next;
+        }
+        e->link(place);
+      }
       pinned_units_ -= e->units;
       if (isOverfullInternal()) {
         // This element is no longer needed, and we are full. So kick it out.
@@ -921,10 +934,10 @@ void SimpleLRUCacheBase<Key, Value, MapType, EQ>::discardIdle(
 #endif
 
     Elem* prev = e->prev;
-    // There are no pinned elements on the list in the LRU mode, and in the
-    // age-based mode we push them out of the main table regardless of pinning.
-    assert(e->pin == 0 || !lru_);
-    remove(e->key);
+    // In the LRU mode an element pinned without updating the eviction order
+    // stays, and in the age-based mode we push elements out of the main table
+    // regardless of pinning.
+    if (e->pin == 0 || !lru_) remove(e->key);
     e = prev;
   }
 }
-- 
2.43.0

