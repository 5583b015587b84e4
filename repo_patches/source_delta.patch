From 7009073aa8411ad1ebd3aaf3f0409f5c092b223b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 01/30] fix: zero the rest of the length block when SHA-1/SHA-2
 padding takes two blocks

---
 src/hashes/sha1.c         | 3 ++-
 src/hashes/sha2-backend.c | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/hashes/sha1.c b/src/hashes/sha1.c
index bdb7758..3a37270 100644
--- a/src/hashes/sha1.c
+++ b/src/hashes/sha1.c
@@ -96,7 +96,8 @@ static void sha1_padding(struct pgfe_sha1_ctx *ctx) {
         ctx->index = PGFE_SHA1_BLOCK_SIZE;
         sha1_process_block(ctx);
     }
-    else if (ctx->index < 56) {
+
+    if (ctx->index < 56) {
         memset(ctx->block + ctx->index, 0, 56 - ctx->index);
         ctx->index = 56;
     }
diff --git a/src/hashes/sha2-backend.c b/src/hashes/sha2-backend.c
index 57677c0..150b714 100644
--- a/src/hashes/sha2-backend.c
+++ b/src/hashes/sha2-backend.c
@@ -83,7 +83,8 @@ void sha224n256_padding(struct pgfe_sha256_ctx *ctx) {
         ctx->index = PGFE_SHA256_BLOCK_SIZE;
         sha256_process_block(ctx);
     }
-    else if (ctx->index < 56) {
+
+    if (ctx->index < 56) {
         memset(ctx->block + ctx->index, 0, 56 - ctx->index);
         ctx->index = 56;
     }
@@ -223,7 +224,8 @@ void sha384n512_padding(struct pgfe_sha512_ctx *ctx, pgfe_encode_t padding_byte)
         ctx->index = PGFE_SHA512_BLOCK_SIZE;
         sha384n512_process_block(ctx);
     }
-    else if (ctx->index < 112) {
+
+    if (ctx->index < 112) {
         memset(&ctx->block[ctx->index], 0, 112 - ctx->index);
         ctx->index = 112;
     }
-- 
2.43.0


From b77fa7a52dcf6b250d426e39b5e81fcbee637d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 02/30] fix: MD5 update with no data reads uninitialised
 variables

---
 src/hashes/md5.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashes/md5.c b/src/hashes/md5.c
index f6ceaf8..4a90d52 100644
--- a/src/hashes/md5.c
+++ b/src/hashes/md5.c
@@ -30,7 +30,7 @@ void pgfe_md5_init(struct pgfe_md5_ctx *ctx) {
 }
 
 void pgfe_md5_update(struct pgfe_md5_ctx *ctx, const pgfe_encode_t input[], size_t length) {
-    if (!ctx || !input) return;
+    if (!ctx || !input || !length) return;
 
     size_t read_len, written_len, remainder, offset;
     const pgfe_encode_t *p;
-- 
2.43.0


From 7e23efda6d0a22a9b633541e598b705eb4ded50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 03/30] fix: Keccak absorb truncates the remaining bit count of
 huge inputs to 32 bits

---
 src/hashes/keccak-backend.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hashes/keccak-backend.c b/src/hashes/keccak-backend.c
index de66566..e598124 100644
--- a/src/hashes/keccak-backend.c
+++ b/src/hashes/keccak-backend.c
@@ -182,9 +182,9 @@ int keccak_absorb_b1600(struct pgfe_keccak_sponge_ctx *ctx, const pgfe_encode_t
             i += whole_blocks * ctx->rate;
         }
         else {
-            partial_block = (uint32_t)(bit_len - i);
-            if (partial_block + ctx->inqueue_bits > ctx->rate) {
-                partial_block = ctx->rate - ctx->inqueue_bits;
+            partial_block = ctx->rate - ctx->inqueue_bits;
+            if (bit_len - i < partial_block) {
+                partial_block = (uint32_t)(bit_len - i);
             }
 
             partial_byte = bit_rem(partial_block);
-- 
2.43.0


From c86488013de748780027d6652f0206999856deb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 04/30] fix: SHA-1/SHA-2 updates of 2 GiB and more overflow an
 int index

---
 src/hashes/sha2-backend.c | 2 +-
 src/hashes/templates.h    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hashes/sha2-backend.c b/src/hashes/sha2-backend.c
index 150b714..423f970 100644
--- a/src/hashes/sha2-backend.c
+++ b/src/hashes/sha2-backend.c
@@ -196,7 +196,7 @@ void sha384n512_update(struct pgfe_sha512_ctx *ctx, const pgfe_encode_t input[],
     const pgfe_encode_t *inp = input;
     int corrupt_flag = 0, tmpflag;
     uint64_t tmp_low;
-    for (int i = 0; i < length && !corrupt_flag; i++) {
+    for (size_t i = 0; i < length && !corrupt_flag; i++) {
         ctx->block[ctx->index++] = *inp;
 
         tmp_low = ctx->len_low;
diff --git a/src/hashes/templates.h b/src/hashes/templates.h
index 88a9a2c..079142b 100644
--- a/src/hashes/templates.h
+++ b/src/hashes/templates.h
@@ -139,7 +139,7 @@ extern "C" {
         const pgfe_encode_t *inp = input;                                                                              \
         int corrupt_flag = 0;                                                                                          \
         uint32_t tmp_low;                                                                                              \
-        for (int i = 0; i < length && !corrupt_flag; i++) {                                                            \
+        for (size_t i = 0; i < length && !corrupt_flag; i++) {                                                         \
             ctx->block[ctx->index++] = *inp;                                                                           \
                                                                                                                        \
             tmp_low = ctx->len_low;                                                                                    \
-- 
2.43.0


From 5cb8050b82e8e668e5b32a2dceac64cc63f52d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 05/30] fix: Keccak squeeze leaves the last partial byte of the
 output unwritten

---
 src/hashes/keccak-backend.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hashes/keccak-backend.c b/src/hashes/keccak-backend.c
index e598124..2a4ab2b 100644
--- a/src/hashes/keccak-backend.c
+++ b/src/hashes/keccak-backend.c
@@ -234,6 +234,12 @@ int keccak_squeeze_b1600(struct pgfe_keccak_sponge_ctx *ctx, pgfe_encode_t outpu
         }
 
         memcpy(output + to_byte(i), ctx->data_queue + to_byte(ctx->rate - ctx->squeezable), to_byte(partial_block));
+        if (bit_rem(partial_block)) {
+            // Only the last piece can end inside a byte; its bits are the low ones
+            output[to_byte(i + partial_block)] =
+                ctx->data_queue[to_byte(ctx->rate - ctx->squeezable + partial_block)] &
+                ((1 << bit_rem(partial_block)) - 1);
+        }
         ctx->squeezable -= partial_block;
         i += partial_block;
     }
-- 
2.43.0


From 312e9f1abda9549da8b75b97e52a5089f4c1b49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 06/30] fix: SHAKE outputs of 2^32 bits and more are cut to the
 low 32 bits of the length

---
 include/libpgfe/hashes/sha3.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libpgfe/hashes/sha3.h b/include/libpgfe/hashes/sha3.h
index d35468a..70eef4a 100644
--- a/include/libpgfe/hashes/sha3.h
+++ b/include/libpgfe/hashes/sha3.h
@@ -27,7 +27,8 @@ struct pgfe_keccak_sponge_ctx
 {
     pgfe_keccak_bitcube_t state;                                    // Keccak sponge state array
     pgfe_encode_t data_queue[pgfe_to_byte(__PGFE_KECCAK_MAX_RATE)]; // Data queue
-    uint32_t rate, capacity, inqueue_bits, out_length;              // Rate, capacity, bits in queue, output bit length
+    uint32_t rate, capacity, inqueue_bits;                          // Rate, capacity, bits in queue
+    uint64_t out_length;                                            // Output bit length
     uint16_t nr;                                                    // Number of rounds (Usually 24)
     int squeezing;                                                  // Is squeezing
     unsigned int squeezable;                                        // Size of squeezable bits
-- 
2.43.0


From e2715dc312a0675333753617671216d1d0e14fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 07/30] fix: HMAC keys longer than a block are cut off instead
 of hashed

---
 src/hmac/hmac.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hmac/hmac.c b/src/hmac/hmac.c
index 3474c27..eb50574 100644
--- a/src/hmac/hmac.c
+++ b/src/hmac/hmac.c
@@ -21,6 +21,12 @@
     void pgfe_hmac_##name##_set_key(                                                                                   \
         struct pgfe_hmac_##name##_ctx *ctx, const pgfe_encode_t key[], size_t key_length                               \
     ) {                                                                                                                \
+        pgfe_encode_t key_hash[PGFE_##upper##_DIGEST_SIZE];                                                            \
+        if (key_length > PGFE_##upper##_BLOCK_SIZE) {                                                                  \
+            pgfe_##name##_encode(key, key_length, key_hash);                                                           \
+            key = key_hash;                                                                                            \
+            key_length = PGFE_##upper##_DIGEST_SIZE;                                                                   \
+        }                                                                                                              \
         arrcpy(ctx->k_i_pad, PGFE_##upper##_BLOCK_SIZE, key, key_length);                                              \
         arrcpy(ctx->k_o_pad, PGFE_##upper##_BLOCK_SIZE, key, key_length);                                              \
         for (size_t i = 0; i < PGFE_##upper##_BLOCK_SIZE; i++) {                                                       \
-- 
2.43.0


From 8402e234dc2526a975fd0e92bff26ae8ac9660a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 08/30] fix: HashEncoder::get_digest overflows its buffer for
 short lengths and gets lengths wrong for SHAKE

---
 src/hashes/hash_encoder.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/hashes/hash_encoder.cpp b/src/hashes/hash_encoder.cpp
index e4c64a4..06fd722 100644
--- a/src/hashes/hash_encoder.cpp
+++ b/src/hashes/hash_encoder.cpp
@@ -100,7 +100,6 @@ inline void HashEncoder::update(SequentialData &sd) {
 const SequentialData *HashEncoder::get_digest(uint64_t bitlength) {
     bool shake_flag = this->cur_alg == SHAKE128 || this->cur_alg == RawSHAKE128 || this->cur_alg == SHAKE256 ||
                       this->cur_alg == RawSHAKE256;
-    uint64_t in_len = to_byte(bitlength) + bit_rem(bitlength);
 
     if (!bitlength) {
         if (this->cur_alg == SHAKE128 || this->cur_alg == RawSHAKE128) {
@@ -111,8 +110,12 @@ const SequentialData *HashEncoder::get_digest(uint64_t bitlength) {
         }
     }
 
+    uint64_t in_len = to_byte(bitlength) + (bit_rem(bitlength) ? 1 : 0);
     size_t length = shake_flag ? in_len : in_len < digsz && bitlength ? in_len : digsz;
-    pgfe_encode_t seq[length];
+
+    auto result = std::make_unique<SequentialData>();
+    result->resize(shake_flag ? length : digsz);
+    pgfe_encode_t *seq = &(*result)[0];
 
     if (shake_flag) {
         __PGFE_BATCH_SHAKE_CASES(DIGEST_FUNC_CALL_LIMIT)
@@ -121,6 +124,7 @@ const SequentialData *HashEncoder::get_digest(uint64_t bitlength) {
         __PGFE_BATCH_CASES_SP(cur_alg, DIGEST_FUNC_CALL)
     }
 
-    out = std::make_unique<SequentialData>((const pgfe_encode_t *)seq, length);
+    result->resize(length);
+    out = std::move(result);
     return (const SequentialData *)out.get();
 }
\ No newline at end of file
-- 
2.43.0


From fac68d20d9b0f36ecc49aeaa81cbb636d1ce6e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 09/30] fix: HashEncoder::reset leaves a dangling context when
 its allocation fails

---
 src/hashes/hash_encoder.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/hashes/hash_encoder.cpp b/src/hashes/hash_encoder.cpp
index 06fd722..832ead1 100644
--- a/src/hashes/hash_encoder.cpp
+++ b/src/hashes/hash_encoder.cpp
@@ -64,12 +64,11 @@ void HashEncoder::load_algorithm() {
 }
 
 void HashEncoder::reset() {
-    destroy_context();
-    load_algorithm();
+    __PGFE_BATCH_CASES(cur_alg, INIT_FUNC_CALL)
 }
 
 void HashEncoder::init() {
-    reset();
+    load_algorithm();
 }
 
 HashEncoder::HashEncoder(pgfe_algorithm_choice choice) {
-- 
2.43.0


From c5204fc6a232b2529ddb604d66981ffbebfbdbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 10/30] fix: a failed allocation in HMACEncoder::get_digest
 spoils the context

---
 src/hmac/hmac_encoder.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hmac/hmac_encoder.cpp b/src/hmac/hmac_encoder.cpp
index 5276ecd..65de69b 100644
--- a/src/hmac/hmac_encoder.cpp
+++ b/src/hmac/hmac_encoder.cpp
@@ -18,9 +18,10 @@
 
 #define __PGFE_HMAC_DIGEST_CASE(alg, name)                                                                             \
     case alg: {                                                                                                        \
-        pgfe_encode_t out[PGFE_##alg##_DIGEST_SIZE];                                                                   \
-        pgfe_hmac_##name##_digest(&ctx.name, out);                                                                     \
-        output = std::make_unique<SequentialData>((const pgfe_encode_t *)out, PGFE_##alg##_DIGEST_SIZE);               \
+        auto result = std::make_unique<SequentialData>();                                                              \
+        result->resize(PGFE_##alg##_DIGEST_SIZE);                                                                      \
+        pgfe_hmac_##name##_digest(&ctx.name, &(*result)[0]);                                                           \
+        output = std::move(result);                                                                                    \
     } break
 
 #define __PGFE_HMAC_SET_KEY_CASE(alg, name)                                                                            \
-- 
2.43.0


From 46741b9bb66318258548c798ac636c981d671a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 11/30] fix: HashEncoder::get_digest returns null when called
 through AbstractEncoder

---
 include/libpgfe/hashes/hash_encoder.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/libpgfe/hashes/hash_encoder.hpp b/include/libpgfe/hashes/hash_encoder.hpp
index da9c6a4..f88fe30 100644
--- a/include/libpgfe/hashes/hash_encoder.hpp
+++ b/include/libpgfe/hashes/hash_encoder.hpp
@@ -49,7 +49,10 @@ public:
     void update(std::string &cpp_s);
     void update(SequentialData &sd);
 
-    const SequentialData *get_digest(uint64_t bitlength = 0);
+    const SequentialData *get_digest() override {
+        return get_digest(0);
+    }
+    const SequentialData *get_digest(uint64_t bitlength);
 };
 
 } // namespace libpgfe
-- 
2.43.0


From 4bbcb1966f50a410d14cb5b3bfe88ed3cc9bed11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 12/30] fix: selecting an algorithm compares it with an
 uninitialised one

---
 include/libpgfe/algorithm_selectable.hpp | 3 +++
 src/core/algorithm_selectable.cpp        | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/libpgfe/algorithm_selectable.hpp b/include/libpgfe/algorithm_selectable.hpp
index ad450c0..361a6d7 100644
--- a/include/libpgfe/algorithm_selectable.hpp
+++ b/include/libpgfe/algorithm_selectable.hpp
@@ -18,6 +18,9 @@ namespace libpgfe {
 
 class AlgorithmSelectable
 {
+private:
+    bool selected = false;
+
 protected:
     pgfe_algorithm_choice cur_alg;
 
diff --git a/src/core/algorithm_selectable.cpp b/src/core/algorithm_selectable.cpp
index e0783d8..086748c 100644
--- a/src/core/algorithm_selectable.cpp
+++ b/src/core/algorithm_selectable.cpp
@@ -10,10 +10,11 @@
 using namespace libpgfe;
 
 void AlgorithmSelectable::select_algorithm(pgfe_algorithm_choice choice) {
-    if (choice == cur_alg) return;
+    if (selected && choice == cur_alg) return;
 
     before_change_alg();
     cur_alg = choice;
+    selected = true;
     after_change_alg();
 }
 
-- 
2.43.0


From 467248fa97daec493f895dbce5a9be728335ebf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 13/30] fix: the counter of a new HOTP object is uninitialised

---
 include/libpgfe/otp/hotp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libpgfe/otp/hotp.hpp b/include/libpgfe/otp/hotp.hpp
index b27b1f1..eaf047f 100644
--- a/include/libpgfe/otp/hotp.hpp
+++ b/include/libpgfe/otp/hotp.hpp
@@ -24,7 +24,7 @@ private:
     std::unique_ptr<SequentialData> secret;
     size_t digsz, blocksz;
 
-    pgfe_otp_counter_t co;
+    pgfe_otp_counter_t co = 0;
 
     Base32 base32;
 
-- 
2.43.0


From 65304cc6282a1e4df4097cc55fe5d2d24525f5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 14/30] fix: SequentialData overloads read the length before it
 is set when arguments are evaluated right to left

---
 include/libpgfe/abstract_encoder.hpp | 3 +--
 src/hmac/hmac_encoder.cpp            | 3 +--
 src/otp/abstract_otp.cpp             | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/libpgfe/abstract_encoder.hpp b/include/libpgfe/abstract_encoder.hpp
index 766b137..d7cdd22 100644
--- a/include/libpgfe/abstract_encoder.hpp
+++ b/include/libpgfe/abstract_encoder.hpp
@@ -34,8 +34,7 @@ public:
         return update((const pgfe_encode_t *)cpp_s.c_str(), cpp_s.length());
     }
     virtual void update(SequentialData &sd) {
-        size_t sz;
-        update(sd.to_pgfe_seq(sz), sz);
+        update(sd.to_pgfe_seq(), sd.length());
     }
 
     virtual const SequentialData *get_digest() {
diff --git a/src/hmac/hmac_encoder.cpp b/src/hmac/hmac_encoder.cpp
index 65de69b..65eddd5 100644
--- a/src/hmac/hmac_encoder.cpp
+++ b/src/hmac/hmac_encoder.cpp
@@ -74,8 +74,7 @@ void HMACEncoder::set_key(std::string &cpp_s) {
 }
 
 void HMACEncoder::set_key(SequentialData &sd) {
-    size_t sz;
-    set_key(sd.to_pgfe_seq(sz), sz);
+    set_key(sd.to_pgfe_seq(), sd.length());
 }
 
 void HMACEncoder::update(const pgfe_encode_t sequence[], size_t length) {
diff --git a/src/otp/abstract_otp.cpp b/src/otp/abstract_otp.cpp
index 036d298..72be17d 100644
--- a/src/otp/abstract_otp.cpp
+++ b/src/otp/abstract_otp.cpp
@@ -20,8 +20,7 @@ void AbstractOTP::set_secret(const std::string &cpp_s) {
 }
 
 void AbstractOTP::set_secret(const SequentialData &sd) {
-    size_t sz;
-    set_secret(sd.to_pgfe_seq(sz), sz);
+    set_secret(sd.to_pgfe_seq(), sd.length());
 }
 
 std::string AbstractOTP::generate_str(uint8_t digit_count) const {
-- 
2.43.0


From 13d9873b1035b6eeec746be6b20053df695fe6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 15/30] fix: Blowfish objects round the output buffer up
 wrongly and overflow it

---
 src/fishes/blowfish.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fishes/blowfish.cpp b/src/fishes/blowfish.cpp
index a28e84b..7b738c8 100644
--- a/src/fishes/blowfish.cpp
+++ b/src/fishes/blowfish.cpp
@@ -25,7 +25,7 @@ Blowfish::Blowfish(const std::string &key) : Blowfish(key.c_str()) {}
 Blowfish::~Blowfish() {}
 
 SequentialData Blowfish::encrypt(const pgfe_encode_t *seq, size_t length) {
-    size_t sz = length + length % 8;
+    size_t sz = (length + 7) / 8 * 8;
     std::unique_ptr<pgfe_encode_t[]> output = std::make_unique<pgfe_encode_t[]>(sz);
 
     sz = pgfe_blowfish_encrypt(&ctx, seq, length, output.get());
@@ -33,7 +33,7 @@ SequentialData Blowfish::encrypt(const pgfe_encode_t *seq, size_t length) {
 }
 
 SequentialData Blowfish::decrypt(const pgfe_encode_t *seq, size_t length) {
-    size_t sz = length + length % 8;
+    size_t sz = (length + 7) / 8 * 8;
     std::unique_ptr<pgfe_encode_t[]> output = std::make_unique<pgfe_encode_t[]>(sz);
 
     sz = pgfe_blowfish_decrypt(&ctx, seq, length, output.get());
-- 
2.43.0


From e4a41e6e8d25c73188b444326208551e31962e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 16/30] fix: a Blowfish key given as std::string stops at the
 first zero byte

---
 src/fishes/blowfish.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fishes/blowfish.cpp b/src/fishes/blowfish.cpp
index 7b738c8..dd59299 100644
--- a/src/fishes/blowfish.cpp
+++ b/src/fishes/blowfish.cpp
@@ -20,7 +20,7 @@ Blowfish::Blowfish(const pgfe_encode_t *key, size_t length) {
     pgfe_blowfish_init(&ctx, key, length);
 }
 
-Blowfish::Blowfish(const std::string &key) : Blowfish(key.c_str()) {}
+Blowfish::Blowfish(const std::string &key) : Blowfish((const pgfe_encode_t *)key.c_str(), key.length()) {}
 
 Blowfish::~Blowfish() {}
 
-- 
2.43.0


From bf1aca550d35a1c620e4740b577cc7363b2cde48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 17/30] fix: base encoding splits one byte too many, past the
 end of the unit

---
 src/base_encoding/base-encoding-internal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base_encoding/base-encoding-internal.c b/src/base_encoding/base-encoding-internal.c
index 9d21d79..3b103f2 100644
--- a/src/base_encoding/base-encoding-internal.c
+++ b/src/base_encoding/base-encoding-internal.c
@@ -23,7 +23,7 @@ size_t transform(const pgfe_encode_t input[], size_t length, uint8_t chunk_size,
 
     const uint8_t chunk_mask = __mkmask(chunk_size);
 
-    for (low = 0, high = chunk_size % __bitsz; inp - input <= length; inp++, op++) {
+    for (low = 0, high = chunk_size % __bitsz; inp - input < length; inp++, op++) {
         if (low < high) {
             *op = ((*inp) >> (__bitsz - high)) & chunk_mask;
             inp--;
-- 
2.43.0


From 64aa154964f3775cec1ff8cb1f2a25c27302f2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 18/30] fix: base encoding turns zero data bits at the end into
 padding

---
 src/base_encoding/base-encoding-internal.c | 13 +++----------
 src/base_encoding/base-encoding-internal.h |  2 +-
 2 files changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/base_encoding/base-encoding-internal.c b/src/base_encoding/base-encoding-internal.c
index 3b103f2..c87bef7 100644
--- a/src/base_encoding/base-encoding-internal.c
+++ b/src/base_encoding/base-encoding-internal.c
@@ -49,7 +49,7 @@ size_t transform(const pgfe_encode_t input[], size_t length, uint8_t chunk_size,
 
 size_t unittostr(
     size_t chunk_count, size_t unit_size, size_t bit_size, size_t alphabet_size, const char alphabet[],
-    const pgfe_encode_t unit[], char out[], bool padding
+    const pgfe_encode_t unit[], char out[], size_t missing
 ) {
     char unit_s[chunk_count];
     pgfe_encode_t unit_split[chunk_count];
@@ -60,15 +60,8 @@ size_t unittostr(
         unit_s[i] = alphabet[unit_split[i]];
     }
 
-    if (padding) {
-        for (i = chunk_count - 1; i >= 0; i--) {
-            if (unit_s[i] != alphabet[0]) {
-                break;
-            }
-
-            unit_s[i] = alphabet[alphabet_size];
-        }
-    }
+    // Pad only the characters that carry no bit of the input
+    memset(unit_s + chunk_count - missing * __bitsz / bit_size, alphabet[alphabet_size], missing * __bitsz / bit_size);
 
     memcpy(out, unit_s, chunk_count);
     return chunk_count;
diff --git a/src/base_encoding/base-encoding-internal.h b/src/base_encoding/base-encoding-internal.h
index 2f9ff7d..b4cd9d1 100644
--- a/src/base_encoding/base-encoding-internal.h
+++ b/src/base_encoding/base-encoding-internal.h
@@ -36,7 +36,7 @@ pgfe_encode_t decode_base16_char(char base16_c);
 
 size_t transform(const pgfe_encode_t input[], size_t length, uint8_t chunk_size, pgfe_encode_t out[]);
 
-size_t unittostr(PGFE_BASE_PARAMS_DEF, const char alphabet[], const pgfe_encode_t unit[], char out[], bool padding);
+size_t unittostr(PGFE_BASE_PARAMS_DEF, const char alphabet[], const pgfe_encode_t unit[], char out[], size_t missing);
 
 size_t encode_base_generic(
     PGFE_BASE_PARAMS_DEF, const char alphabet[], const pgfe_encode_t input[], size_t input_length, char cs_out[]
-- 
2.43.0


From cf46fa09d18f468b5c9e9e9a06f350bd8c2073de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 19/30] fix: base decoding loses zero bytes, decodes padding as
 data and underflows on empty text

---
 src/base_encoding/base-encoding-internal.c | 51 ++++++++++------------
 src/base_encoding/base-encoding-internal.h |  2 +-
 2 files changed, 23 insertions(+), 30 deletions(-)

diff --git a/src/base_encoding/base-encoding-internal.c b/src/base_encoding/base-encoding-internal.c
index c87bef7..bd1ddab 100644
--- a/src/base_encoding/base-encoding-internal.c
+++ b/src/base_encoding/base-encoding-internal.c
@@ -96,46 +96,39 @@ size_t encode_base_generic(
 
 size_t
 decode_base_generic(PGFE_BASE_PARAMS_DEF, pgfe_encode_t (*func)(char), const char basexx_cs[], pgfe_encode_t output[]) {
-    pgfe_encode_t *op, ch, sig, o_unit[unit_size];
-    const char *sp = basexx_cs;
-    size_t i, j;
-    uint64_t u;
+    pgfe_encode_t *op = output, ch;
+    const char *sp;
+    size_t i = 0, j;
+    uint64_t u = 0;
     const uint8_t mask = __mkmask(bit_size);
 
-    u = 0;
-    op = output;
-    while (*sp) {
-        for (i = 0; *sp && i < chunk_count; sp++) {
-            ch = func(*sp);
-            sig = ch & 0xC0;
+    for (sp = basexx_cs; *sp; sp++) {
+        ch = func(*sp);
 
-            if (sig == UNKNOWN_CODE) {
-                continue;
-            }
-
-            u = (u << bit_size) | (ch & mask);
-
-            i++;
+        if (ch == UNKNOWN_CODE) {
+            continue;
         }
 
-        if (!*sp && i < chunk_count) {
-            u <<= bit_size * (chunk_count - i);
+        if (ch == PADDING_CODE) {
+            break;
         }
 
-        for (j = 0; j < unit_size; j++) {
-            o_unit[j] = (pgfe_encode_t)((u >> (__bitsz * (unit_size - j - 1))) & 0xFF);
-        }
+        u = (u << bit_size) | (ch & mask);
 
-        memcpy(op, o_unit, unit_size);
-        op += unit_size;
+        if (++i == chunk_count) {
+            for (j = 0; j < unit_size; j++) {
+                *(op++) = (pgfe_encode_t)(u >> (__bitsz * (unit_size - j - 1)));
+            }
+            i = 0;
+        }
     }
 
-    // Determine end of the output
-    op -= unit_size;
-    for (i = 0; i < unit_size && op[i] == o_unit[i] && op[i]; i++)
-        ;
+    // The last unit may be incomplete: only whole bytes belong to the output
+    u <<= bit_size * (chunk_count - i);
+    for (j = 0; j < i * bit_size / __bitsz; j++) {
+        *(op++) = (pgfe_encode_t)(u >> (__bitsz * (unit_size - j - 1)));
+    }
 
-    op += i;
     *op = 0;
     return op - output;
 }
\ No newline at end of file
diff --git a/src/base_encoding/base-encoding-internal.h b/src/base_encoding/base-encoding-internal.h
index b4cd9d1..bef25fc 100644
--- a/src/base_encoding/base-encoding-internal.h
+++ b/src/base_encoding/base-encoding-internal.h
@@ -18,7 +18,7 @@
 extern "C" {
 #endif
 
-#define PADDING_CODE (0x00)
+#define PADDING_CODE (0x80)
 #define UNKNOWN_CODE (0xC0)
 
 #define PGFE_BASE_PARAMS(upper)                                                                                        \
-- 
2.43.0


From 44ac41434334e7888adb099762bdf0a82a386f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 20/30] fix: base codec objects stay locked when an allocation
 throws

---
 src/base_encoding/abstract_base_encoding.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/base_encoding/abstract_base_encoding.cpp b/src/base_encoding/abstract_base_encoding.cpp
index a03a2dc..95e586e 100644
--- a/src/base_encoding/abstract_base_encoding.cpp
+++ b/src/base_encoding/abstract_base_encoding.cpp
@@ -23,7 +23,7 @@ void AbstractBaseEncoding::init() {
 std::string AbstractBaseEncoding::encode(const pgfe_encode_t *pgfe_c_seq, size_t length) {
     size_t sz = (size_t)ceil(length * ((double)to_bit(sizeof(pgfe_encode_t)) / (double)bitsz) * PGFE_SPACE_MULTIPLE);
 
-    enc_mutex.lock();
+    std::lock_guard<std::mutex> lock(enc_mutex);
     if (encsz <= sz) {
         en_cache = std::make_unique<char[]>(sz + 1);
         encsz = sz;
@@ -34,7 +34,6 @@ std::string AbstractBaseEncoding::encode(const pgfe_encode_t *pgfe_c_seq, size_t
     en_cache[sz] = 0;
 
     std::string str(p);
-    enc_mutex.unlock();
     return str;
 }
 
@@ -54,7 +53,7 @@ SequentialData AbstractBaseEncoding::decode(const char *base_cs) {
     size_t sz =
         (size_t)ceil(strlen(base_cs) * ((double)bitsz / (double)to_bit(sizeof(pgfe_encode_t))) * PGFE_SPACE_MULTIPLE);
 
-    dec_mutex.lock();
+    std::lock_guard<std::mutex> lock(dec_mutex);
     if (decsz <= sz) {
         de_cache = std::make_unique<pgfe_encode_t[]>(sz);
         decsz = sz;
@@ -65,7 +64,6 @@ SequentialData AbstractBaseEncoding::decode(const char *base_cs) {
     de_cache[sz] = 0;
 
     SequentialData sd(p, sz);
-    dec_mutex.unlock();
     return sd;
 }
 
-- 
2.43.0


From 8aafebb4d2cf2c3b9c10519e9c7bd0641a6473ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 21/30] fix: hex parsing reads around empty strings and
 mispairs digits after other characters

---
 src/core/utils.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/core/utils.c b/src/core/utils.c
index 7fa55f6..73cf1bc 100644
--- a/src/core/utils.c
+++ b/src/core/utils.c
@@ -27,23 +27,21 @@ size_t pgfe_hash_to_hex_string(const pgfe_encode_t hash[], size_t hash_length, c
 }
 
 size_t pgfe_hex_string_to_hash(const char hash_s[], pgfe_encode_t hash_out[]) {
-    short pos;
-    size_t hash_str_len = strlen(hash_s);
+    short pos = 0;
     pgfe_encode_t hexu = 0, tmp_o, *op;
-    char *sp = (char *)hash_s, tpc;
+    const char *sp = hash_s, *dp;
 
-    tpc = hash_s[1];
-    if (hash_str_len >= 2 && (tpc == 'x' || tpc == 'X')) {
+    if (hash_s[0] && (hash_s[1] == 'x' || hash_s[1] == 'X')) {
         sp += 2;
-        hash_str_len -= 2;
     }
 
-    tpc = sp[hash_str_len - 1];
-    if (tpc == 'h' || tpc == 'H') {
-        hash_str_len--;
+    // Only the parity of the digits matters, not that of other characters
+    for (dp = sp; *dp; dp++) {
+        ch2hex(*dp, &tmp_o);
+        pos ^= tmp_o != PGFE_HEX_UNKNOWN_CHAR;
     }
 
-    for (op = hash_out, pos = hash_str_len % 2; *sp; sp++) {
+    for (op = hash_out; *sp; sp++) {
         ch2hex(*sp, &tmp_o);
 
         if (tmp_o == PGFE_HEX_UNKNOWN_CHAR) {
-- 
2.43.0


From 21f076f62793709a27e2ed75ec5d009cd2497b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 22/30] fix: hex conversions of large data overflow the stack

---
 src/core/sequential_data.cpp |  5 ++---
 src/core/utils.c             | 15 +++++++++++----
 src/core/utils.cpp           |  7 ++++---
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/core/sequential_data.cpp b/src/core/sequential_data.cpp
index 69d8c60..037e3f4 100644
--- a/src/core/sequential_data.cpp
+++ b/src/core/sequential_data.cpp
@@ -33,9 +33,8 @@ std::string SequentialData::to_str(bool auto_hex) const {
 
 std::string SequentialData::hex_str() const {
     size_t sz = this->length();
-    char hex_str[sz * 2 + 1];
-    pgfe_hash_to_hex_string(this->c_str(), sz, hex_str);
-    std::string s(hex_str);
+    std::string s(sz * 2, 0);
+    pgfe_hash_to_hex_string(this->c_str(), sz, &s[0]);
     return s;
 }
 
diff --git a/src/core/utils.c b/src/core/utils.c
index 73cf1bc..79eed15 100644
--- a/src/core/utils.c
+++ b/src/core/utils.c
@@ -99,11 +99,18 @@ inline size_t pgfe_hash_string_clean_(char hash_s[]) {
 }
 
 size_t pgfe_hash_length(const char hash_s[]) {
-    size_t len = strlen(hash_s);
-    char s[len + 1];
+    size_t len = 0;
+    pgfe_encode_t h;
+    const char *sp = hash_s;
+
+    if (hash_s[0] && (hash_s[1] == 'x' || hash_s[1] == 'X')) {
+        sp += 2;
+    }
 
-    pgfe_hash_string_clean(hash_s, s);
-    len = strlen(s);
+    for (; *sp; sp++) {
+        ch2hex(*sp, &h);
+        len += h != PGFE_HEX_UNKNOWN_CHAR;
+    }
 
     return len / 2 + len % 2;
 }
diff --git a/src/core/utils.cpp b/src/core/utils.cpp
index 9d24d9e..93fe41c 100644
--- a/src/core/utils.cpp
+++ b/src/core/utils.cpp
@@ -8,6 +8,7 @@
 #include "libpgfe/utils.hpp"
 
 #include <cstring>
+#include <memory>
 
 #include "libpgfe/utils.h"
 
@@ -28,12 +29,12 @@ SequentialData *to_sequential_data(std::string &cpp_s) {
 
 SequentialData *sequential_data::from_hex_string(const char *hex_cs) {
     size_t s_sz = strlen(hex_cs), sz = s_sz / 2 + s_sz % 2;
-    pgfe_encode_t h_out[sz + 1];
+    auto h_out = std::make_unique<pgfe_encode_t[]>(sz + 1);
 
-    sz = pgfe_hex_string_to_hash(hex_cs, h_out);
+    sz = pgfe_hex_string_to_hash(hex_cs, h_out.get());
     h_out[sz] = 0;
 
-    return to_sequential_data(h_out, sz);
+    return to_sequential_data(h_out.get(), sz);
 }
 
 SequentialData *sequential_data::from_hex_string(std::string &hex_cpps) {
-- 
2.43.0


From db6e2fd92b0c8f131de644ffc7bc0290df9c3183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 23/30] fix: the in-place trim functions of SequentialData
 cannot be linked

---
 src/core/sequential_data.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/sequential_data.cpp b/src/core/sequential_data.cpp
index 037e3f4..bc7cf5f 100644
--- a/src/core/sequential_data.cpp
+++ b/src/core/sequential_data.cpp
@@ -65,15 +65,15 @@ SequentialData SequentialData::trim_right() {
     return sd;
 }
 
-inline void SequentialData::trim_() {
+void SequentialData::trim_() {
     trim_left_();
     trim_right_();
 }
 
-inline void SequentialData::trim_left_() {
+void SequentialData::trim_left_() {
     erase(0, find_first_not_of(ws));
 }
 
-inline void SequentialData::trim_right_() {
+void SequentialData::trim_right_() {
     erase(find_last_not_of(ws) + 1, length());
 }
\ No newline at end of file
-- 
2.43.0


From 6efad5ecc4c356cd8770ebfb90a42b6644853164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 24/30] fix: trimming SequentialData never removes anything

---
 src/core/sequential_data.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/sequential_data.cpp b/src/core/sequential_data.cpp
index bc7cf5f..16e3697 100644
--- a/src/core/sequential_data.cpp
+++ b/src/core/sequential_data.cpp
@@ -71,9 +71,9 @@ void SequentialData::trim_() {
 }
 
 void SequentialData::trim_left_() {
-    erase(0, find_first_not_of(ws));
+    erase(0, find_first_not_of(ws, 0, 1));
 }
 
 void SequentialData::trim_right_() {
-    erase(find_last_not_of(ws) + 1, length());
+    erase(find_last_not_of(ws, npos, 1) + 1, length());
 }
\ No newline at end of file
-- 
2.43.0


From 7a890e3458be9b6f5231ccc865ed09577c96c257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 25/30] fix: TOTP returns stale codes after the clock moves
 back or the settings change

---
 src/otp/totp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/otp/totp.cpp b/src/otp/totp.cpp
index 3d23e64..2ca0f81 100644
--- a/src/otp/totp.cpp
+++ b/src/otp/totp.cpp
@@ -70,11 +70,11 @@ time_t TOTP::remaining_time() const {
 }
 
 pgfe_otp_t TOTP::generate(uint8_t digit_count) {
-    if (remaining_time() <= 0) update_counter();
+    update_counter();
     return this->HOTP::generate(digit_count);
 }
 
 std::string TOTP::generate_str(uint8_t digit_count) {
-    if (remaining_time() <= 0) update_counter();
+    update_counter();
     return this->HOTP::generate_str(digit_count);
 }
-- 
2.43.0


From 978b7e851e683d8d580d821048a68e45ff8c69e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 26/30] fix: TOTP objects ignore the clock when used through
 HOTP or AbstractOTP

---
 include/libpgfe/otp/hotp.hpp |  5 +++--
 include/libpgfe/otp/totp.hpp | 12 +++++++-----
 src/otp/totp.cpp             |  9 ++++-----
 3 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/include/libpgfe/otp/hotp.hpp b/include/libpgfe/otp/hotp.hpp
index eaf047f..7957101 100644
--- a/include/libpgfe/otp/hotp.hpp
+++ b/include/libpgfe/otp/hotp.hpp
@@ -24,11 +24,12 @@ private:
     std::unique_ptr<SequentialData> secret;
     size_t digsz, blocksz;
 
-    pgfe_otp_counter_t co = 0;
-
     Base32 base32;
 
 protected:
+    // TOTP derives it from the clock when generating
+    mutable pgfe_otp_counter_t co = 0;
+
     void after_change_alg() override;
 
 public:
diff --git a/include/libpgfe/otp/totp.hpp b/include/libpgfe/otp/totp.hpp
index 93d6c31..164ec3c 100644
--- a/include/libpgfe/otp/totp.hpp
+++ b/include/libpgfe/otp/totp.hpp
@@ -20,11 +20,13 @@ class TOTP : public HOTP
 {
 private:
     pgfe_totp_interval_t _interval;
-    time_t _initial_time = 0, _update_time = 0;
+    time_t _initial_time = 0;
 
-    pgfe_totp_delta_t delta = 0;
+    // Set by generating
+    mutable time_t _update_time = 0;
+    mutable pgfe_totp_delta_t delta = 0;
 
-    void update_counter();
+    void update_counter() const;
 
 public:
     TOTP(pgfe_totp_interval_t = 30, pgfe_algorithm_choice = SHA1);
@@ -44,9 +46,9 @@ public:
 
     time_t remaining_time() const;
 
-    pgfe_otp_t generate(uint8_t digit_count = 6);
+    pgfe_otp_t generate(uint8_t digit_count = 6) const override;
 
-    std::string generate_str(uint8_t digit_count = 6);
+    std::string generate_str(uint8_t digit_count = 6) const override;
 };
 
 } // namespace libpgfe
diff --git a/src/otp/totp.cpp b/src/otp/totp.cpp
index 2ca0f81..ec0b84f 100644
--- a/src/otp/totp.cpp
+++ b/src/otp/totp.cpp
@@ -60,21 +60,20 @@ time_t TOTP::update_time() const {
     return _update_time;
 }
 
-void TOTP::update_counter() {
+void TOTP::update_counter() const {
     _update_time = curtime();
-    set_counter(calc_periodic_counter(_update_time, _interval, _initial_time, &delta));
+    co = calc_periodic_counter(_update_time, _interval, _initial_time, &delta);
 }
 
 time_t TOTP::remaining_time() const {
     return delta - (curtime() - _update_time);
 }
 
-pgfe_otp_t TOTP::generate(uint8_t digit_count) {
+pgfe_otp_t TOTP::generate(uint8_t digit_count) const {
     update_counter();
     return this->HOTP::generate(digit_count);
 }
 
-std::string TOTP::generate_str(uint8_t digit_count) {
-    update_counter();
+std::string TOTP::generate_str(uint8_t digit_count) const {
     return this->HOTP::generate_str(digit_count);
 }
-- 
2.43.0


From 0d09d89d6f9b5833d83ca1888075bb8933068563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 27/30] fix: HOTP with MD5 reads past the digest when
 truncating

---
 src/otp/otp-generic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/otp/otp-generic.c b/src/otp/otp-generic.c
index f8674a2..21b9f5e 100644
--- a/src/otp/otp-generic.c
+++ b/src/otp/otp-generic.c
@@ -11,7 +11,7 @@
 #define SIZE 4
 
 pgfe_otp_t dynamically_truncate(const pgfe_encode_t hash[], size_t length) {
-    uint8_t offset = hash[length - 1] & 0xF;
+    uint8_t offset = (hash[length - 1] & 0xF) % (length - SIZE + 1); // A digest below 19 bytes may not hold the window
     pgfe_otp_t code = 0;
 
     for (size_t i = 0; i < SIZE; i++) {
-- 
2.43.0


From bb05e56a50530da2612355fe94b7ace29f20d070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 28/30] fix: deleting an object through its abstract base does
 not run its destructor

---
 include/libpgfe/abstract_encoder.hpp                     | 2 ++
 include/libpgfe/abstract_symmetric_crypter.hpp           | 2 ++
 include/libpgfe/algorithm_selectable.hpp                 | 2 ++
 include/libpgfe/base_encoding/abstract_base_encoding.hpp | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/include/libpgfe/abstract_encoder.hpp b/include/libpgfe/abstract_encoder.hpp
index d7cdd22..9b8bb1b 100644
--- a/include/libpgfe/abstract_encoder.hpp
+++ b/include/libpgfe/abstract_encoder.hpp
@@ -23,6 +23,8 @@ namespace libpgfe {
 class AbstractEncoder
 {
 public:
+    virtual ~AbstractEncoder() = default;
+
     virtual void reset() {}
 
     virtual void update(const pgfe_encode_t sequence[], size_t length) {}
diff --git a/include/libpgfe/abstract_symmetric_crypter.hpp b/include/libpgfe/abstract_symmetric_crypter.hpp
index 7de5e7d..535e5fd 100644
--- a/include/libpgfe/abstract_symmetric_crypter.hpp
+++ b/include/libpgfe/abstract_symmetric_crypter.hpp
@@ -20,6 +20,8 @@ namespace libpgfe {
 class AbstractSymmetricCrypter
 {
 public:
+    virtual ~AbstractSymmetricCrypter() = default;
+
     SequentialData encrypt(const std::string &);
     virtual SequentialData encrypt(const pgfe_encode_t *, size_t) {
         return SequentialData();
diff --git a/include/libpgfe/algorithm_selectable.hpp b/include/libpgfe/algorithm_selectable.hpp
index 361a6d7..b0c51ec 100644
--- a/include/libpgfe/algorithm_selectable.hpp
+++ b/include/libpgfe/algorithm_selectable.hpp
@@ -30,6 +30,8 @@ protected:
     void select_algorithm(pgfe_algorithm_choice choice);
 
 public:
+    virtual ~AlgorithmSelectable() = default;
+
     pgfe_algorithm_choice algorithm() const;
 };
 } // namespace libpgfe
diff --git a/include/libpgfe/base_encoding/abstract_base_encoding.hpp b/include/libpgfe/base_encoding/abstract_base_encoding.hpp
index 4aef6a6..34ec753 100644
--- a/include/libpgfe/base_encoding/abstract_base_encoding.hpp
+++ b/include/libpgfe/base_encoding/abstract_base_encoding.hpp
@@ -49,6 +49,8 @@ protected:
     void init();
 
 public:
+    virtual ~AbstractBaseEncoding() = default;
+
     std::string encode(const pgfe_encode_t *, size_t);
     std::string encode(const char *);
     std::string encode(const std::string &);
-- 
2.43.0


From f8b7e171e49a7744a73e6c32adadc131edc98336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:50 +0000
Subject: [PATCH 29/30] fix: the library does not compile because <stdarg.h> is
 missing

---
 src/hashes/templates.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hashes/templates.h b/src/hashes/templates.h
index 079142b..1dd87cb 100644
--- a/src/hashes/templates.h
+++ b/src/hashes/templates.h
@@ -10,6 +10,8 @@
 #ifndef LIBPGFE_TEMPLATES_H
 #define LIBPGFE_TEMPLATES_H
 
+#include <stdarg.h>
+
 #ifdef __cplusplus
 extern "C" {
 #endif
-- 
2.43.0


From 59c1cb47098084f407fb8c9cd74b24d7d33f3d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:58 +0000
Subject: [PATCH 30/30] fix: otp/types.h includes the header that declares the
 types it uses

---
 include/libpgfe/otp/types.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/libpgfe/otp/types.h b/include/libpgfe/otp/types.h
index 8c9dabf..4e38c72 100644
--- a/include/libpgfe/otp/types.h
+++ b/include/libpgfe/otp/types.h
@@ -1,6 +1,8 @@
 #ifndef LIBPGFE_OTP_TYPES_H
 #define LIBPGFE_OTP_TYPES_H
 
+#include "libpgfe/generic.h"
+
 #ifdef __cplusplus
 extern "C" {
 #endif
-- 
2.43.0

