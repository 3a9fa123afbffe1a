From 3f6f65ddacec1dcbf2570b05d54f9dd0ba826df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 01/27] fix: clear the block buffer before the length block in
 SHA-1/SHA-2 padding

When the message leaves fewer than 8 (SHA-384/512: 16) bytes for the
length field, padding spills into a second block. That block kept the
message bytes of the first one instead of zeros, so every digest of a
message of 56..63 (112..127) bytes modulo the block size was wrong.
---
 src/hashes/sha1.c         | 1 +
 src/hashes/sha2-backend.c | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/hashes/sha1.c b/src/hashes/sha1.c
index bdb7758..a1abcb3 100644
--- a/src/hashes/sha1.c
+++ b/src/hashes/sha1.c
@@ -95,6 +95,7 @@ static void sha1_padding(struct pgfe_sha1_ctx *ctx) {
         memset(ctx->block + ctx->index, 0, PGFE_SHA1_BLOCK_SIZE - ctx->index);
         ctx->index = PGFE_SHA1_BLOCK_SIZE;
         sha1_process_block(ctx);
+        memset(ctx->block, 0, 56);
     }
     else if (ctx->index < 56) {
         memset(ctx->block + ctx->index, 0, 56 - ctx->index);
diff --git a/src/hashes/sha2-backend.c b/src/hashes/sha2-backend.c
index 57677c0..d08239c 100644
--- a/src/hashes/sha2-backend.c
+++ b/src/hashes/sha2-backend.c
@@ -82,6 +82,7 @@ void sha224n256_padding(struct pgfe_sha256_ctx *ctx) {
         memset(ctx->block + ctx->index, 0, PGFE_SHA256_BLOCK_SIZE - ctx->index);
         ctx->index = PGFE_SHA256_BLOCK_SIZE;
         sha256_process_block(ctx);
+        memset(ctx->block, 0, 56);
     }
     else if (ctx->index < 56) {
         memset(ctx->block + ctx->index, 0, 56 - ctx->index);
@@ -222,6 +223,7 @@ void sha384n512_padding(struct pgfe_sha512_ctx *ctx, pgfe_encode_t padding_byte)
         memset(&ctx->block[ctx->index], 0, PGFE_SHA512_BLOCK_SIZE - ctx->index);
         ctx->index = PGFE_SHA512_BLOCK_SIZE;
         sha384n512_process_block(ctx);
+        memset(ctx->block, 0, 112);
     }
     else if (ctx->index < 112) {
         memset(&ctx->block[ctx->index], 0, 112 - ctx->index);
-- 
2.43.0


From b463b9ac2190a97c0a3f8fd792226941374c0187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 02/27] fix: release the base encoder mutexes when an
 allocation throws

encode()/decode() locked and unlocked by hand, so a std::bad_alloc in
between left the mutex held and the next call on the object deadlocked.
---
 src/base_encoding/abstract_base_encoding.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/base_encoding/abstract_base_encoding.cpp b/src/base_encoding/abstract_base_encoding.cpp
index a03a2dc..2174edd 100644
--- a/src/base_encoding/abstract_base_encoding.cpp
+++ b/src/base_encoding/abstract_base_encoding.cpp
@@ -23,7 +23,7 @@ void AbstractBaseEncoding::init() {
 std::string AbstractBaseEncoding::encode(const pgfe_encode_t *pgfe_c_seq, size_t length) {
     size_t sz = (size_t)ceil(length * ((double)to_bit(sizeof(pgfe_encode_t)) / (double)bitsz) * PGFE_SPACE_MULTIPLE);
 
-    enc_mutex.lock();
+    std::lock_guard<std::mutex> guard(enc_mutex);
     if (encsz <= sz) {
         en_cache = std::make_unique<char[]>(sz + 1);
         encsz = sz;
@@ -34,7 +34,6 @@ std::string AbstractBaseEncoding::encode(const pgfe_encode_t *pgfe_c_seq, size_t
     en_cache[sz] = 0;
 
     std::string str(p);
-    enc_mutex.unlock();
     return str;
 }
 
@@ -54,7 +53,7 @@ SequentialData AbstractBaseEncoding::decode(const char *base_cs) {
     size_t sz =
         (size_t)ceil(strlen(base_cs) * ((double)bitsz / (double)to_bit(sizeof(pgfe_encode_t))) * PGFE_SPACE_MULTIPLE);
 
-    dec_mutex.lock();
+    std::lock_guard<std::mutex> guard(dec_mutex);
     if (decsz <= sz) {
         de_cache = std::make_unique<pgfe_encode_t[]>(sz);
         decsz = sz;
@@ -65,7 +64,6 @@ SequentialData AbstractBaseEncoding::decode(const char *base_cs) {
     de_cache[sz] = 0;
 
     SequentialData sd(p, sz);
-    dec_mutex.unlock();
     return sd;
 }
 
-- 
2.43.0


From 6dfd89e390cbc08742b54619052242c7e98ae530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 03/27] fix: keep the base encoding unit split inside its
 buffers

transform() ran one step past the input unit, reading one byte and
writing at least two bytes beyond the caller's arrays.
---
 src/base_encoding/base-encoding-internal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base_encoding/base-encoding-internal.c b/src/base_encoding/base-encoding-internal.c
index 9d21d79..01594c8 100644
--- a/src/base_encoding/base-encoding-internal.c
+++ b/src/base_encoding/base-encoding-internal.c
@@ -23,7 +23,7 @@ size_t transform(const pgfe_encode_t input[], size_t length, uint8_t chunk_size,
 
     const uint8_t chunk_mask = __mkmask(chunk_size);
 
-    for (low = 0, high = chunk_size % __bitsz; inp - input <= length; inp++, op++) {
+    for (low = 0, high = chunk_size % __bitsz; (size_t)(op - out) < length * __bitsz / chunk_size; inp++, op++) {
         if (low < high) {
             *op = ((*inp) >> (__bitsz - high)) & chunk_mask;
             inp--;
-- 
2.43.0


From 02e9b9a71d7c773fa988b329bd64c402566e73d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 04/27] fix: pad and unpad base encodings by length, not by
 zero digits

The encoder turned trailing zero digits of the last unit into padding and
the decoder cut the last unit at its first zero byte, so data with zero
bytes in the last unit did not round-trip (RFC 4648). An empty or
ignorable-only text made the decoder read and write before the output
buffer and return a bogus length.
---
 src/base_encoding/base-encoding-internal.c | 28 ++++++++++------------
 src/base_encoding/base-encoding-internal.h |  4 ++--
 2 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/base_encoding/base-encoding-internal.c b/src/base_encoding/base-encoding-internal.c
index 01594c8..0b26295 100644
--- a/src/base_encoding/base-encoding-internal.c
+++ b/src/base_encoding/base-encoding-internal.c
@@ -49,7 +49,7 @@ size_t transform(const pgfe_encode_t input[], size_t length, uint8_t chunk_size,
 
 size_t unittostr(
     size_t chunk_count, size_t unit_size, size_t bit_size, size_t alphabet_size, const char alphabet[],
-    const pgfe_encode_t unit[], char out[], bool padding
+    const pgfe_encode_t unit[], char out[], size_t padding
 ) {
     char unit_s[chunk_count];
     pgfe_encode_t unit_split[chunk_count];
@@ -61,11 +61,8 @@ size_t unittostr(
     }
 
     if (padding) {
-        for (i = chunk_count - 1; i >= 0; i--) {
-            if (unit_s[i] != alphabet[0]) {
-                break;
-            }
-
+        // The padding begins after the last character that carries input bits
+        for (i = ((unit_size - padding) * __bitsz + bit_size - 1) / bit_size; i < chunk_count; i++) {
             unit_s[i] = alphabet[alphabet_size];
         }
     }
@@ -105,14 +102,14 @@ size_t
 decode_base_generic(PGFE_BASE_PARAMS_DEF, pgfe_encode_t (*func)(char), const char basexx_cs[], pgfe_encode_t output[]) {
     pgfe_encode_t *op, ch, sig, o_unit[unit_size];
     const char *sp = basexx_cs;
-    size_t i, j;
+    size_t i, j, digits, length;
     uint64_t u;
     const uint8_t mask = __mkmask(bit_size);
 
     u = 0;
     op = output;
     while (*sp) {
-        for (i = 0; *sp && i < chunk_count; sp++) {
+        for (i = digits = 0; *sp && i < chunk_count; sp++) {
             ch = func(*sp);
             sig = ch & 0xC0;
 
@@ -123,6 +120,9 @@ decode_base_generic(PGFE_BASE_PARAMS_DEF, pgfe_encode_t (*func)(char), const cha
             u = (u << bit_size) | (ch & mask);
 
             i++;
+            if (sig != PADDING_CODE) {
+                digits++;
+            }
         }
 
         if (!*sp && i < chunk_count) {
@@ -133,16 +133,12 @@ decode_base_generic(PGFE_BASE_PARAMS_DEF, pgfe_encode_t (*func)(char), const cha
             o_unit[j] = (pgfe_encode_t)((u >> (__bitsz * (unit_size - j - 1))) & 0xFF);
         }
 
-        memcpy(op, o_unit, unit_size);
-        op += unit_size;
+        // Only bytes fully covered by non-padding characters belong to the output
+        length = digits * bit_size / __bitsz;
+        memcpy(op, o_unit, length);
+        op += length;
     }
 
-    // Determine end of the output
-    op -= unit_size;
-    for (i = 0; i < unit_size && op[i] == o_unit[i] && op[i]; i++)
-        ;
-
-    op += i;
     *op = 0;
     return op - output;
 }
\ No newline at end of file
diff --git a/src/base_encoding/base-encoding-internal.h b/src/base_encoding/base-encoding-internal.h
index 2f9ff7d..cbf1f1c 100644
--- a/src/base_encoding/base-encoding-internal.h
+++ b/src/base_encoding/base-encoding-internal.h
@@ -18,7 +18,7 @@
 extern "C" {
 #endif
 
-#define PADDING_CODE (0x00)
+#define PADDING_CODE (0x80)
 #define UNKNOWN_CODE (0xC0)
 
 #define PGFE_BASE_PARAMS(upper)                                                                                        \
@@ -36,7 +36,7 @@ pgfe_encode_t decode_base16_char(char base16_c);
 
 size_t transform(const pgfe_encode_t input[], size_t length, uint8_t chunk_size, pgfe_encode_t out[]);
 
-size_t unittostr(PGFE_BASE_PARAMS_DEF, const char alphabet[], const pgfe_encode_t unit[], char out[], bool padding);
+size_t unittostr(PGFE_BASE_PARAMS_DEF, const char alphabet[], const pgfe_encode_t unit[], char out[], size_t padding);
 
 size_t encode_base_generic(
     PGFE_BASE_PARAMS_DEF, const char alphabet[], const pgfe_encode_t input[], size_t input_length, char cs_out[]
-- 
2.43.0


From b495b6cb5d3990509922e4024f367b7e1dd151b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 05/27] fix: ignore empty pieces in pgfe_md5_update

With length 0 the function tested uninitialised variables and could run a
spurious transform over the block buffer.
---
 src/hashes/md5.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashes/md5.c b/src/hashes/md5.c
index f6ceaf8..4a90d52 100644
--- a/src/hashes/md5.c
+++ b/src/hashes/md5.c
@@ -30,7 +30,7 @@ void pgfe_md5_init(struct pgfe_md5_ctx *ctx) {
 }
 
 void pgfe_md5_update(struct pgfe_md5_ctx *ctx, const pgfe_encode_t input[], size_t length) {
-    if (!ctx || !input) return;
+    if (!ctx || !input || !length) return;
 
     size_t read_len, written_len, remainder, offset;
     const pgfe_encode_t *p;
-- 
2.43.0


From 401d6879301871a8a779376cdbd3bfb7ea056c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 06/27] fix: hash HMAC keys longer than the block size

Such keys were cut to one block, which contradicts RFC 2104 and makes keys
sharing their first block equivalent.
---
 src/hmac/hmac.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/hmac/hmac.c b/src/hmac/hmac.c
index 3474c27..ac10a42 100644
--- a/src/hmac/hmac.c
+++ b/src/hmac/hmac.c
@@ -21,6 +21,13 @@
     void pgfe_hmac_##name##_set_key(                                                                                   \
         struct pgfe_hmac_##name##_ctx *ctx, const pgfe_encode_t key[], size_t key_length                               \
     ) {                                                                                                                \
+        pgfe_encode_t key_hash[PGFE_##upper##_DIGEST_SIZE];                                                            \
+        /* Keys longer than a block are replaced by their hash (RFC 2104) */                                           \
+        if (key_length > PGFE_##upper##_BLOCK_SIZE) {                                                                  \
+            pgfe_##name##_encode(key, key_length, key_hash);                                                           \
+            key = key_hash;                                                                                            \
+            key_length = PGFE_##upper##_DIGEST_SIZE;                                                                   \
+        }                                                                                                              \
         arrcpy(ctx->k_i_pad, PGFE_##upper##_BLOCK_SIZE, key, key_length);                                              \
         arrcpy(ctx->k_o_pad, PGFE_##upper##_BLOCK_SIZE, key, key_length);                                              \
         for (size_t i = 0; i < PGFE_##upper##_BLOCK_SIZE; i++) {                                                       \
-- 
2.43.0


From c7145bb9b364dd7afca59d8938d93566806da668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 07/27] fix: forget the deleted context in HashEncoder

reset() deletes the context before it allocates the new one. When that
allocation threw, the destructor (or the next reset) freed it again.
---
 src/hashes/hash_encoder.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hashes/hash_encoder.cpp b/src/hashes/hash_encoder.cpp
index e4c64a4..7b8cdcd 100644
--- a/src/hashes/hash_encoder.cpp
+++ b/src/hashes/hash_encoder.cpp
@@ -51,6 +51,7 @@ void HashEncoder::destroy_context() {
     if (!ctx) return;
 
     __PGFE_BATCH_CASES(cur_alg, CTX_DELETE)
+    ctx = nullptr;
 }
 
 void HashEncoder::before_change_alg() {
-- 
2.43.0


From b6c8579eb7d98c2d75e0a5b0f2bea6e8e5a0cf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 08/27] fix: size the Blowfish output buffers in whole blocks

length + length % 8 is smaller than the zero padded result for most
lengths, so encrypt() and decrypt() wrote past the heap buffer.
---
 src/fishes/blowfish.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fishes/blowfish.cpp b/src/fishes/blowfish.cpp
index a28e84b..7b738c8 100644
--- a/src/fishes/blowfish.cpp
+++ b/src/fishes/blowfish.cpp
@@ -25,7 +25,7 @@ Blowfish::Blowfish(const std::string &key) : Blowfish(key.c_str()) {}
 Blowfish::~Blowfish() {}
 
 SequentialData Blowfish::encrypt(const pgfe_encode_t *seq, size_t length) {
-    size_t sz = length + length % 8;
+    size_t sz = (length + 7) / 8 * 8;
     std::unique_ptr<pgfe_encode_t[]> output = std::make_unique<pgfe_encode_t[]>(sz);
 
     sz = pgfe_blowfish_encrypt(&ctx, seq, length, output.get());
@@ -33,7 +33,7 @@ SequentialData Blowfish::encrypt(const pgfe_encode_t *seq, size_t length) {
 }
 
 SequentialData Blowfish::decrypt(const pgfe_encode_t *seq, size_t length) {
-    size_t sz = length + length % 8;
+    size_t sz = (length + 7) / 8 * 8;
     std::unique_ptr<pgfe_encode_t[]> output = std::make_unique<pgfe_encode_t[]>(sz);
 
     sz = pgfe_blowfish_decrypt(&ctx, seq, length, output.get());
-- 
2.43.0


From 3083deaf9297be24611c8926a0a0611452f02ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 09/27] fix: use the whole std::string as Blowfish key

The key was cut at its first zero byte.
---
 src/fishes/blowfish.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fishes/blowfish.cpp b/src/fishes/blowfish.cpp
index 7b738c8..dd59299 100644
--- a/src/fishes/blowfish.cpp
+++ b/src/fishes/blowfish.cpp
@@ -20,7 +20,7 @@ Blowfish::Blowfish(const pgfe_encode_t *key, size_t length) {
     pgfe_blowfish_init(&ctx, key, length);
 }
 
-Blowfish::Blowfish(const std::string &key) : Blowfish(key.c_str()) {}
+Blowfish::Blowfish(const std::string &key) : Blowfish((const pgfe_encode_t *)key.c_str(), key.length()) {}
 
 Blowfish::~Blowfish() {}
 
-- 
2.43.0


From ce5910ff6f56ea28f84e63ea8def91d8f10520d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 10/27] fix: refresh the TOTP counter when the clock was set
 back

generate() kept returning the code of a future time step until the clock
reached the end of that step again.
---
 include/libpgfe/otp/totp.hpp |  1 +
 src/otp/totp.cpp             | 10 ++++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/libpgfe/otp/totp.hpp b/include/libpgfe/otp/totp.hpp
index 93d6c31..5e9570c 100644
--- a/include/libpgfe/otp/totp.hpp
+++ b/include/libpgfe/otp/totp.hpp
@@ -25,6 +25,7 @@ private:
     pgfe_totp_delta_t delta = 0;
 
     void update_counter();
+    void refresh_counter();
 
 public:
     TOTP(pgfe_totp_interval_t = 30, pgfe_algorithm_choice = SHA1);
diff --git a/src/otp/totp.cpp b/src/otp/totp.cpp
index 3d23e64..c515fbb 100644
--- a/src/otp/totp.cpp
+++ b/src/otp/totp.cpp
@@ -65,16 +65,22 @@ void TOTP::update_counter() {
     set_counter(calc_periodic_counter(_update_time, _interval, _initial_time, &delta));
 }
 
+void TOTP::refresh_counter() {
+    time_t remaining = remaining_time();
+    // More than delta remains only if the clock was set back
+    if (remaining <= 0 || remaining > delta) update_counter();
+}
+
 time_t TOTP::remaining_time() const {
     return delta - (curtime() - _update_time);
 }
 
 pgfe_otp_t TOTP::generate(uint8_t digit_count) {
-    if (remaining_time() <= 0) update_counter();
+    refresh_counter();
     return this->HOTP::generate(digit_count);
 }
 
 std::string TOTP::generate_str(uint8_t digit_count) {
-    if (remaining_time() <= 0) update_counter();
+    refresh_counter();
     return this->HOTP::generate_str(digit_count);
 }
-- 
2.43.0


From 5c198b6f581e4964f6104edfa53b78080374c0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 11/27] fix: recompute the TOTP counter after its time
 parameters change

set_interval() and set_initial_time() left the cached counter in place, so
generate() returned codes of the old parameters until the step ended.
---
 src/otp/totp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/otp/totp.cpp b/src/otp/totp.cpp
index c515fbb..64bcaa0 100644
--- a/src/otp/totp.cpp
+++ b/src/otp/totp.cpp
@@ -42,6 +42,7 @@ TOTP::~TOTP() {}
 
 void TOTP::set_interval(pgfe_totp_interval_t interval) {
     this->_interval = interval;
+    this->delta = 0;
 }
 
 pgfe_totp_interval_t TOTP::interval() const {
@@ -54,6 +55,7 @@ time_t TOTP::initial_time() const {
 
 void TOTP::set_initial_time(time_t _initial_time) {
     this->_initial_time = _initial_time;
+    this->delta = 0;
 }
 
 time_t TOTP::update_time() const {
-- 
2.43.0


From 301a4092862fa6bf40024845939966185e2174c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 12/27] fix: initialise algorithm, size and counter members

select_algorithm() compared with an uninitialised member and skipped the
set-up when stale memory happened to hold the same value; a HOTP object
without set_counter() generated the code of a random counter.
---
 include/libpgfe/algorithm_selectable.hpp         | 3 ++-
 include/libpgfe/hashes/abstract_hash_encoder.hpp | 2 +-
 include/libpgfe/otp/hotp.hpp                     | 4 ++--
 src/core/algorithm_selectable.cpp                | 3 ++-
 4 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/libpgfe/algorithm_selectable.hpp b/include/libpgfe/algorithm_selectable.hpp
index ad450c0..286f6ae 100644
--- a/include/libpgfe/algorithm_selectable.hpp
+++ b/include/libpgfe/algorithm_selectable.hpp
@@ -19,7 +19,8 @@ namespace libpgfe {
 class AlgorithmSelectable
 {
 protected:
-    pgfe_algorithm_choice cur_alg;
+    pgfe_algorithm_choice cur_alg = MD5;
+    bool alg_selected = false;
 
     virtual void before_change_alg() {}
     virtual void after_change_alg() {}
diff --git a/include/libpgfe/hashes/abstract_hash_encoder.hpp b/include/libpgfe/hashes/abstract_hash_encoder.hpp
index cc14795..78bed01 100644
--- a/include/libpgfe/hashes/abstract_hash_encoder.hpp
+++ b/include/libpgfe/hashes/abstract_hash_encoder.hpp
@@ -25,7 +25,7 @@ namespace libpgfe {
 class AbstractHashEncoder : public AbstractEncoder, public AlgorithmSelectable
 {
 protected:
-    size_t digsz, blocksz;
+    size_t digsz = 0, blocksz = 0;
 
 public:
     size_t digest_size() const {
diff --git a/include/libpgfe/otp/hotp.hpp b/include/libpgfe/otp/hotp.hpp
index b27b1f1..510b243 100644
--- a/include/libpgfe/otp/hotp.hpp
+++ b/include/libpgfe/otp/hotp.hpp
@@ -22,9 +22,9 @@ class HOTP : public AbstractOTP
 {
 private:
     std::unique_ptr<SequentialData> secret;
-    size_t digsz, blocksz;
+    size_t digsz = 0, blocksz = 0;
 
-    pgfe_otp_counter_t co;
+    pgfe_otp_counter_t co = 0;
 
     Base32 base32;
 
diff --git a/src/core/algorithm_selectable.cpp b/src/core/algorithm_selectable.cpp
index e0783d8..ca4fb44 100644
--- a/src/core/algorithm_selectable.cpp
+++ b/src/core/algorithm_selectable.cpp
@@ -10,10 +10,11 @@
 using namespace libpgfe;
 
 void AlgorithmSelectable::select_algorithm(pgfe_algorithm_choice choice) {
-    if (choice == cur_alg) return;
+    if (alg_selected && choice == cur_alg) return;
 
     before_change_alg();
     cur_alg = choice;
+    alg_selected = true;
     after_change_alg();
 }
 
-- 
2.43.0


From 4bd12163bc500387c7481766e7a0403cf51170e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 13/27] fix: keep Keccak absorb lengths in 64 bits

The pending length was cut to 32 bits and the queue check could wrap
around (compare CVE-2022-37454): one update of 512 MiB or more on a
non-empty queue looped forever or copied far beyond the queue.
---
 src/hashes/keccak-backend.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hashes/keccak-backend.c b/src/hashes/keccak-backend.c
index de66566..d027b62 100644
--- a/src/hashes/keccak-backend.c
+++ b/src/hashes/keccak-backend.c
@@ -163,7 +163,8 @@ static void padding(struct pgfe_keccak_sponge_ctx *ctx) {
 
 int keccak_absorb_b1600(struct pgfe_keccak_sponge_ctx *ctx, const pgfe_encode_t input[], uint64_t bit_len) {
     uint64_t i, j, whole_blocks;
-    uint32_t partial_block, partial_byte;
+    uint64_t partial_block;
+    uint32_t partial_byte;
     uint8_t mask;
     const pgfe_encode_t *cur_data;
 
@@ -182,7 +183,7 @@ int keccak_absorb_b1600(struct pgfe_keccak_sponge_ctx *ctx, const pgfe_encode_t
             i += whole_blocks * ctx->rate;
         }
         else {
-            partial_block = (uint32_t)(bit_len - i);
+            partial_block = bit_len - i;
             if (partial_block + ctx->inqueue_bits > ctx->rate) {
                 partial_block = ctx->rate - ctx->inqueue_bits;
             }
-- 
2.43.0


From f823e646e62d5430b2bf41979ee4d3be1bc856ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 14/27] fix: count SHA-1/SHA-2 update lengths in size_t

The int index overflowed on updates of 2 GiB and more.
---
 src/hashes/sha2-backend.c | 2 +-
 src/hashes/templates.h    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hashes/sha2-backend.c b/src/hashes/sha2-backend.c
index d08239c..a0aa1f7 100644
--- a/src/hashes/sha2-backend.c
+++ b/src/hashes/sha2-backend.c
@@ -196,7 +196,7 @@ void sha384n512_update(struct pgfe_sha512_ctx *ctx, const pgfe_encode_t input[],
     const pgfe_encode_t *inp = input;
     int corrupt_flag = 0, tmpflag;
     uint64_t tmp_low;
-    for (int i = 0; i < length && !corrupt_flag; i++) {
+    for (size_t i = 0; i < length && !corrupt_flag; i++) {
         ctx->block[ctx->index++] = *inp;
 
         tmp_low = ctx->len_low;
diff --git a/src/hashes/templates.h b/src/hashes/templates.h
index 88a9a2c..5b62e5d 100644
--- a/src/hashes/templates.h
+++ b/src/hashes/templates.h
@@ -139,7 +139,7 @@ extern "C" {
         const pgfe_encode_t *inp = input;                                                                              \
         int corrupt_flag = 0;                                                                                          \
         uint32_t tmp_low;                                                                                              \
-        for (int i = 0; i < length && !corrupt_flag; i++) {                                                            \
+        for (size_t i = 0; i < length && !corrupt_flag; i++) {                                                            \
             ctx->block[ctx->index++] = *inp;                                                                           \
                                                                                                                        \
             tmp_low = ctx->len_low;                                                                                    \
-- 
2.43.0


From 49615d62ec478700430815fe3ace5dc6fc564dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 15/27] fix: return no bytes for an empty hex string

pgfe_hex_string_to_hash("") read before and behind the string.
---
 src/core/utils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/utils.c b/src/core/utils.c
index 7fa55f6..85336d6 100644
--- a/src/core/utils.c
+++ b/src/core/utils.c
@@ -32,6 +32,8 @@ size_t pgfe_hex_string_to_hash(const char hash_s[], pgfe_encode_t hash_out[]) {
     pgfe_encode_t hexu = 0, tmp_o, *op;
     char *sp = (char *)hash_s, tpc;
 
+    if (!hash_str_len) return 0;
+
     tpc = hash_s[1];
     if (hash_str_len >= 2 && (tpc == 'x' || tpc == 'X')) {
         sp += 2;
-- 
2.43.0


From d1ed182c2dbb4b356b48ab2649a30d0e503e5c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 16/27] fix: hold the Keccak output length in 64 bits

SHAKE outputs of 2^32 bits and more were cut modulo 2^32 bits.
---
 include/libpgfe/hashes/sha3.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libpgfe/hashes/sha3.h b/include/libpgfe/hashes/sha3.h
index d35468a..70eef4a 100644
--- a/include/libpgfe/hashes/sha3.h
+++ b/include/libpgfe/hashes/sha3.h
@@ -27,7 +27,8 @@ struct pgfe_keccak_sponge_ctx
 {
     pgfe_keccak_bitcube_t state;                                    // Keccak sponge state array
     pgfe_encode_t data_queue[pgfe_to_byte(__PGFE_KECCAK_MAX_RATE)]; // Data queue
-    uint32_t rate, capacity, inqueue_bits, out_length;              // Rate, capacity, bits in queue, output bit length
+    uint32_t rate, capacity, inqueue_bits;                          // Rate, capacity, bits in queue
+    uint64_t out_length;                                            // Output bit length
     uint16_t nr;                                                    // Number of rounds (Usually 24)
     int squeezing;                                                  // Is squeezing
     unsigned int squeezable;                                        // Size of squeezable bits
-- 
2.43.0


From 5a69eeb4a7a6be83a9198f95ec8672e3d45e6cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 17/27] fix: output the last partial byte of a bit-length SHAKE
 digest

A digest of d bits with d % 8 != 0 left its last byte unwritten, so callers
read whatever memory was there.
---
 src/hashes/keccak-backend.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hashes/keccak-backend.c b/src/hashes/keccak-backend.c
index d027b62..21d7671 100644
--- a/src/hashes/keccak-backend.c
+++ b/src/hashes/keccak-backend.c
@@ -235,6 +235,10 @@ int keccak_squeeze_b1600(struct pgfe_keccak_sponge_ctx *ctx, pgfe_encode_t outpu
         }
 
         memcpy(output + to_byte(i), ctx->data_queue + to_byte(ctx->rate - ctx->squeezable), to_byte(partial_block));
+        if (bit_rem(partial_block)) {
+            output[to_byte(i + partial_block)] = ctx->data_queue[to_byte(ctx->rate - ctx->squeezable + partial_block)] &
+                                                 ((1 << bit_rem(partial_block)) - 1);
+        }
         ctx->squeezable -= partial_block;
         i += partial_block;
     }
-- 
2.43.0


From 387cb2c81675d7757483132ec2f052b5c1836a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 18/27] fix: give HashEncoder::get_digest a buffer of the
 digest size

The default SHAKE length was applied after the buffer had been sized (to
0), a truncated digest of a fixed-length algorithm was written in full
into the short buffer, and a bit length was rounded up by up to 7 bytes.
The buffer now is on the heap, because SHAKE outputs can be of any size.
---
 src/hashes/hash_encoder.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hashes/hash_encoder.cpp b/src/hashes/hash_encoder.cpp
index 7b8cdcd..77796ab 100644
--- a/src/hashes/hash_encoder.cpp
+++ b/src/hashes/hash_encoder.cpp
@@ -101,8 +101,6 @@ inline void HashEncoder::update(SequentialData &sd) {
 const SequentialData *HashEncoder::get_digest(uint64_t bitlength) {
     bool shake_flag = this->cur_alg == SHAKE128 || this->cur_alg == RawSHAKE128 || this->cur_alg == SHAKE256 ||
                       this->cur_alg == RawSHAKE256;
-    uint64_t in_len = to_byte(bitlength) + bit_rem(bitlength);
-
     if (!bitlength) {
         if (this->cur_alg == SHAKE128 || this->cur_alg == RawSHAKE128) {
             bitlength = 256;
@@ -112,8 +110,10 @@ const SequentialData *HashEncoder::get_digest(uint64_t bitlength) {
         }
     }
 
+    uint64_t in_len = to_byte(bitlength) + (bit_rem(bitlength) ? 1 : 0);
     size_t length = shake_flag ? in_len : in_len < digsz && bitlength ? in_len : digsz;
-    pgfe_encode_t seq[length];
+    auto buffer = std::make_unique<pgfe_encode_t[]>(shake_flag ? length : digsz);
+    pgfe_encode_t *seq = buffer.get();
 
     if (shake_flag) {
         __PGFE_BATCH_SHAKE_CASES(DIGEST_FUNC_CALL_LIMIT)
-- 
2.43.0


From 1c5fe617ebf92f90306eca56c3660a37bfc76d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 19/27] fix: keep the OTP truncation window inside short
 digests

HOTP/TOTP with MD5 read up to 3 bytes behind the 16 byte digest, so about
one code in five depended on stale stack memory.
---
 src/otp/otp-generic.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/otp/otp-generic.c b/src/otp/otp-generic.c
index f8674a2..f0aa1c3 100644
--- a/src/otp/otp-generic.c
+++ b/src/otp/otp-generic.c
@@ -11,7 +11,8 @@
 #define SIZE 4
 
 pgfe_otp_t dynamically_truncate(const pgfe_encode_t hash[], size_t length) {
-    uint8_t offset = hash[length - 1] & 0xF;
+    // Hashes shorter than 20 bytes (MD5) cannot hold every offset
+    uint8_t offset = (hash[length - 1] & 0xF) % (length - SIZE + 1);
     pgfe_otp_t code = 0;
 
     for (size_t i = 0; i < SIZE; i++) {
-- 
2.43.0


From fbf3eb66f9c8d4f9e168f40cc234d8617d3b1400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 20/27] fix: do not read the sequence length while another
 argument sets it

f(sd.to_pgfe_seq(sz), sz) leaves it to the compiler whether sz is read
before it is set. GCC reads it first, so keys, secrets and data given as
SequentialData had an indeterminate length.
---
 include/libpgfe/abstract_encoder.hpp | 3 +--
 src/hmac/hmac_encoder.cpp            | 3 +--
 src/otp/abstract_otp.cpp             | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/libpgfe/abstract_encoder.hpp b/include/libpgfe/abstract_encoder.hpp
index 766b137..d7cdd22 100644
--- a/include/libpgfe/abstract_encoder.hpp
+++ b/include/libpgfe/abstract_encoder.hpp
@@ -34,8 +34,7 @@ public:
         return update((const pgfe_encode_t *)cpp_s.c_str(), cpp_s.length());
     }
     virtual void update(SequentialData &sd) {
-        size_t sz;
-        update(sd.to_pgfe_seq(sz), sz);
+        update(sd.to_pgfe_seq(), sd.length());
     }
 
     virtual const SequentialData *get_digest() {
diff --git a/src/hmac/hmac_encoder.cpp b/src/hmac/hmac_encoder.cpp
index 5276ecd..2cc62a8 100644
--- a/src/hmac/hmac_encoder.cpp
+++ b/src/hmac/hmac_encoder.cpp
@@ -73,8 +73,7 @@ void HMACEncoder::set_key(std::string &cpp_s) {
 }
 
 void HMACEncoder::set_key(SequentialData &sd) {
-    size_t sz;
-    set_key(sd.to_pgfe_seq(sz), sz);
+    set_key(sd.to_pgfe_seq(), sd.length());
 }
 
 void HMACEncoder::update(const pgfe_encode_t sequence[], size_t length) {
diff --git a/src/otp/abstract_otp.cpp b/src/otp/abstract_otp.cpp
index 036d298..72be17d 100644
--- a/src/otp/abstract_otp.cpp
+++ b/src/otp/abstract_otp.cpp
@@ -20,8 +20,7 @@ void AbstractOTP::set_secret(const std::string &cpp_s) {
 }
 
 void AbstractOTP::set_secret(const SequentialData &sd) {
-    size_t sz;
-    set_secret(sd.to_pgfe_seq(sz), sz);
+    set_secret(sd.to_pgfe_seq(), sd.length());
 }
 
 std::string AbstractOTP::generate_str(uint8_t digit_count) const {
-- 
2.43.0


From 99f5a2b84eb10e9a98ae58d4b2d85450e036b80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:50 +0000
Subject: [PATCH 21/27] fix: a counter set on a TOTP object no longer outlives
 the next code

HOTP::set_counter is public in TOTP too. Called within a cached time step it
replaced the counter that the step had set, so that generate() returned a code
that was not current until the step ended.
---
 include/libpgfe/otp/totp.hpp | 2 ++
 src/otp/totp.cpp             | 8 +++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/libpgfe/otp/totp.hpp b/include/libpgfe/otp/totp.hpp
index 5e9570c..45b25e5 100644
--- a/include/libpgfe/otp/totp.hpp
+++ b/include/libpgfe/otp/totp.hpp
@@ -41,6 +41,8 @@ public:
     time_t initial_time() const;
     void set_initial_time(time_t);
 
+    void set_counter(pgfe_otp_counter_t) override;
+
     time_t update_time() const;
 
     time_t remaining_time() const;
diff --git a/src/otp/totp.cpp b/src/otp/totp.cpp
index 64bcaa0..d97f66a 100644
--- a/src/otp/totp.cpp
+++ b/src/otp/totp.cpp
@@ -58,13 +58,19 @@ void TOTP::set_initial_time(time_t _initial_time) {
     this->delta = 0;
 }
 
+void TOTP::set_counter(pgfe_otp_counter_t c) {
+    this->HOTP::set_counter(c);
+    // The cached step is gone: the next code takes its counter from the clock
+    this->delta = 0;
+}
+
 time_t TOTP::update_time() const {
     return _update_time;
 }
 
 void TOTP::update_counter() {
     _update_time = curtime();
-    set_counter(calc_periodic_counter(_update_time, _interval, _initial_time, &delta));
+    this->HOTP::set_counter(calc_periodic_counter(_update_time, _interval, _initial_time, &delta));
 }
 
 void TOTP::refresh_counter() {
-- 
2.43.0


From 2f532c59ec8f0686c1a3aabcda381975e82d63c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:34 +0000
Subject: [PATCH 22/27] fix: make HashEncoder::get_digest override the one of
 AbstractEncoder

With a default argument it only hid get_digest() of the base class, so that an
encoder used as AbstractEncoder returned no digest at all.
---
 include/libpgfe/hashes/hash_encoder.hpp | 3 ++-
 src/hashes/hash_encoder.cpp             | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/libpgfe/hashes/hash_encoder.hpp b/include/libpgfe/hashes/hash_encoder.hpp
index da9c6a4..9f93499 100644
--- a/include/libpgfe/hashes/hash_encoder.hpp
+++ b/include/libpgfe/hashes/hash_encoder.hpp
@@ -49,7 +49,8 @@ public:
     void update(std::string &cpp_s);
     void update(SequentialData &sd);
 
-    const SequentialData *get_digest(uint64_t bitlength = 0);
+    const SequentialData *get_digest() override;
+    const SequentialData *get_digest(uint64_t bitlength);
 };
 
 } // namespace libpgfe
diff --git a/src/hashes/hash_encoder.cpp b/src/hashes/hash_encoder.cpp
index 77796ab..d260856 100644
--- a/src/hashes/hash_encoder.cpp
+++ b/src/hashes/hash_encoder.cpp
@@ -98,6 +98,10 @@ inline void HashEncoder::update(SequentialData &sd) {
     return this->AbstractHashEncoder::update(sd);
 }
 
+const SequentialData *HashEncoder::get_digest() {
+    return get_digest(0);
+}
+
 const SequentialData *HashEncoder::get_digest(uint64_t bitlength) {
     bool shake_flag = this->cur_alg == SHAKE128 || this->cur_alg == RawSHAKE128 || this->cur_alg == SHAKE256 ||
                       this->cur_alg == RawSHAKE256;
-- 
2.43.0


From 88683e2d0401939c2225f06260d3631d67d7027c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:34 +0000
Subject: [PATCH 23/27] fix: give the abstract base classes virtual destructors

Deleting an encoder, crypter, base encoding or OTP object through a pointer to
one of its base classes did not run the destructor of the object and leaked
what it owns.
---
 include/libpgfe/abstract_encoder.hpp                     | 2 ++
 include/libpgfe/abstract_symmetric_crypter.hpp           | 2 ++
 include/libpgfe/algorithm_selectable.hpp                 | 2 ++
 include/libpgfe/base_encoding/abstract_base_encoding.hpp | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/include/libpgfe/abstract_encoder.hpp b/include/libpgfe/abstract_encoder.hpp
index d7cdd22..9b8bb1b 100644
--- a/include/libpgfe/abstract_encoder.hpp
+++ b/include/libpgfe/abstract_encoder.hpp
@@ -23,6 +23,8 @@ namespace libpgfe {
 class AbstractEncoder
 {
 public:
+    virtual ~AbstractEncoder() = default;
+
     virtual void reset() {}
 
     virtual void update(const pgfe_encode_t sequence[], size_t length) {}
diff --git a/include/libpgfe/abstract_symmetric_crypter.hpp b/include/libpgfe/abstract_symmetric_crypter.hpp
index 7de5e7d..535e5fd 100644
--- a/include/libpgfe/abstract_symmetric_crypter.hpp
+++ b/include/libpgfe/abstract_symmetric_crypter.hpp
@@ -20,6 +20,8 @@ namespace libpgfe {
 class AbstractSymmetricCrypter
 {
 public:
+    virtual ~AbstractSymmetricCrypter() = default;
+
     SequentialData encrypt(const std::string &);
     virtual SequentialData encrypt(const pgfe_encode_t *, size_t) {
         return SequentialData();
diff --git a/include/libpgfe/algorithm_selectable.hpp b/include/libpgfe/algorithm_selectable.hpp
index 286f6ae..36d4ce3 100644
--- a/include/libpgfe/algorithm_selectable.hpp
+++ b/include/libpgfe/algorithm_selectable.hpp
@@ -28,6 +28,8 @@ protected:
     void select_algorithm(pgfe_algorithm_choice choice);
 
 public:
+    virtual ~AlgorithmSelectable() = default;
+
     pgfe_algorithm_choice algorithm() const;
 };
 } // namespace libpgfe
diff --git a/include/libpgfe/base_encoding/abstract_base_encoding.hpp b/include/libpgfe/base_encoding/abstract_base_encoding.hpp
index 4aef6a6..34ec753 100644
--- a/include/libpgfe/base_encoding/abstract_base_encoding.hpp
+++ b/include/libpgfe/base_encoding/abstract_base_encoding.hpp
@@ -49,6 +49,8 @@ protected:
     void init();
 
 public:
+    virtual ~AbstractBaseEncoding() = default;
+
     std::string encode(const pgfe_encode_t *, size_t);
     std::string encode(const char *);
     std::string encode(const std::string &);
-- 
2.43.0


From 2675c69f433ae36b239803da48ac131ab4f18e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:56 +0000
Subject: [PATCH 24/27] fix: make the SequentialData trim functions remove zero
 bytes

The character set was passed as a terminated string, so the one zero byte in
it made it empty, and nothing was ever trimmed.
---
 src/core/sequential_data.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/sequential_data.cpp b/src/core/sequential_data.cpp
index 69d8c60..ffd95a6 100644
--- a/src/core/sequential_data.cpp
+++ b/src/core/sequential_data.cpp
@@ -72,9 +72,9 @@ inline void SequentialData::trim_() {
 }
 
 inline void SequentialData::trim_left_() {
-    erase(0, find_first_not_of(ws));
+    erase(0, find_first_not_of(ws, 0, 1));
 }
 
 inline void SequentialData::trim_right_() {
-    erase(find_last_not_of(ws) + 1, length());
+    erase(find_last_not_of(ws, npos, 1) + 1, length());
 }
\ No newline at end of file
-- 
2.43.0


From 605afc8f39659249cf15ea5966206e78806aa144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:56 +0000
Subject: [PATCH 25/27] fix: define the in-place trim functions of
 SequentialData for every caller

Declared in the header but defined inline in one source file, they could not
be linked against when that file was compiled with optimisation.
---
 src/core/sequential_data.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/sequential_data.cpp b/src/core/sequential_data.cpp
index ffd95a6..3649296 100644
--- a/src/core/sequential_data.cpp
+++ b/src/core/sequential_data.cpp
@@ -66,15 +66,15 @@ SequentialData SequentialData::trim_right() {
     return sd;
 }
 
-inline void SequentialData::trim_() {
+void SequentialData::trim_() {
     trim_left_();
     trim_right_();
 }
 
-inline void SequentialData::trim_left_() {
+void SequentialData::trim_left_() {
     erase(0, find_first_not_of(ws, 0, 1));
 }
 
-inline void SequentialData::trim_right_() {
+void SequentialData::trim_right_() {
     erase(find_last_not_of(ws, npos, 1) + 1, length());
 }
\ No newline at end of file
-- 
2.43.0


From a19669dfab9a8a5e367d9aa710b9f82ed9e7cf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:56 +0000
Subject: [PATCH 26/27] fix: keep the buffers of hex conversions off the stack

They had the size of the text, so texts of a few megabytes, or of less on a
thread with a small stack, ran out of it.
---
 src/core/sequential_data.cpp |  7 +++--
 src/core/utils.c             | 57 +++++++++++++++++++-----------------
 src/core/utils.cpp           |  7 +++--
 3 files changed, 38 insertions(+), 33 deletions(-)

diff --git a/src/core/sequential_data.cpp b/src/core/sequential_data.cpp
index 3649296..93f5b80 100644
--- a/src/core/sequential_data.cpp
+++ b/src/core/sequential_data.cpp
@@ -8,6 +8,7 @@
 #include "libpgfe/sequential_data.hpp"
 
 #include <cstring>
+#include <memory>
 #include <stdexcept>
 
 using namespace libpgfe;
@@ -33,9 +34,9 @@ std::string SequentialData::to_str(bool auto_hex) const {
 
 std::string SequentialData::hex_str() const {
     size_t sz = this->length();
-    char hex_str[sz * 2 + 1];
-    pgfe_hash_to_hex_string(this->c_str(), sz, hex_str);
-    std::string s(hex_str);
+    auto hex_str = std::make_unique<char[]>(sz * 2 + 1);
+    pgfe_hash_to_hex_string(this->c_str(), sz, hex_str.get());
+    std::string s(hex_str.get(), sz * 2);
     return s;
 }
 
diff --git a/src/core/utils.c b/src/core/utils.c
index 85336d6..9818946 100644
--- a/src/core/utils.c
+++ b/src/core/utils.c
@@ -26,6 +26,34 @@ size_t pgfe_hash_to_hex_string(const pgfe_encode_t hash[], size_t hash_length, c
     return op - out;
 }
 
+// Returns the length of the clean string, which is stored if there is an output
+static size_t hash_string_clean(const char hash_s[], char output[]) {
+    pgfe_encode_t h;
+    char *sp = (char *)hash_s;
+    size_t length = 0;
+    int offset_flag = -1;
+
+    for (; *sp; sp++) {
+        if (offset_flag < 2) {
+            if (++offset_flag == 1 && (*sp == 'x' || *sp == 'X')) {
+                length = 0;
+                continue;
+            }
+        }
+
+        ch2hex(*sp, &h);
+        if (h == PGFE_HEX_UNKNOWN_CHAR) {
+            continue;
+        }
+
+        if (output) output[length] = *sp;
+        length++;
+    }
+
+    if (output) output[length] = 0;
+    return length;
+}
+
 size_t pgfe_hex_string_to_hash(const char hash_s[], pgfe_encode_t hash_out[]) {
     short pos;
     size_t hash_str_len = strlen(hash_s);
@@ -74,28 +102,7 @@ void pgfe_print_hash(const pgfe_encode_t hash[], size_t length) {
 }
 
 size_t pgfe_hash_string_clean(const char hash_s[], char output[]) {
-    pgfe_encode_t h;
-    char *sp = (char *)hash_s, *op = output;
-    int offset_flag = -1;
-
-    for (; *sp; sp++) {
-        if (offset_flag < 2) {
-            if (++offset_flag == 1 && (*sp == 'x' || *sp == 'X')) {
-                op = output;
-                continue;
-            }
-        }
-
-        ch2hex(*sp, &h);
-        if (h == PGFE_HEX_UNKNOWN_CHAR) {
-            continue;
-        }
-
-        *(op++) = *sp;
-    }
-
-    *op = 0;
-    return op - output;
+    return hash_string_clean(hash_s, output);
 }
 
 inline size_t pgfe_hash_string_clean_(char hash_s[]) {
@@ -103,11 +110,7 @@ inline size_t pgfe_hash_string_clean_(char hash_s[]) {
 }
 
 size_t pgfe_hash_length(const char hash_s[]) {
-    size_t len = strlen(hash_s);
-    char s[len + 1];
-
-    pgfe_hash_string_clean(hash_s, s);
-    len = strlen(s);
+    size_t len = hash_string_clean(hash_s, NULL);
 
     return len / 2 + len % 2;
 }
diff --git a/src/core/utils.cpp b/src/core/utils.cpp
index 9d24d9e..93fe41c 100644
--- a/src/core/utils.cpp
+++ b/src/core/utils.cpp
@@ -8,6 +8,7 @@
 #include "libpgfe/utils.hpp"
 
 #include <cstring>
+#include <memory>
 
 #include "libpgfe/utils.h"
 
@@ -28,12 +29,12 @@ SequentialData *to_sequential_data(std::string &cpp_s) {
 
 SequentialData *sequential_data::from_hex_string(const char *hex_cs) {
     size_t s_sz = strlen(hex_cs), sz = s_sz / 2 + s_sz % 2;
-    pgfe_encode_t h_out[sz + 1];
+    auto h_out = std::make_unique<pgfe_encode_t[]>(sz + 1);
 
-    sz = pgfe_hex_string_to_hash(hex_cs, h_out);
+    sz = pgfe_hex_string_to_hash(hex_cs, h_out.get());
     h_out[sz] = 0;
 
-    return to_sequential_data(h_out, sz);
+    return to_sequential_data(h_out.get(), sz);
 }
 
 SequentialData *sequential_data::from_hex_string(std::string &hex_cpps) {
-- 
2.43.0


From 94e8f8d0c4db7cfe865066d3920bf0ef3097e902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:30 +0000
Subject: [PATCH 27/27] fix: pair hex digits by their own number, not by that
 of all characters

With an odd number of separators in the text the digits were paired wrongly
and the last one was dropped.
---
 src/core/utils.c | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/core/utils.c b/src/core/utils.c
index 9818946..1d05db3 100644
--- a/src/core/utils.c
+++ b/src/core/utils.c
@@ -65,15 +65,9 @@ size_t pgfe_hex_string_to_hash(const char hash_s[], pgfe_encode_t hash_out[]) {
     tpc = hash_s[1];
     if (hash_str_len >= 2 && (tpc == 'x' || tpc == 'X')) {
         sp += 2;
-        hash_str_len -= 2;
     }
 
-    tpc = sp[hash_str_len - 1];
-    if (tpc == 'h' || tpc == 'H') {
-        hash_str_len--;
-    }
-
-    for (op = hash_out, pos = hash_str_len % 2; *sp; sp++) {
+    for (op = hash_out, pos = hash_string_clean(hash_s, NULL) % 2; *sp; sp++) {
         ch2hex(*sp, &tmp_o);
 
         if (tmp_o == PGFE_HEX_UNKNOWN_CHAR) {
-- 
2.43.0

