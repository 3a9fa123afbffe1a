// Reference models: independent implementations checked against Python's hashlib/hmac/base64 at every build.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
typedef std::vector<uint8_t> Bytes;
enum { A_MD5, A_SHA1, A_SHA224, A_SHA256, A_SHA384, A_SHA512, A_SHA512_224, A_SHA512_256, A_SHA3_224, A_SHA3_256, A_SHA3_384, A_SHA3_512,
       A_RAWSHAKE128, A_SHAKE128, A_RAWSHAKE256, A_SHAKE256, A_COUNT };
extern const char *ref_alg_name[A_COUNT];
size_t ref_digest_size(int alg); // SHAKE: default size
size_t ref_block_size(int alg);
inline bool is_xof(int alg) { return alg >= A_RAWSHAKE128; }

struct RefHash { // streaming, copyable
    int alg = 0;
    union { uint32_t w32[8]; uint64_t w64[25]; } st;
    uint8_t buf[168];
    size_t n = 0;       // bytes in buf
    uint64_t total = 0; // bytes so far
    bool squeezing = false;
    size_t sq = 0;      // squeezed bytes of the current block
    explicit RefHash(int alg = 0) { init(alg); }
    void init(int alg);
    void update(const void *p, size_t len);
    Bytes digest();                  // fixed algorithms; does not change the state
    void squeeze(uint8_t *out, size_t len); // SHAKE family
    Bytes squeeze_bits(uint64_t bits);
};
Bytes ref_hash(int alg, const void *p, size_t n, uint64_t bits = 0);

struct RefHmac {
    int alg = 0;
    RefHash inner, outer;
    RefHmac() {}
    RefHmac(int alg, const void *key, size_t klen) { set_key(alg, key, klen); }
    void set_key(int alg, const void *key, size_t klen);
    void update(const void *p, size_t n) { inner.update(p, n); }
    Bytes digest();
};
Bytes ref_hmac(int alg, const void *k, size_t kl, const void *d, size_t n);
// 31-bit value before the modulo; defined == false if the window leaves the digest
uint32_t ref_hotp31(int alg, const Bytes &secret, uint64_t counter, bool *defined = nullptr);
uint32_t ref_otp_cut(uint32_t v, unsigned digits);
std::string ref_otp_str(uint32_t v, unsigned digits);

enum { B16, B32, B32HEX, B64, B64URL, B_COUNT };
std::string ref_base_encode(int kind, const uint8_t *p, size_t n);
Bytes ref_base_decode(int kind, const std::string &s); // ignores characters outside the alphabet, '=' ends a unit

struct RefBlowfish {
    uint32_t P[18], S[4][256];
    RefBlowfish() {}
    RefBlowfish(const uint8_t *k, size_t n) { init(k, n); }
    void init(const uint8_t *k, size_t n);
    void block(uint8_t *p, bool dec) const;
    void words(uint32_t &l, uint32_t &r, bool dec) const;
    Bytes crypt(const uint8_t *p, size_t n, bool dec) const;
};
