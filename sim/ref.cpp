#include "ref.h"
#include <cstring>
#include <map>
#include <mutex>
#include "tables.h"

const char *ref_alg_name[A_COUNT] = {"md5", "sha1", "sha224", "sha256", "sha384", "sha512", "sha512_224", "sha512_256", "sha3_224", "sha3_256",
    "sha3_384", "sha3_512", "rawshake128", "shake128", "rawshake256", "shake256"};
size_t ref_digest_size(int a) {
    static const size_t d[] = {16, 20, 28, 32, 48, 64, 28, 32, 28, 32, 48, 64, 32, 32, 64, 64};
    return d[a];
}
size_t ref_block_size(int a) {
    static const size_t d[] = {64, 64, 64, 64, 128, 128, 128, 128, 144, 136, 104, 72, 168, 168, 136, 136};
    return d[a];
}
static inline uint32_t rl(uint32_t x, int n) { return (x << n) | (x >> (32 - n)); }
static inline uint32_t rr(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
static inline uint64_t rr64(uint64_t x, int n) { return (x >> n) | (x << (64 - n)); }
static inline uint64_t rl64(uint64_t x, int n) { return n ? (x << n) | (x >> (64 - n)) : x; }
static inline uint32_t be32(const uint8_t *p) { uint32_t v; memcpy(&v, p, 4); return __builtin_bswap32(v); }
static inline uint64_t be64(const uint8_t *p) { uint64_t v; memcpy(&v, p, 8); return __builtin_bswap64(v); }

static void md5_block(uint32_t *s, const uint8_t *p) {
    static const int R[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
    uint32_t m[16];
    memcpy(m, p, 64);
    uint32_t a = s[0], b = s[1], c = s[2], d = s[3];
    for (int i = 0; i < 64; i++) {
        uint32_t f; int g;
        switch (i / 16) {
        case 0: f = (b & c) | (~b & d); g = i; break;
        case 1: f = (d & b) | (~d & c); g = (5 * i + 1) % 16; break;
        case 2: f = b ^ c ^ d; g = (3 * i + 5) % 16; break;
        default: f = c ^ (b | ~d); g = (7 * i) % 16;
        }
        uint32_t t = d;
        d = c; c = b;
        b = b + rl(a + f + T_MD5K[i] + m[g], R[i / 16][i % 4]);
        a = t;
    }
    s[0] += a; s[1] += b; s[2] += c; s[3] += d;
}
static void sha1_block(uint32_t *s, const uint8_t *p) {
    uint32_t w[80];
    for (int i = 0; i < 16; i++) w[i] = be32(p + 4 * i);
    for (int i = 16; i < 80; i++) w[i] = rl(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
    uint32_t a = s[0], b = s[1], c = s[2], d = s[3], e = s[4];
    for (int i = 0; i < 80; i++) {
        uint32_t f, k;
        if (i < 20) f = d ^ (b & (c ^ d)), k = 0x5a827999;
        else if (i < 40) f = b ^ c ^ d, k = 0x6ed9eba1;
        else if (i < 60) f = (b & c) ^ (b & d) ^ (c & d), k = 0x8f1bbcdc;
        else f = b ^ c ^ d, k = 0xca62c1d6;
        uint32_t t = rl(a, 5) + f + e + k + w[i];
        e = d; d = c; c = rl(b, 30); b = a; a = t;
    }
    s[0] += a; s[1] += b; s[2] += c; s[3] += d; s[4] += e;
}
static void sha256_block(uint32_t *s, const uint8_t *p) {
    uint32_t w[64], v[8];
    for (int i = 0; i < 16; i++) w[i] = be32(p + 4 * i);
    for (int i = 16; i < 64; i++)
        w[i] = w[i - 16] + w[i - 7] + (rr(w[i - 15], 7) ^ rr(w[i - 15], 18) ^ (w[i - 15] >> 3)) + (rr(w[i - 2], 17) ^ rr(w[i - 2], 19) ^ (w[i - 2] >> 10));
    memcpy(v, s, 32);
    for (int i = 0; i < 64; i++) {
        uint32_t t1 = v[7] + (rr(v[4], 6) ^ rr(v[4], 11) ^ rr(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + T_K256[i] + w[i];
        uint32_t t2 = (rr(v[0], 2) ^ rr(v[0], 13) ^ rr(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
        v[7] = v[6]; v[6] = v[5]; v[5] = v[4]; v[4] = v[3] + t1; v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = t1 + t2;
    }
    for (int i = 0; i < 8; i++) s[i] += v[i];
}
static void sha512_block(uint64_t *s, const uint8_t *p) {
    uint64_t w[80], v[8];
    for (int i = 0; i < 16; i++) w[i] = be64(p + 8 * i);
    for (int i = 16; i < 80; i++)
        w[i] = w[i - 16] + w[i - 7] + (rr64(w[i - 15], 1) ^ rr64(w[i - 15], 8) ^ (w[i - 15] >> 7)) + (rr64(w[i - 2], 19) ^ rr64(w[i - 2], 61) ^ (w[i - 2] >> 6));
    memcpy(v, s, 64);
    for (int i = 0; i < 80; i++) {
        uint64_t t1 = v[7] + (rr64(v[4], 14) ^ rr64(v[4], 18) ^ rr64(v[4], 41)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + T_K512[i] + w[i];
        uint64_t t2 = (rr64(v[0], 28) ^ rr64(v[0], 34) ^ rr64(v[0], 39)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
        v[7] = v[6]; v[6] = v[5]; v[5] = v[4]; v[4] = v[3] + t1; v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = t1 + t2;
    }
    for (int i = 0; i < 8; i++) s[i] += v[i];
}
static void keccak_f(uint64_t *a) { // a[x + 5y]
    for (int r = 0; r < 24; r++) {
        uint64_t c[5], b[25];
        for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        for (int x = 0; x < 5; x++) {
            uint64_t d = c[(x + 4) % 5] ^ rl64(c[(x + 1) % 5], 1);
            for (int y = 0; y < 5; y++) a[x + 5 * y] ^= d;
        }
        for (int x = 0; x < 5; x++)
            for (int y = 0; y < 5; y++) b[y + 5 * ((2 * x + 3 * y) % 5)] = rl64(a[x + 5 * y], T_ROT[x + 5 * y]);
        for (int y = 0; y < 5; y++)
            for (int x = 0; x < 5; x++) a[x + 5 * y] = b[x + 5 * y] ^ (~b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
        a[0] ^= T_RC[r];
    }
}
static void proc(RefHash &h, const uint8_t *p) {
    switch (h.alg) {
    case A_MD5: md5_block(h.st.w32, p); break;
    case A_SHA1: sha1_block(h.st.w32, p); break;
    case A_SHA224: case A_SHA256: sha256_block(h.st.w32, p); break;
    case A_SHA384: case A_SHA512: case A_SHA512_224: case A_SHA512_256: sha512_block(h.st.w64, p); break;
    default: {
        size_t r = ref_block_size(h.alg);
        for (size_t i = 0; i < r / 8; i++) { uint64_t v; memcpy(&v, p + 8 * i, 8); h.st.w64[i] ^= v; }
        keccak_f(h.st.w64);
    }
    }
}
void RefHash::init(int al) {
    alg = al; n = 0; total = 0; squeezing = false; sq = 0;
    memset(&st, 0, sizeof st);
    static const uint32_t iv1[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0};
    switch (alg) {
    case A_MD5: memcpy(st.w32, iv1, 16); break;
    case A_SHA1: memcpy(st.w32, iv1, 20); break;
    case A_SHA224: memcpy(st.w32, T_H224, 32); break;
    case A_SHA256: memcpy(st.w32, T_H256, 32); break;
    case A_SHA384: memcpy(st.w64, T_H384, 64); break;
    case A_SHA512: memcpy(st.w64, T_H512, 64); break;
    case A_SHA512_224: case A_SHA512_256: { // FIPS 180-4, 5.3.6
        static uint64_t iv[2][8];
        static bool done[2];
        int k = alg == A_SHA512_256;
        if (!done[k]) {
            RefHash g(A_SHA512);
            for (auto &w : g.st.w64) w ^= 0xa5a5a5a5a5a5a5a5ULL;
            const char *nm = k ? "SHA-512/256" : "SHA-512/224";
            g.update(nm, 11);
            Bytes d = g.digest();
            for (int i = 0; i < 8; i++) iv[k][i] = be64(&d[8 * i]);
            done[k] = true;
        }
        memcpy(st.w64, iv[k], 64);
    } break;
    default: break;
    }
}
void RefHash::update(const void *vp, size_t len) {
    const uint8_t *p = (const uint8_t *)vp;
    size_t b = ref_block_size(alg);
    total += len;
    if (n) {
        size_t k = b - n < len ? b - n : len;
        memcpy(buf + n, p, k);
        n += k; p += k; len -= k;
        if (n == b) { proc(*this, buf); n = 0; }
    }
    while (len >= b) { proc(*this, p); p += b; len -= b; }
    if (len) { memcpy(buf + n, p, len); n += len; }
}
Bytes RefHash::digest() {
    if (alg >= A_SHA3_224) {
        RefHash h = *this;
        Bytes o(ref_digest_size(alg));
        h.squeeze(o.data(), o.size());
        return o;
    }
    RefHash h = *this;
    size_t b = ref_block_size(alg), lenb = b == 128 ? 16 : 8;
    uint8_t pad[256] = {0x80};
    size_t k = b - (h.n + lenb) % b; // bytes of padding before the length
    uint8_t *l = pad + k;
    uint64_t lo = total << 3, hi = total >> 61;
    if (alg == A_MD5) memcpy(l, &lo, 8);
    else if (lenb == 8) { uint64_t v = __builtin_bswap64(lo); memcpy(l, &v, 8); }
    else { uint64_t v = __builtin_bswap64(hi), u = __builtin_bswap64(lo); memcpy(l, &v, 8); memcpy(l + 8, &u, 8); }
    h.update(pad, k + lenb);
    Bytes o(ref_digest_size(alg));
    for (size_t i = 0; i < o.size(); i++) {
        if (alg == A_MD5) o[i] = (uint8_t)(h.st.w32[i / 4] >> (8 * (i % 4)));
        else if (b == 64) o[i] = (uint8_t)(h.st.w32[i / 4] >> (24 - 8 * (i % 4)));
        else o[i] = (uint8_t)(h.st.w64[i / 8] >> (56 - 8 * (i % 8)));
    }
    return o;
}
void RefHash::squeeze(uint8_t *out, size_t len) {
    size_t b = ref_block_size(alg);
    if (!squeezing) {
        memset(buf + n, 0, b - n);
        buf[n] ^= alg <= A_SHA3_512 ? 0x06 : (alg == A_SHAKE128 || alg == A_SHAKE256) ? 0x1f : 0x07;
        buf[b - 1] ^= 0x80;
        proc(*this, buf);
        squeezing = true; sq = 0;
    }
    while (len) {
        if (sq == b) { keccak_f(st.w64); sq = 0; }
        size_t k = b - sq < len ? b - sq : len;
        memcpy(out, (uint8_t *)st.w64 + sq, k);
        out += k; sq += k; len -= k;
    }
}
Bytes RefHash::squeeze_bits(uint64_t bits) {
    Bytes o((bits + 7) / 8);
    squeeze(o.data(), o.size());
    if (bits % 8) o.back() &= (1 << (bits % 8)) - 1;
    return o;
}
Bytes ref_hash(int alg, const void *p, size_t n, uint64_t bits) {
    RefHash h(alg);
    h.update(p, n);
    return is_xof(alg) ? h.squeeze_bits(bits) : h.digest();
}
void RefHmac::set_key(int al, const void *key, size_t kl) {
    alg = al;
    size_t b = ref_block_size(al);
    uint8_t k[168] = {0};
    if (kl > b) { Bytes d = ref_hash(al, key, kl); memcpy(k, d.data(), d.size()); }
    else if (kl) memcpy(k, key, kl);
    inner.init(al); outer.init(al);
    for (size_t i = 0; i < b; i++) k[i] ^= 0x36;
    inner.update(k, b);
    for (size_t i = 0; i < b; i++) k[i] ^= 0x36 ^ 0x5c;
    outer.update(k, b);
}
Bytes RefHmac::digest() {
    Bytes i = inner.digest();
    RefHash o = outer;
    o.update(i.data(), i.size());
    return o.digest();
}
Bytes ref_hmac(int alg, const void *k, size_t kl, const void *d, size_t n) {
    RefHmac h(alg, k, kl);
    h.update(d, n);
    return h.digest();
}
uint32_t ref_hotp31(int alg, const Bytes &secret, uint64_t counter, bool *defined) {
    uint8_t c[8];
    for (int i = 0; i < 8; i++) c[i] = (uint8_t)(counter >> (56 - 8 * i));
    Bytes d = ref_hmac(alg, secret.data(), secret.size(), c, 8);
    size_t o = d.back() & 15;
    if (o + 4 > d.size()) { if (defined) *defined = false; return 0; }
    if (defined) *defined = true;
    return be32(&d[o]) & 0x7fffffff;
}
uint32_t ref_otp_cut(uint32_t v, unsigned digits) {
    uint64_t m = 1;
    for (unsigned i = 0; i < digits && i < 10; i++) m *= 10;
    return (uint32_t)(v % m);
}
std::string ref_otp_str(uint32_t v, unsigned digits) {
    std::string s = std::to_string(ref_otp_cut(v, digits));
    return s.size() < digits ? std::string(digits - s.size(), '0') + s : s;
}
static const char *alpha[B_COUNT] = {"0123456789ABCDEF", "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", "0123456789ABCDEFGHIJKLMNOPQRSTUV",
    "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"};
static const int bbits[B_COUNT] = {4, 5, 5, 6, 6}, bchunk[B_COUNT] = {2, 8, 8, 4, 4};
std::string ref_base_encode(int k, const uint8_t *p, size_t n) {
    std::string s;
    uint32_t acc = 0;
    int have = 0;
    for (size_t i = 0; i < n; i++) {
        acc = (acc << 8) | p[i];
        for (have += 8; have >= bbits[k]; have -= bbits[k]) s += alpha[k][(acc >> (have - bbits[k])) & ((1 << bbits[k]) - 1)];
    }
    if (have) s += alpha[k][(acc << (bbits[k] - have)) & ((1 << bbits[k]) - 1)];
    while (s.size() % bchunk[k]) s += '=';
    return s;
}
Bytes ref_base_decode(int k, const std::string &t) {
    Bytes o;
    uint32_t acc = 0;
    int have = 0;
    for (char c : t) {
        if (k <= B32HEX && c >= 'a' && c <= 'z') c -= 32;
        if (k >= B64) { if (c == '-') c = '+'; if (c == '_') c = '/'; }
        const char *q = c ? strchr(alpha[k >= B64 ? B64 : k], c) : nullptr;
        if (!q) continue;
        acc = (acc << bbits[k]) | (uint32_t)(q - alpha[k >= B64 ? B64 : k]);
        have += bbits[k];
        if (have >= 8) { have -= 8; o.push_back((uint8_t)(acc >> have)); }
    }
    return o;
}
void RefBlowfish::words(uint32_t &l, uint32_t &r, bool dec) const {
    uint32_t a = l, b = r;
    for (int i = 0; i < 16; i++) {
        a ^= P[dec ? 17 - i : i];
        b ^= ((S[0][a >> 24] + S[1][(a >> 16) & 255]) ^ S[2][(a >> 8) & 255]) + S[3][a & 255];
        uint32_t t = a; a = b; b = t;
    }
    uint32_t t = a; a = b; b = t;
    b ^= P[dec ? 1 : 16];
    a ^= P[dec ? 0 : 17];
    l = a; r = b;
}
void RefBlowfish::block(uint8_t *p, bool dec) const {
    uint32_t l = be32(p), r = be32(p + 4);
    words(l, r, dec);
    l = __builtin_bswap32(l); r = __builtin_bswap32(r);
    memcpy(p, &l, 4); memcpy(p + 4, &r, 4);
}
void RefBlowfish::init(const uint8_t *k, size_t n) {
    memcpy(P, T_PI, sizeof P);
    memcpy(S, T_PI + 18, sizeof S);
    size_t j = 0;
    for (int i = 0; i < 18; i++) {
        uint32_t d = 0;
        for (int q = 0; q < 4; q++) { d = (d << 8) | k[j]; j = (j + 1) % n; }
        P[i] ^= d;
    }
    uint32_t l = 0, r = 0;
    for (int i = 0; i < 18; i += 2) { words(l, r, false); P[i] = l; P[i + 1] = r; }
    for (int i = 0; i < 4; i++)
        for (int q = 0; q < 256; q += 2) { words(l, r, false); S[i][q] = l; S[i][q + 1] = r; }
}
Bytes RefBlowfish::crypt(const uint8_t *p, size_t n, bool dec) const {
    Bytes o((n + 7) / 8 * 8, 0);
    if (n) memcpy(o.data(), p, n);
    for (size_t i = 0; i < o.size(); i += 8) block(&o[i], dec);
    return o;
}
