// Streams of gigabytes through the shipped build (no instrumentation). The message is a 1 MiB pattern repeated without end, mapped, not stored.
// giant ALG OUTBITS PIECE...: updates with the given piece lengths, then prints the digest in hex (SHAKE: writes the raw output).
// Squeezing in parts: OUTBITS may be a list a+b+c. ALG may have a prefix:
//   file:  the pieces are what the stream's reads deliver        enc:  through a HashEncoder
//   mac:   HMAC, the key is the first 20 bytes of the pattern    mackey:  HMAC with the pattern as key, message "giant"
//   bf: b64e: b64d: b32e: ...  encrypt, encode, decode the whole length in one call and compare with what short pieces give
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>
#include <vector>
#include "libpgfe/base_encoding/base16.h"
#include "libpgfe/base_encoding/base32.h"
#include "libpgfe/base_encoding/base64.h"
#include "libpgfe/fishes/blowfish.h"
#include "libpgfe/hashes.h"
#include "libpgfe/hashes/hash_encoder.hpp"
#include "libpgfe/hmac/hmac.h"
static const size_t SEG = 64 << 20, MAP = (4ULL << 30) + 4 * SEG;
static uint8_t *base;
static void map_pattern() {
    int fd = memfd_create("pattern", 0);
    if (fd < 0 || ftruncate(fd, SEG)) { perror("memfd"); exit(3); }
    uint8_t *p = (uint8_t *)mmap(nullptr, SEG, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    uint64_t z = 88172645463325252ULL; // xorshift64
    for (size_t i = 0; i < 1 << 20; i += 8) {
        z ^= z << 13; z ^= z >> 7; z ^= z << 17;
        memcpy(p + i, &z, 8);
    }
    for (size_t o = 1 << 20; o < SEG; o += 1 << 20) memcpy(p + o, p, 1 << 20);
    munmap(p, SEG);
    base = (uint8_t *)mmap(nullptr, MAP, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (size_t o = 0; o < MAP; o += SEG)
        if (mmap(base + o, SEG, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap"); exit(3); }
}
static std::vector<uint64_t> outs, pieces;
template <class C> static void feed(C *c, void (*up)(C *, const uint8_t *, size_t)) {
    uint64_t pos = 0;
    for (uint64_t n : pieces) {
        if (pos % (1 << 20) + n > MAP) { fprintf(stderr, "piece too long\n"); exit(3); }
        up(c, base + pos % (1 << 20), n);
        pos += n;
    }
}
static uint64_t total() { uint64_t t = 0; for (uint64_t n : pieces) t += n; return t; }
static size_t piece_at; static uint64_t piece_off, file_pos;
static ssize_t file_read(void *, char *buf, size_t n) {
    while (piece_at < pieces.size() && piece_off == pieces[piece_at]) { piece_at++; piece_off = 0; }
    if (piece_at == pieces.size()) return 0;
    if (n > pieces[piece_at] - piece_off) n = pieces[piece_at] - piece_off;
    memcpy(buf, base + file_pos % (1 << 20), n);
    piece_off += n; file_pos += n;
    return (ssize_t)n;
}
static FILE *file() { cookie_io_functions_t f = {file_read, nullptr, nullptr, nullptr}; return fopencookie(nullptr, "r", f); }
static uint8_t *room(uint64_t n) {
    uint8_t *p = (uint8_t *)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("room"); exit(3); }
    return p;
}
static const size_t U = 15 << 20; // whole pieces of every encoding and of the pattern
// o[0..n) repeats unit[0..un)?
static int periodic(const uint8_t *o, uint64_t n, const uint8_t *unit, uint64_t un) {
    for (uint64_t i = 0; i < n; i += un) if (memcmp(o + i, unit, n - i < un ? n - i : un)) { printf("differs in the part at byte %llu\n", (unsigned long long)i); return 0; }
    printf("ok\n");
    return 0;
}
static int blowfish(uint64_t n) {
    struct pgfe_blowfish_ctx c;
    pgfe_blowfish_init(&c, base, 20);
    uint8_t *unit = room(U), *o = room(n + 8);
    for (size_t i = 0; i < U; i += 4096) pgfe_blowfish_encrypt(&c, base + i, 4096, unit + i);
    n -= n % 8;
    uint64_t r = pgfe_blowfish_encrypt(&c, base, n, o);
    if (r != n) { printf("length %llu\n", (unsigned long long)r); return 0; }
    return periodic(o, n, unit, U);
}
static int encode(size_t (*f)(const uint8_t *, size_t, char *), int in, int out, uint64_t n) {
    n -= n % in;
    uint64_t un = U / in * out, on = n / in * out;
    uint8_t *unit = room(un + 1), *o = room(on + 1);
    for (size_t i = 0; i < U; i += 15360) f(base + i, 15360, (char *)unit + i / in * out);
    uint64_t r = f(base, n, (char *)o);
    if (r != on) { printf("length %llu\n", (unsigned long long)r); return 0; }
    return periodic(o, on, unit, un);
}
static int decode(size_t (*e)(const uint8_t *, size_t, char *), size_t (*f)(const char *, uint8_t *), int in, int out, uint64_t n) {
    const size_t ua = (size_t)15 << 20, un = ua / in * out; // a text of whole pages
    uint64_t reps = n / ua + 1;
    int fd = memfd_create("text", 0);
    if (fd < 0 || ftruncate(fd, un) || un % 4096) { perror("memfd"); exit(3); }
    uint8_t *t = (uint8_t *)mmap(nullptr, un + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    for (size_t i = 0; i < ua; i += 15360) e(base + i, 15360, (char *)t + i / in * out);
    if (pwrite(fd, t, un, 0) != (ssize_t)un) { perror("pwrite"); exit(3); }
    uint8_t *x = (uint8_t *)mmap(nullptr, reps * un + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (x == MAP_FAILED) { perror("mmap"); exit(3); }
    for (uint64_t k = 0; k < reps; k++) if (mmap(x + k * un, un, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap"); exit(3); }
    uint8_t *o = room(reps * ua + 16);
    uint64_t r = f((char *)x, o);
    if (r != reps * ua) { printf("length %llu\n", (unsigned long long)r); return 0; }
    return periodic(o, reps * ua, base, 1 << 20);
}
static void hex(const uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) printf("%02x", p[i]); printf("\n"); }
int main(int argc, char **argv) {
    if (argc < 3) return 3;
    std::string a = argv[1];
    for (char *s = argv[2]; *s; s++) { outs.push_back(strtoull(s, &s, 10)); if (!*s) break; }
    for (int i = 3; i < argc; i++) pieces.push_back(strtoull(argv[i], nullptr, 10));
    const char *lim = getenv("GIANT_CPU");
    rlim_t secs = lim ? atoi(lim) : 300;
    struct rlimit rl = {secs, secs + 10};
    setrlimit(RLIMIT_CPU, &rl);
    map_pattern();
    uint8_t d[64];
    std::string mode;
    if (a.find(':') != a.npos) { mode = a.substr(0, a.find(':')); a = a.substr(a.find(':') + 1); }
    using namespace libpgfe;
    if (mode == "enc") {
        pgfe_algorithm_choice ch = a == "md5" ? MD5 : a == "sha1" ? SHA1 : a == "sha384" ? SHA384 : a == "sha3_224" ? SHA3_224 : a == "shake128" ? SHAKE128 : SHAKE256;
        HashEncoder e(ch);
        uint64_t pos = 0;
        for (uint64_t n : pieces) { e.update(base + pos % (1 << 20), n); pos += n; }
        for (uint64_t b : outs) {
            const SequentialData *o = e.get_digest(b);
            size_t n = o->length();
            if (a[1] != 'h' || a[2] != 'a' || a[3] != 'k') { hex(o->to_pgfe_seq(), n); break; }
            for (size_t k = 0; k < n;) { ssize_t w = write(1, o->to_pgfe_seq() + k, n - k); if (w <= 0) return 3; k += w; }
        }
        return 0;
    }
#define FL(n, size) if (mode == "file" && a == #n) { FILE *f = file(); pgfe_##n##_encode_f(f, d); hex(d, size); return 0; }
    FL(md5, 16) FL(sha1, 20) FL(sha384, 48) FL(sha3_224, 28)
    if (mode == "file" && a == "shake256") { FILE *f = file(); pgfe_shake256_encode_f(f, d, outs[0]); return write(1, d, outs[0] / 8) < 0 ? 3 : 0; }
#define MA(n, size) if (mode == "mac" && a == #n) { struct pgfe_hmac_##n##_ctx c; pgfe_hmac_##n##_init(&c); pgfe_hmac_##n##_set_key(&c, base, 20); feed(&c, pgfe_hmac_##n##_update); pgfe_hmac_##n##_digest(&c, d); hex(d, size); return 0; }
    MA(md5, 16) MA(sha1, 20) MA(sha384, 48) MA(sha3_224, 28)
#define MK(n, size) if (mode == "mackey" && a == #n) { pgfe_hmac_##n(base, total(), (const uint8_t *)"giant", 5, d); hex(d, size); return 0; }
    MK(md5, 16) MK(sha1, 20) MK(sha384, 48) MK(sha3_224, 28)
    if (mode == "bf") return blowfish(total());
    if (mode == "b64e") return encode(pgfe_encode_base64, 3, 4, total());
    if (mode == "b64d") return decode(pgfe_encode_base64, pgfe_decode_base64, 3, 4, total());
    if (mode == "b32e") return encode(pgfe_encode_base32, 5, 8, total());
    if (mode == "b32d") return decode(pgfe_encode_base32, pgfe_decode_base32, 5, 8, total());
    if (mode == "b16e") return encode(pgfe_encode_base16, 1, 2, total());
    if (mode == "b16d") return decode(pgfe_encode_base16, pgfe_decode_base16, 1, 2, total());
    if (mode != "") return 3;
#define F(n, size) if (a == #n) { struct pgfe_##n##_ctx c; pgfe_##n##_init(&c); feed(&c, pgfe_##n##_update); pgfe_##n##_digest(&c, d); hex(d, size); return 0; }
    F(md5, 16) F(sha1, 20) F(sha224, 28) F(sha256, 32) F(sha384, 48) F(sha512, 64) F(sha512_256, 32) F(sha3_224, 28) F(sha3_256, 32) F(sha3_384, 48) F(sha3_512, 64)
#define S(n) if (a == #n) { struct pgfe_##n##_ctx c; pgfe_##n##_init(&c); feed(&c, pgfe_##n##_update); \
        for (uint64_t b : outs) { \
            size_t n = (b + 7) / 8; \
            uint8_t *o = (uint8_t *)mmap(nullptr, n + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); \
            if (o == MAP_FAILED) return 3; \
            pgfe_##n##_digest(&c, o, b); \
            if (write(1, o, 0) < 0) return 3; \
            for (size_t k = 0; k < n;) { ssize_t w = write(1, o + k, n - k); if (w <= 0) return 3; k += w; } \
            munmap(o, n + 1); \
        } return 0; }
    S(shake128) S(shake256) // raw output
    return 3;
}
