// Executes plans against the real library and checks every result against the reference models.
#include "core.h"
#include "ops.h"
#include "ref.h"
#include <cerrno>
#include <cstdarg>
#include <memory>
#include <new>
#include <sanitizer/asan_interface.h>
#include <set>
#include <stdexcept>
#include <streambuf>
#include <ostream>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#undef R_OK

#include "libpgfe/base_encoding/base16.h"
#include "libpgfe/base_encoding/base16.hpp"
#include "libpgfe/base_encoding/base32.h"
#include "libpgfe/base_encoding/base32.hpp"
#include "libpgfe/base_encoding/base64.h"
#include "libpgfe/base_encoding/base64.hpp"
#include "libpgfe/fishes/blowfish.h"
#include "libpgfe/fishes/blowfish.hpp"
#include "libpgfe/generic.hpp"
#include "libpgfe/hashes.h"
#include "libpgfe/hashes/hash_encoder.hpp"
#include "libpgfe/hmac/hmac.h"
#include "libpgfe/hmac/hmac_encoder.hpp"
#include "libpgfe/otp/hotp.h"
#include "libpgfe/otp/hotp.hpp"
#include "libpgfe/otp/totp.h"
#include "libpgfe/otp/totp.hpp"
#include "libpgfe/utils.h"
#include "libpgfe/utils.hpp"
using namespace libpgfe;
typedef const uint8_t *cp;

// ---------------------------------------------------------------- the C interface by algorithm
struct AlgI {
    size_t ctxsize; int family; // contexts of one family have the same type
    pgfe_algorithm_choice choice;
    void (*init)(void *); void (*update)(void *, cp, size_t); void (*digest)(void *, uint8_t *, size_t);
    void (*one)(cp, size_t, uint8_t *, size_t); void (*str)(cp, uint8_t *, size_t); void (*file)(FILE *, uint8_t *, size_t);
    void (*multi)(uint8_t *, size_t, size_t, cp *, size_t *);
};
#define MULTI12 p[0], l[0], p[1], l[1], p[2], l[2], p[3], l[3], p[4], l[4], p[5], l[5], p[6], l[6], p[7], l[7], p[8], l[8], p[9], l[9], p[10], l[10], p[11], l[11]
#define ML1(i) p[i], l[i]
#define ML3(i) ML1(i), ML1(i + 1), ML1(i + 2)
#define ML12(i) ML3(i), ML3(i + 3), ML3(i + 6), ML3(i + 9)
#define ML60(i) ML12(i), ML12(i + 12), ML12(i + 24), ML12(i + 36), ML12(i + 48)
#define MULTI300 ML60(0), ML60(60), ML60(120), ML60(180), ML60(240)
#define FIX(NAME, n, fam) {sizeof(struct pgfe_##n##_ctx), fam, NAME, [](void *c) { pgfe_##n##_init((struct pgfe_##n##_ctx *)c); }, \
    [](void *c, cp p, size_t l) { pgfe_##n##_update((struct pgfe_##n##_ctx *)c, p, l); }, [](void *c, uint8_t *o, size_t) { pgfe_##n##_digest((struct pgfe_##n##_ctx *)c, o); }, \
    [](cp p, size_t l, uint8_t *o, size_t) { pgfe_##n##_encode(p, l, o); }, [](cp p, uint8_t *o, size_t) { pgfe_##n##_encode_default(p, o); }, \
    [](FILE *f, uint8_t *o, size_t) { pgfe_##n##_encode_f(f, o); }, [](uint8_t *o, size_t, size_t k, cp *p, size_t *l) { if (k > 12) pgfe_##n##_encode_multiple(o, k, MULTI300); else pgfe_##n##_encode_multiple(o, k, MULTI12); }}
#define XOF(NAME, n) {sizeof(struct pgfe_##n##_ctx), 4, NAME, [](void *c) { pgfe_##n##_init((struct pgfe_##n##_ctx *)c); }, \
    [](void *c, cp p, size_t l) { pgfe_##n##_update((struct pgfe_##n##_ctx *)c, p, l); }, [](void *c, uint8_t *o, size_t b) { pgfe_##n##_digest((struct pgfe_##n##_ctx *)c, o, b); }, \
    [](cp p, size_t l, uint8_t *o, size_t b) { pgfe_##n##_encode(p, l, o, b); }, [](cp p, uint8_t *o, size_t b) { pgfe_##n##_encode_default(p, o, b); }, \
    [](FILE *f, uint8_t *o, size_t b) { pgfe_##n##_encode_f(f, o, b); }, [](uint8_t *o, size_t b, size_t k, cp *p, size_t *l) { if (k > 12) pgfe_##n##_encode_multiple(o, b, k, MULTI300); else pgfe_##n##_encode_multiple(o, b, k, MULTI12); }}
static const AlgI AI[A_COUNT] = {
    FIX(MD5, md5, 0), FIX(SHA1, sha1, 1), FIX(SHA224, sha224, 2), FIX(SHA256, sha256, 2), FIX(SHA384, sha384, 3), FIX(SHA512, sha512, 3),
    FIX(SHA512_224, sha512_224, 3), FIX(SHA512_256, sha512_256, 3), FIX(SHA3_224, sha3_224, 4), FIX(SHA3_256, sha3_256, 4), FIX(SHA3_384, sha3_384, 4),
    FIX(SHA3_512, sha3_512, 4), XOF(RawSHAKE128, rawshake128), XOF(SHAKE128, shake128), XOF(RawSHAKE256, rawshake256), XOF(SHAKE256, shake256)};
struct HmacI {
    size_t ctxsize;
    void (*init)(void *); void (*key)(void *, cp, size_t); void (*update)(void *, cp, size_t); void (*digest)(void *, uint8_t *);
    void (*one)(cp, size_t, cp, size_t, uint8_t *);
};
#define HM(n) {sizeof(struct pgfe_hmac_##n##_ctx), [](void *c) { pgfe_hmac_##n##_init((struct pgfe_hmac_##n##_ctx *)c); }, \
    [](void *c, cp k, size_t l) { pgfe_hmac_##n##_set_key((struct pgfe_hmac_##n##_ctx *)c, k, l); }, [](void *c, cp k, size_t l) { pgfe_hmac_##n##_update((struct pgfe_hmac_##n##_ctx *)c, k, l); }, \
    [](void *c, uint8_t *o) { pgfe_hmac_##n##_digest((struct pgfe_hmac_##n##_ctx *)c, o); }, [](cp k, size_t kl, cp d, size_t l, uint8_t *o) { pgfe_hmac_##n(k, kl, d, l, o); }}
static const HmacI HI[12] = {HM(md5), HM(sha1), HM(sha224), HM(sha256), HM(sha384), HM(sha512), HM(sha512_224), HM(sha512_256), HM(sha3_224), HM(sha3_256), HM(sha3_384), HM(sha3_512)};
typedef size_t encf(cp, size_t, char *);
typedef size_t decf(const char *, uint8_t *);
static encf *const ENC[B_COUNT] = {pgfe_encode_base16, pgfe_encode_base32, pgfe_encode_base32hex, pgfe_encode_base64, pgfe_encode_base64_url};
static decf *const DEC[B_COUNT] = {pgfe_decode_base16, pgfe_decode_base32, pgfe_decode_base32hex, pgfe_decode_base64, pgfe_decode_base64};

// ---------------------------------------------------------------- buffers
int g_only = -1;
static const Plan *P;
static std::string hex(const void *p, size_t n) {
    std::string s;
    char b[3];
    for (size_t i = 0; i < n && i < 40; i++) { snprintf(b, 3, "%02x", ((cp)p)[i]); s += b; }
    if (n > 40) s += "..";
    return s;
}
struct In { // an input of exactly the stated length in a heap block of its own
    uint8_t *base, *p;
    size_t n;
    Bytes copy;
    void make(size_t len, int align, bool term) {
        n = len;
        size_t sz = (size_t)align + n + term;
        base = (uint8_t *)raw_alloc(sz ? sz : 1);
        p = base + (sz ? align : 1); // nothing may be read from an empty one
    }
    In(uint64_t seed, size_t len, int align = 0, bool term = false) { // term: C string without inner zeros
        make(len, align, term);
        fill_bytes(seed, p, n);
        if (term) { for (size_t i = 0; i < n; i++) if (!p[i]) p[i] = (uint8_t)(1 + (seed + i) % 255); p[n] = 0; }
        copy.assign(p, p + n);
    }
    In(const std::string &s) {
        make(s.size(), 0, true);
        memcpy(p, s.c_str(), n + 1);
        copy.assign(p, p + n);
    }
    In(const In &) = delete;
    ~In() {
        if (n && memcmp(p, copy.data(), n)) {
            size_t i = 0;
            while (p[i] == copy[i]) i++;
            violate(V_INPUT, "input-modified", "%s changed byte %zu of its %zu byte input", "the call", i, n);
        }
        raw_free(base);
    }
};
struct Out { // room for exactly n bytes, filled with junk
    uint8_t *base, *p;
    size_t n;
    Out(size_t len) : n(len) {
        base = (uint8_t *)raw_alloc(n ? n : 1);
        p = n ? base : base + 1;
        junk(p, n);
    }
    Out(const Out &) = delete;
    ~Out() { raw_free(base); }
};

// ---------------------------------------------------------------- calls
enum Rc { R_OK, R_NOMEM, R_NOTINIT, R_RANGE, R_OTHER };
template <class F> static Rc call(const Op &o, F f, int legal = 0) {
    AllocOp &a = alloc_op();
    a.fail_at = o.fail; a.fail_n = o.fail2; a.seen = 0; a.fired = false;
    sched_event();
    effects_before();
    clock_begin(o.d1, o.d2);
    junk_stack();
    static const int stale[] = {0, EINTR, EAGAIN, ENOMEM, EIO, ERANGE, EINVAL, EPIPE}; // errno as earlier, unrelated calls left it
    errno = stale[Rng::mix(stack_junk_word() + (uint64_t)cur_op()) & 7];
    Rc rc = R_OK;
    std::string what;
    try { InLib l; f(); }
    catch (const std::bad_alloc &) { rc = R_NOMEM; }
    catch (const NotInitializedException &) { rc = R_NOTINIT; }
    catch (const std::out_of_range &e) { rc = R_RANGE; what = e.what(); }
    catch (const std::exception &e) { rc = R_OTHER; what = e.what(); }
    catch (...) { rc = R_OTHER; what = "?"; }
    clock_end();
    a.fail_at = 0;
    effects_after();
    static int failed[8]; // the operation kind of this thread's last failed call
    int &fl = failed[sim_tid() & 7];
    if (rc == R_OK && fl == o.code) { probe(PR_RETRY_OK); fl = 0; }
    if (rc == R_NOMEM) {
        fl = o.code;
        probe(PR_BAD_ALLOC_SEEN);
        note_nontrivial(2);
        if (!a.fired) violate(V_EXC, "bad_alloc", "%s throws bad_alloc although no allocation failed", op_name(o.code));
    } else if (rc == R_OK && a.fired) probe(PR_TRANSPARENT_ALLOC_FAIL);
    if (rc > R_NOMEM && rc != legal && !(legal == R_RANGE && rc == R_OTHER)) {
        static const char *nm[] = {"", "", "NotInitializedException", "std::out_of_range", "an exception"};
        violate(V_EXC, "exception", "%s throws %s %s", op_name(o.code), nm[rc], what.c_str());
    }
    log_ev(0x10, o.code, rc);
    return rc;
}
static void result(const void *p, size_t n) { // one op may give several
    uint64_t h = 1469598103934665603ULL ^ n;
    for (size_t i = 0; i < n; i++) h = (h ^ ((cp)p)[i]) * 1099511628211ULL;
    log_data(p, n);
    int op = cur_op();
    if (op >= 0 && op < MAXOPS) op_result(op, Rng::mix(G->opres[op] ^ h));
}
static void expect(const char *what, const void *got, size_t gn, const void *want, size_t wn) {
    result(got, gn);
    G->checks++;
    if (gn == wn && !memcmp(got, want, wn)) return;
    size_t i = 0;
    while (i < gn && i < wn && ((cp)got)[i] == ((cp)want)[i]) i++;
    violate(V_RESULT, what, "op %d %s: %s is wrong: %zu bytes %s, expected %zu bytes %s (first difference at %zu)", cur_op(), op_name(P->ops[cur_op()].code), what, gn,
            hex(got, gn).c_str(), wn, hex(want, wn).c_str(), i);
}
static void expect(const char *what, const std::string &got, const std::string &want) { expect(what, got.data(), got.size(), want.data(), want.size()); }
static void expect(const char *what, const SequentialData &got, const Bytes &want) { expect(what, got.data(), got.size(), want.data(), want.size()); }
static void expect_num(const char *what, int64_t got, int64_t want) {
    result(&got, 8);
    G->checks++;
    if (got != want) violate(V_RESULT, what, "op %d %s: %s is %lld, expected %lld", cur_op(), op_name(P->ops[cur_op()].code), what, (long long)got, (long long)want);
}

// ---------------------------------------------------------------- objects
struct Obj { virtual ~Obj() {} virtual void destroy() {} };
enum { SHARED = 64, OWN = 96, CROWD = 320, NSLOT = OWN + 8 * CROWD };
static std::unique_ptr<Obj> slots[NSLOT];
static bool is_shared(int64_t a) { return a >= 100 && a < 1000; }
static int slot_no(const Op &o, int64_t a) { return a >= 1000 ? OWN + ((o.t < 0 ? 0 : o.t) & 7) * CROWD + (int)((a - 1000) % CROWD) : a >= 100 ? SHARED + (int)((a - 100) & 15) : ((o.t < 0 ? 0 : o.t) & 7) * 8 + (int)(a & 7); }
static std::unique_ptr<Obj> &slot(const Op &o) { return slots[slot_no(o, o.a[0])]; }
template <class T> static T *get(const Op &o) { return dynamic_cast<T *>(slot(o).get()); }
static bool may_mutate(const Op &o) { return !is_shared(o.a[0]) || o.t < 0; }
static void drop(int i) { if (slots[i]) { slots[i]->destroy(); slots[i].reset(); } }
static const Op NOFAULT;
template <class T> static void del(T *p) { call(NOFAULT, [&] { delete p; }); }
// Objects that can be copied or moved are, now and then; a class that stops being so is used in place
template <class T, bool = std::is_copy_constructible<T>::value> struct Duplicate {
    alignas(T) unsigned char room[sizeof(T)];
    T *p, *own = nullptr;
    Duplicate(T *q, bool copy) : p(q) { if (copy) p = own = new (room) T(*q); }
    ~Duplicate() { if (own) own->~T(); }
    T &operator*() { return *p; }
};
template <class T> struct Duplicate<T, false> {
    T *p;
    Duplicate(T *q, bool) : p(q) {}
    T &operator*() { return *p; }
};
template <class T> T *relocate_to(T *e, std::true_type) {
    T *n = new T(std::move(*e));
    delete e;
    return n;
}
template <class T> T *relocate_to(T *e, std::false_type) { return e; }
template <class T> T *relocate(T *e) { return relocate_to(e, std::is_move_constructible<T>()); }
template <class B, class T> static void del_as(int how, T *p) { if (how & 1) del((B *)p); else del(p); } // through a base class or as what it is

static size_t out_bytes(int alg, uint64_t bits) { return is_xof(alg) ? (bits + 7) / 8 : ref_digest_size(alg); }
static Bytes want_digest(int alg, RefHash &h, uint64_t bits) { return is_xof(alg) ? h.squeeze_bits(bits) : h.digest(); }

struct HCtx : Obj { // C hash context
    int alg = 0;
    void *mem;
    size_t size;
    RefHash ref;
    enum { RAW, ABSORB, SQUEEZE, DONE } st = RAW;
    HCtx(size_t n) : size(n) { mem = raw_alloc(n); junk(mem, n); fault(F_JUNK_STORAGE); }
    ~HCtx() { raw_free(mem); }
};
static void probe_len(const RefHash &h) {
    if (!is_xof(h.alg) && h.alg <= A_SHA512_256) {
        size_t b = ref_block_size(h.alg), r = h.total % b;
        if (r >= b - (b == 64 ? 8 : 16)) probe(PR_TWO_BLOCK_PAD);
    }
}
static void do_hash(const Op &o) {
    const AlgI *A;
    switch (o.code) {
    case H_INIT: {
        if (is_shared(o.a[0])) return;
        int alg = (int)(o.a[1] & 15);
        A = &AI[alg];
        HCtx *c = get<HCtx>(o);
        if (c && AI[c->alg].family == A->family) { if (c->st == HCtx::ABSORB || c->st == HCtx::SQUEEZE) fault(F_CLIENT_CRASH); }
        else { drop(slot_no(o, o.a[0])); slot(o).reset(c = new HCtx(A->ctxsize)); }
        c->alg = alg;
        call(o, [&] { A->init(c->mem); });
        c->ref.init(alg);
        c->st = HCtx::ABSORB;
        break;
    }
    case H_UPD: {
        HCtx *c = get<HCtx>(o);
        if (!c || c->st != HCtx::ABSORB) return;
        In in(o.a[2], o.a[1], (int)(o.a[3] & 15));
        if (!in.n) probe(PR_UPDATE_EMPTY);
        call(o, [&] { AI[c->alg].update(c->mem, in.p, in.n); });
        c->ref.update(in.copy.data(), in.n);
        break;
    }
    case H_DIG: {
        HCtx *c = get<HCtx>(o);
        if (!c || (c->st != HCtx::ABSORB && c->st != HCtx::SQUEEZE)) return;
        uint64_t bits = o.a[1];
        if (c->st == HCtx::SQUEEZE) probe(PR_SQUEEZE_CONT);
        probe_len(c->ref);
        Out out(out_bytes(c->alg, bits));
        call(o, [&] { AI[c->alg].digest(c->mem, out.p, bits); });
        Bytes w = want_digest(c->alg, c->ref, bits);
        c->st = is_xof(c->alg) && bits % 8 == 0 ? HCtx::SQUEEZE : HCtx::DONE;
        if (is_xof(c->alg) && bits % 8) probe(PR_PARTIAL_BITS);
        expect("digest", out.p, out.n, w.data(), w.size());
        break;
    }
    case H_COPY: {
        HCtx *c = get<HCtx>(o);
        int to = slot_no(o, o.a[1] & 7);
        if (!c || c->st == HCtx::RAW || to == slot_no(o, o.a[0]) || is_shared(o.a[0])) return;
        drop(to);
        HCtx *d = new HCtx(c->size);
        memcpy(d->mem, c->mem, c->size);
        d->alg = c->alg; d->ref = c->ref; d->st = c->st;
        slots[to].reset(d);
        fault(F_SNAPSHOT);
        note_nontrivial(8);
        break;
    }
    case H_ONE: {
        int alg = (int)(o.a[0] & 15);
        In in(o.a[2], o.a[1], (int)(o.a[3] & 15));
        Out out(out_bytes(alg, o.a[4]));
        call(o, [&] { AI[alg].one(in.p, in.n, out.p, o.a[4]); });
        RefHash h(alg);
        h.update(in.copy.data(), in.n);
        probe_len(h);
        Bytes w = want_digest(alg, h, o.a[4]);
        expect("one-shot digest", out.p, out.n, w.data(), w.size());
        break;
    }
    case H_STR: {
        int alg = (int)(o.a[0] & 15);
        In in(o.a[2], o.a[1], 0, true);
        Out out(out_bytes(alg, o.a[4]));
        call(o, [&] { AI[alg].str(in.p, out.p, o.a[4]); });
        RefHash h(alg);
        h.update(in.copy.data(), in.n);
        Bytes w = want_digest(alg, h, o.a[4]);
        expect("string digest", out.p, out.n, w.data(), w.size());
        break;
    }
    case H_MULTI: {
        int alg = (int)(o.a[0] & 15);
        size_t k = (size_t)o.a[1] % 301, cnt = k > 12 ? 300 : 12;
        Rng r(o.a[2]);
        std::unique_ptr<In> in[300];
        cp p[300]; size_t l[300];
        RefHash h(alg);
        for (size_t i = 0; i < cnt; i++) {
            bool null = r.chance(1, 4);
            size_t len = r.chance(1, 5) ? 0 : r.chance(1, 3) ? 60 + r.below(90) : r.below(40);
            if (i >= k) { p[i] = (cp)(uintptr_t)8; l[i] = 1 + r.below(100); continue; } // beyond the count: never touched
            if (null) { p[i] = nullptr; l[i] = len; continue; }
            in[i].reset(new In(r.next(), len));
            p[i] = in[i]->p; l[i] = len;
            h.update(in[i]->copy.data(), len);
        }
        Out out(out_bytes(alg, o.a[4]));
        call(o, [&] { AI[alg].multi(out.p, o.a[4], k, p, l); });
        Bytes w = want_digest(alg, h, o.a[4]);
        expect("multi-segment digest", out.p, out.n, w.data(), w.size());
        break;
    }
    }
}

// ---------------------------------------------------------------- streams
struct Feed {
    enum K { DATA, END, ERR, INTR, WAIT };
    struct Ev { K k; size_t n; };
    std::vector<Ev> ev;
    size_t at = 0;
    Bytes data; size_t pos = 0;
    bool ended = false; int reads_after = 0; bool closed = false; bool persistent = false;
};
static ssize_t feed_read(void *c, char *b, size_t n) {
    sched_point();
    OutLib ol;
    Feed &f = *(Feed *)c;
    log_ev(0x90, n, f.at);
    if (f.ended) f.reads_after++;
    while (f.at < f.ev.size() && f.ev[f.at].k == Feed::WAIT) { fault(F_IO_DELAY); if (!P->P("frozen")) clock_add((int64_t)f.ev[f.at].n); f.at++; sched_point(); }
    if (f.at >= f.ev.size()) { f.ended = true; return 0; }
    Feed::Ev &e = f.ev[f.at];
    switch (e.k) {
    case Feed::END: f.at++; f.ended = true; fault(F_IO_EOF_INNER); return 0;
    case Feed::ERR: if (!f.persistent) f.at++; f.ended = true; fault(F_IO_ERROR); errno = EIO; return -1;
    case Feed::INTR: if (!f.persistent) f.at++; f.ended = true; fault(F_IO_EINTR); errno = EINTR; return -1;
    default: break;
    }
    size_t k = e.n < n ? e.n : n;
    if (k < n && f.at + 1 < f.ev.size()) { fault(F_IO_SHORT); note_nontrivial(16); }
    memcpy(b, &f.data[f.pos], k);
    f.pos += k;
    if (!(e.n -= k)) f.at++;
    return (ssize_t)k;
}
static int feed_close(void *c) { ((Feed *)c)->closed = true; return 0; }
static void do_file(const Op &o) {
    int alg = (int)(o.a[0] & 15);
    size_t len = o.a[1];
    Rng r(o.a[3]);
    int mode = (int)o.a[5], flt = (int)o.a[6]; // flt: 0 none, 1 eof then data, 2 error, 3 eintr, 4 lasting error
    Feed f;
    In src(o.a[2], len);
    f.data = src.copy;
    size_t bad = flt ? r.below(len + 1) : len;
    if (flt && r.chance(1, 3)) bad = bad / 1024 * 1024;
    int style = (int)r.below(5); // read sizes underneath
    bool waits = r.chance(1, 4);
    f.persistent = flt == 4;
    bool marked = false;
    for (size_t i = 0; i < len || (flt && !marked);) {
        if (flt && !marked && i >= bad) { f.ev.push_back({flt == 1 ? Feed::END : flt == 3 ? Feed::INTR : Feed::ERR, 0}); marked = true; continue; }
        size_t n = style == 0 ? len : style == 1 ? 1 + r.below(5) : style == 2 ? 1 + r.below(1500) : style == 3 ? (r.chance(1, 2) ? 1024 : 512) : 1 + r.logu(10);
        size_t lim = flt && !marked ? bad : len;
        if (n > lim - i) n = lim - i;
        if (waits && r.chance(1, 3)) f.ev.push_back({Feed::WAIT, r.below(3)});
        if (n) f.ev.push_back({Feed::DATA, n});
        i += n;
    }
    FILE *fp;
    cookie_io_functions_t io = {feed_read, nullptr, nullptr, feed_close};
    int what = flt ? 0 : mode >> 5 & 3; // a stream of the simulator, a regular file, a pipe, memory
    if (what == 2 && len > 60000) what = 1;
    if (what == 3 && !len) what = 0;
    if (what == 1) {
        int fd = memfd_create("data", 0);
        if (fd < 0 || write(fd, f.data.data(), len) != (ssize_t)len || lseek(fd, 0, SEEK_SET)) return;
        fp = fdopen(fd, "r");
    } else if (what == 2) {
        int fd[2];
        if (pipe(fd) || write(fd[1], f.data.data(), len) != (ssize_t)len) return;
        close(fd[1]);
        fp = fdopen(fd[0], "r");
    } else if (what == 3) fp = fmemopen(f.data.data(), len, "r");
    else fp = fopencookie(&f, "r", io);
    if (!fp) return;
    static char vbuf[8][5000];
    int tid = sim_tid() & 7;
    if ((mode & 3) == 1) setvbuf(fp, nullptr, _IONBF, 0);
    if ((mode & 3) == 2) setvbuf(fp, vbuf[tid], _IOFBF, 1 + r.below(4096));
    if ((mode & 3) == 3) setvbuf(fp, vbuf[tid], _IOLBF, 1 + r.below(64));
    size_t valid = flt ? bad : len, used = 0;
    RefHash h(alg);
    if (mode & 4) { // the caller has already taken some bytes
        size_t k = r.below(valid + 1);
        if (k > 3000) k = 3000;
        Bytes t(k + 1);
        used = k ? fread(t.data(), 1, k, fp) : 0;
    }
    if ((mode & 8) && used) {
        uint8_t c = (mode & 16) ? (uint8_t)r.below(256) : f.data[used - 1];
        if (ungetc(c, fp) != EOF) h.update(&c, 1);
    }
    if (valid > used && (valid - used) % 1024 == 0) probe(PR_EXACT_BUFFER_MULTIPLE);
    h.update(f.data.data() + used, valid - used);
    Out out(out_bytes(alg, o.a[4]));
    call(o, [&] { AI[alg].file(fp, out.p, o.a[4]); });
    Bytes w = want_digest(alg, h, o.a[4]);
    bool err = ferror(fp);
    if (err) probe(PR_READ_ERROR_SEEN);
    if (f.closed) violate(V_RESULT, "stream-closed", "the stream was closed by the hashing function");
    expect("file digest", out.p, out.n, w.data(), w.size());
    expect_num("ferror", err, flt >= 2);
    expect_num("reads after the end", f.reads_after, 0);
#ifdef __GLIBC__
    struct { int lock, cnt; void *owner; } lk;
    memcpy(&lk, fp->_lock, sizeof lk);
    expect_num("locks left on the stream", lk.lock || lk.cnt || lk.owner, 0);
#endif
    if (what && fcntl(fileno(fp), F_GETFD) < 0 && what < 3) violate(V_RESULT, "stream-closed", "the descriptor of the stream was closed by the hashing function");
    fclose(fp);
}

// ---------------------------------------------------------------- HMAC
struct MCtx : Obj {
    int alg; void *mem; RefHmac ref;
    enum { RAW, ACTIVE, DONE } st = RAW;
    MCtx(int a) : alg(a) { mem = raw_alloc(HI[a].ctxsize); junk(mem, HI[a].ctxsize); fault(F_JUNK_STORAGE); }
    ~MCtx() { raw_free(mem); }
};
struct Returned { // by an encoder
    const SequentialData *last = nullptr; Bytes copy;
    void check_last() { // the sequence returned last is still there
        if (!last) return;
        bool gone = __asan_region_is_poisoned((void *)last, sizeof *last);
        if (!gone && last->size()) gone = __asan_region_is_poisoned((void *)last->data(), last->size());
        G->checks++;
        if (gone) violate(V_RESULT, "digest-sequence-freed", "op %d: the sequence returned by get_digest is no longer valid", cur_op());
        else if (last->size() != copy.size() || memcmp(last->data(), copy.data(), copy.size())) violate(V_RESULT, "digest-sequence-changed", "op %d: the sequence returned by get_digest changed", cur_op());
    }
};
struct MEnc : Obj, Returned {
    HMACEncoder *e = nullptr; RefHmac ref; bool done = false; int alg = 0;
    void destroy() override { check_last(); last = nullptr; del_as<AbstractEncoder>(alg, e); }
    void meta() {
        expect_num("algorithm", e->algorithm(), AI[alg].choice);
        expect_num("digest_size", (int64_t)e->digest_size(), (int64_t)ref_digest_size(alg));
        expect_num("block_size", (int64_t)e->block_size(), (int64_t)ref_block_size(alg));
    }
};
static void probe_key(int alg, size_t n) { if (n > ref_block_size(alg)) probe(PR_LONG_KEY); }
static void do_hmac(const Op &o) {
    switch (o.code) {
    case M_INIT: {
        if (is_shared(o.a[0])) return;
        int alg = (int)(o.a[1] % 12);
        MCtx *c = get<MCtx>(o);
        if (!c || c->alg != alg) { drop(slot_no(o, o.a[0])); slot(o).reset(c = new MCtx(alg)); }
        else if (c->st == MCtx::ACTIVE) fault(F_CLIENT_CRASH);
        call(o, [&] { HI[alg].init(c->mem); });
        c->ref.set_key(alg, "", 0);
        c->st = MCtx::ACTIVE;
        break;
    }
    case M_KEY: {
        MCtx *c = get<MCtx>(o);
        if (!c || c->st == MCtx::RAW) return;
        In k(o.a[2], o.a[1]);
        probe_key(c->alg, k.n);
        call(o, [&] { HI[c->alg].key(c->mem, k.p, k.n); });
        c->ref.set_key(c->alg, k.copy.data(), k.n);
        c->st = MCtx::ACTIVE;
        break;
    }
    case M_UPD: {
        MCtx *c = get<MCtx>(o);
        if (!c || c->st != MCtx::ACTIVE) return;
        In in(o.a[2], o.a[1], (int)(o.a[3] & 15));
        call(o, [&] { HI[c->alg].update(c->mem, in.p, in.n); });
        c->ref.update(in.copy.data(), in.n);
        break;
    }
    case M_DIG: {
        MCtx *c = get<MCtx>(o);
        if (!c || c->st != MCtx::ACTIVE) return;
        Out out(ref_digest_size(c->alg));
        call(o, [&] { HI[c->alg].digest(c->mem, out.p); });
        c->st = MCtx::DONE;
        Bytes w = c->ref.digest();
        expect("hmac", out.p, out.n, w.data(), w.size());
        break;
    }
    case M_COPY: {
        MCtx *c = get<MCtx>(o);
        int to = slot_no(o, o.a[1] & 7);
        if (!c || c->st == MCtx::RAW || to == slot_no(o, o.a[0]) || is_shared(o.a[0])) return;
        drop(to);
        MCtx *d = new MCtx(c->alg);
        memcpy(d->mem, c->mem, HI[c->alg].ctxsize);
        d->ref = c->ref; d->st = c->st;
        slots[to].reset(d);
        fault(F_SNAPSHOT);
        note_nontrivial(8);
        break;
    }
    case M_ONE:
    case M_GEN: {
        int alg = (int)(o.a[0] % 12);
        In k(o.a[2], o.a[1]), d(o.a[4], o.a[3]);
        Out out(ref_digest_size(alg));
        probe_key(alg, k.n);
        if (o.code == M_ONE) call(o, [&] { HI[alg].one(k.p, k.n, d.p, d.n, out.p); });
        else call(o, [&] { pgfe_hmac(AI[alg].choice, k.p, k.n, d.p, d.n, out.p); });
        Bytes w = ref_hmac(alg, k.copy.data(), k.n, d.copy.data(), d.n);
        expect("one-shot hmac", out.p, out.n, w.data(), w.size());
        break;
    }
    case ME_NEW: {
        if (is_shared(o.a[0])) return;
        int alg = (int)(o.a[1] % 12), ov = (int)(o.a[4] & 3);
        drop(slot_no(o, o.a[0]));
        In k(o.a[3], o.a[2], 0, ov == 1);
        probe_key(alg, k.n);
        std::string s((char *)k.p, k.n);
        SequentialData sd(k.p, k.n);
        HMACEncoder *e = nullptr;
        if (call(o, [&] {
                switch (ov) {
                case 0: e = new HMACEncoder(AI[alg].choice, k.p, k.n); break;
                case 1: e = new HMACEncoder(AI[alg].choice, (const char *)k.p); break;
                case 2: e = new HMACEncoder(AI[alg].choice, s); break;
                default: e = new HMACEncoder(AI[alg].choice, sd); break;
                }
            }) != R_OK) return;
        MEnc *m = new MEnc;
        m->e = e; m->alg = alg;
        m->ref.set_key(alg, k.copy.data(), k.n);
        slot(o).reset(m);
        m->meta();
        break;
    }
    case ME_UPD: {
        MEnc *m = get<MEnc>(o);
        if (m && m->done) m->check_last();
        if (!m || m->done) return;
        int ov = (int)(o.a[3] & 3);
        In d(o.a[2], o.a[1], 0, ov == 1);
        std::string s((char *)d.p, d.n);
        SequentialData sd(d.p, d.n);
        Rc rc = call(o, [&] {
            if (o.a[3] & 4) m->e = relocate(m->e);
            switch (ov) {
            case 0: m->e->update(d.p, d.n); break;
            case 1: static_cast<AbstractEncoder *>(m->e)->update((const char *)d.p); break;
            case 2: static_cast<AbstractEncoder *>(m->e)->update(s); break;
            default: static_cast<AbstractEncoder *>(m->e)->update(sd); break;
            }
        });
        if (rc == R_OK) m->ref.update(d.copy.data(), d.n); else m->done = true;
        break;
    }
    case ME_DIG: {
        MEnc *m = get<MEnc>(o);
        if (m && m->done) m->check_last();
        if (!m || m->done) return;
        const SequentialData *r = nullptr;
        Rc rc = call(o, [&] { r = m->alg & 2 ? static_cast<AbstractEncoder *>(m->e)->get_digest() : m->e->get_digest(); });
        m->done = true;
        if (rc == R_OK && !r) violate(V_RESULT, "no digest", "op %d: get_digest returned no sequence", cur_op());
        else if (rc == R_OK) {
            expect("hmac encoder digest", *r, m->ref.digest());
            m->last = r; m->copy.assign(r->data(), r->data() + r->size());
        }
        m->meta();
        break;
    }
    case ME_DEL: if (get<MEnc>(o)) drop(slot_no(o, o.a[0])); break;
    }
}

// ---------------------------------------------------------------- HashEncoder
struct HEnc : Obj, Returned {
    HashEncoder *e = nullptr; int alg = 0; RefHash ref;
    enum { ABSORB, SQUEEZE, DONE, NEEDS_RESET } st = ABSORB;
    void meta() {
        expect_num("algorithm", e->algorithm(), AI[alg].choice);
        expect_num("digest_size", (int64_t)e->digest_size(), (int64_t)ref_digest_size(alg));
        expect_num("block_size", (int64_t)e->block_size(), (int64_t)ref_block_size(alg));
    }
    void destroy() override { check_last(); last = nullptr; if (alg == 2) del((AlgorithmSelectable *)e); else del_as<AbstractEncoder>(alg, e); }
};
static void do_henc(const Op &o) {
    if (o.code == E_NEW) {
        if (is_shared(o.a[0])) return;
        int alg = (int)(o.a[1] & 15);
        drop(slot_no(o, o.a[0]));
        HashEncoder *e = nullptr;
        if (call(o, [&] { e = new HashEncoder(AI[alg].choice); }) != R_OK) return;
        HEnc *h = new HEnc;
        h->e = e; h->alg = alg; h->ref.init(alg);
        slot(o).reset(h);
        h->meta();
        return;
    }
    HEnc *h = get<HEnc>(o);
    if (!h) return;
    switch (o.code) {
    case E_UPD: {
        if (h->st != HEnc::ABSORB) return;
        int ov = (int)(o.a[3] & 3);
        if ((o.a[3] & 4) && h->last) { // the digest it returned last
            const SequentialData *l = h->last;
            h->check_last();
            if (call(o, [&] { h->e->update(l->to_pgfe_seq(), l->length()); }) == R_OK) h->ref.update(h->copy.data(), h->copy.size()); else h->st = HEnc::NEEDS_RESET;
            break;
        }
        In d(o.a[2], o.a[1], 0, ov == 1);
        std::string s((char *)d.p, d.n);
        SequentialData sd(d.p, d.n);
        Rc rc = call(o, [&] {
            switch (ov) {
            case 0: h->e->update(d.p, d.n); break;
            case 1: static_cast<AbstractEncoder *>(h->e)->update((const char *)d.p); break;
            case 2: static_cast<AbstractEncoder *>(h->e)->update(s); break;
            default: static_cast<AbstractEncoder *>(h->e)->update(sd); break;
            }
        });
        if (rc == R_OK) h->ref.update(d.copy.data(), d.n); else h->st = HEnc::NEEDS_RESET;
        break;
    }
    case E_DIG: {
        if (h->st != HEnc::ABSORB && h->st != HEnc::SQUEEZE) return;
        uint64_t bits = o.a[1];
        if (!is_xof(h->alg)) bits -= bits % 8;
        if (h->st == HEnc::SQUEEZE) probe(PR_SQUEEZE_CONT);
        const SequentialData *r = nullptr;
        Rc rc = call(o, [&] { r = !bits && (o.a[2] & 1) ? static_cast<AbstractEncoder *>(h->e)->get_digest() : h->e->get_digest(bits); });
        if (rc == R_OK && !r) { violate(V_RESULT, "no digest", "op %d: get_digest returned no sequence", cur_op()); h->st = HEnc::NEEDS_RESET; h->last = nullptr; break; }
        if (rc != R_OK) { h->st = HEnc::NEEDS_RESET; h->last = nullptr; break; }
        Bytes w;
        if (is_xof(h->alg)) {
            if (!bits) bits = ref_digest_size(h->alg) * 8;
            w = h->ref.squeeze_bits(bits);
            h->st = bits % 8 ? HEnc::DONE : HEnc::SQUEEZE;
            if (bits % 8) probe(PR_PARTIAL_BITS);
        } else {
            w = h->ref.digest();
            if (bits && bits / 8 < w.size()) w.resize(bits / 8);
            h->st = HEnc::DONE;
        }
        expect("encoder digest", *r, w);
        h->last = r; h->copy.assign(r->data(), r->data() + r->size());
        break;
    }
    case E_RESET: {
        Rc rc = call(o, [&] { h->e->reset(); });
        if (rc == R_OK) {
            if (h->st == HEnc::NEEDS_RESET) probe(PR_RESET_AFTER_FAIL);
            h->ref.init(h->alg);
            h->st = HEnc::ABSORB;
        } else h->st = HEnc::NEEDS_RESET;
        break;
    }
    case E_DEL: drop(slot_no(o, o.a[0])); return;
    }
    h->check_last();
    h->meta();
}

// ---------------------------------------------------------------- base encodings
static bool in_alphabet(int kind, uint8_t c) { // the ones a decoder takes, and the padding
    if (c == '=') return true;
    bool dig = c >= '0' && c <= '9', let = (c | 32) >= 'a' && (c | 32) <= 'z';
    switch (kind) {
    case B16: return dig || (let && (c | 32) <= 'f');
    case B32: return let || (c >= '2' && c <= '7');
    case B32HEX: return dig || (let && (c | 32) <= 'v');
    default: return dig || let || c == '+' || c == '/' || c == '-' || c == '_';
    }
}
static std::string mutate(int kind, const std::string &text, uint64_t seed, int flags) {
    std::string t = text, n;
    Rng r(seed);
    if (flags & 4) { size_t e = t.find('='); if (e != std::string::npos) t.resize(e); fault(F_TEXT_CUT); }
    if (flags & 8) { if (!t.empty()) { t.resize(r.below(t.size() + 1)); fault(F_TEXT_CUT); note_nontrivial(32); } }
    if ((flags & 2) && kind <= B32HEX) for (auto &c : t) if (c >= 'A' && c <= 'Z' && !r.chance(1, 4)) c += 32;
    if (flags & 1) {
        static const char common[] = " \t\r\n.,:;!#$%&()*<>?@[]^`{|}~\"'\\\x80\xff\xc3\x01\x7f", b16[] = "gGhzZXx+-/_", b32[] = "0189+-/_", b32h[] = "wWxXyYzZ+-/_";
        const char *own = kind == B16 ? b16 : kind == B32 ? b32 : kind == B32HEX ? b32h : " ";
        int rate = 1 + (int)r.below(12);
        for (size_t i = 0; i <= t.size(); i++) {
            while (r.chance(1, rate + 1)) {
                if (r.chance(1, 3)) { // any byte outside the alphabet
                    uint8_t c = (uint8_t)(1 + r.below(255));
                    if (!in_alphabet(kind, c)) n += (char)c;
                } else n += r.chance(1, 4) ? own[r.below(strlen(own))] : common[r.below(sizeof common - 1)];
                fault(F_TEXT_NOISE); note_nontrivial(32);
            }
            if (i < t.size()) n += t[i];
        }
        t = n;
    }
    return t;
}
struct BObj : Obj {
    AbstractBaseEncoding *e = nullptr; Base16 *e16 = nullptr; Base32 *e32 = nullptr; Base64 *e64 = nullptr; int kind = 0;
    void destroy() override { if (kind % 2) del(e); else call(NOFAULT, [&] { delete e16; delete e32; delete e64; }); }
    size_t most = 0;
};
static void do_base(const Op &o) {
    int kind = (int)(o.a[0] % B_COUNT);
    switch (o.code) {
    case B_ENC: {
        In in(o.a[2], o.a[1], (int)(o.a[3] & 15));
        std::string w = ref_base_encode(kind, in.copy.data(), in.n);
        if (in.n && !in.copy.back()) probe(PR_ZERO_TAIL);
        Out out(w.size() + 1);
        size_t n = 0;
        call(o, [&] { n = ENC[kind](in.p, in.n, (char *)out.p); });
        w.push_back(0);
        expect("base encoding", out.p, out.n, w.data(), w.size());
        expect_num("encoded length", (int64_t)n, (int64_t)w.size() - 1);
        break;
    }
    case B_DEC: {
        Bytes d(o.a[1]);
        fill_bytes(o.a[2], d.data(), d.size());
        std::string t = mutate(kind, ref_base_encode(kind, d.data(), d.size()), o.a[3], (int)o.a[4]);
        Bytes w = ref_base_decode(kind, t);
        In in(t);
        Out out(w.size() + 1);
        size_t n = 0;
        call(o, [&] { n = DEC[kind]((char *)in.p, out.p); });
        expect("base decoding", out.p, w.size(), w.data(), w.size());
        expect_num("decoded length", (int64_t)n, (int64_t)w.size());
        break;
    }
    case BO_NEW: {
        if (!may_mutate(o)) return;
        drop(slot_no(o, o.a[0]));
        BObj *b = new BObj;
        b->kind = (int)(o.a[1] % B_COUNT);
        Rc rc = call(o, [&] {
            switch (b->kind) {
            case B16: b->e = b->e16 = new Base16; break;
            case B32: case B32HEX: b->e = b->e32 = new Base32(b->kind == B32HEX); break;
            default: b->e = b->e64 = new Base64(b->kind == B64URL); break;
            }
        });
        if (rc == R_OK) slot(o).reset(b); else delete b;
        break;
    }
    case BO_ENC: {
        BObj *b = get<BObj>(o);
        if (!b) return;
        int ov = (int)(o.a[3] & 3);
        In in(o.a[2], o.a[1], 0, ov == 1);
        std::string s((char *)in.p, in.n), got;
        SequentialData sd(in.p, in.n);
        Rc rc = call(o, [&] {
            std::string t = ov == 0 ? b->e->encode(in.p, in.n) : ov == 1 ? b->e->encode((const char *)in.p) : ov == 2 ? b->e->encode(s) : b->e->encode(sd);
            OutLib ol;
            got = t;
        });
        if (rc == R_OK) expect("object encoding", got, ref_base_encode(b->kind, in.copy.data(), in.n));
        if (in.n > b->most) { b->most = in.n; probe(PR_CACHE_GROW); }
        break;
    }
    case BO_DEC: {
        BObj *b = get<BObj>(o);
        if (!b) return;
        int ov = (int)(o.a[5] & 1);
        Bytes d(o.a[1]);
        fill_bytes(o.a[2], d.data(), d.size());
        std::string t = mutate(b->kind, ref_base_encode(b->kind, d.data(), d.size()), o.a[3], (int)o.a[4]);
        In in(t);
        Bytes got;
        Rc rc = call(o, [&] {
            SequentialData sd = ov ? b->e->decode(t) : b->e->decode((const char *)in.p);
            OutLib ol;
            got.assign(sd.data(), sd.data() + sd.size());
        });
        Bytes w = ref_base_decode(b->kind, t);
        if (rc == R_OK) expect("object decoding", got.data(), got.size(), w.data(), w.size());
        break;
    }
    case BO_DEL: if (may_mutate(o) && get<BObj>(o)) drop(slot_no(o, o.a[0])); break;
    }
}

// ---------------------------------------------------------------- OTP
struct Sec { Bytes b; std::string s; SequentialData sd; std::unique_ptr<In> in; std::string b32; };
// overload: 0 raw, 1 C string, 2 std::string, 3 SequentialData, 4.. Base32 text
static void make_secret(Sec &x, int ov, size_t klen, uint64_t seed, uint64_t mseed, int flags) {
    if (ov >= 4) {
        Bytes d(klen);
        fill_bytes(seed, d.data(), klen);
        x.b32 = mutate(B32, ref_base_encode(B32, d.data(), klen), mseed, flags);
        x.b = ref_base_decode(B32, x.b32);
        x.in.reset(new In(x.b32));
        x.s = x.b32;
        return;
    }
    x.in.reset(new In(seed, klen, 0, ov == 1));
    x.b = x.in->copy;
    x.s.assign((char *)x.in->p, klen);
    x.sd.assign(x.in->p, klen);
}
template <class T> static void set_secret(T *h, int ov, Sec &x) {
    switch (ov) {
    case 0: h->set_secret(x.in->p, x.in->n); break;
    case 1: h->set_secret((const char *)x.in->p); break;
    case 2: h->set_secret(x.s); break;
    case 3: h->set_secret(x.sd); break;
    case 4: h->set_secret((const char *)x.in->p, true); break;
    case 5: h->set_secret(x.s, true); break;
    case 6: h->set_secret_from_base32((const char *)x.in->p); break;
    default: h->set_secret_from_base32(x.s); break;
    }
}
static bool known_alg(int alg) { return alg <= A_SHA3_512; }
// the 31-bit values a code may stand for; false: nothing is specified
static bool code_ok(int alg, const Bytes &sec, uint64_t ctr, unsigned digits, bool str, uint32_t v, const std::string &s, bool *undef) {
    bool def;
    uint32_t w = ref_hotp31(alg, sec, ctr, &def);
    if (!def) { if (undef) *undef = true; return true; }
    return str ? s == ref_otp_str(w, digits) : v == ref_otp_cut(w, digits);
}
struct HObj : Obj {
    HOTP *h = nullptr; int alg = 0; bool has = false; Bytes sec; uint64_t co = 0;
    void destroy() override { del_as<AbstractOTP>(alg, h); }
};
struct TObj : Obj {
    TOTP *t = nullptr; int alg = 0; bool has = false; Bytes sec;
    int64_t interval = 30, t0 = 0;
    bool have_code = false;
    std::set<int64_t> cand;  // time steps the last code may belong to
    std::set<int64_t> shown; // clock values shown during generating calls
    void destroy() override { if (alg % 3 == 0) del((HOTP *)t); else del_as<AbstractOTP>(alg, t); }
    void getters() {
        expect_num("interval()", t->interval(), interval);
        expect_num("initial_time()", t->initial_time(), t0);
    }
};
static bool valid_params(const TObj *t) { return t->interval >= 1; }
static void do_otp(const Op &o) {
    switch (o.code) {
    case OC_HOTP: {
        int alg = (int)(o.a[0] & 15), var = (int)(o.a[5] % 5);
        if (!known_alg(alg) && !P->P("shake_otp")) alg = A_SHA1; // the known finding has a plan of its own
        In k(o.a[2], o.a[1]);
        unsigned dg = (unsigned)o.a[4] & 255;
        if (var) alg = A_SHA1;
        if (var >= 2) dg = (unsigned)(var - 2) * 2 + 4;
        uint32_t v = 0;
        uint64_t c = (uint64_t)o.a[3];
        call(o, [&] {
            switch (var) {
            case 0: v = pgfe_hotp_generic(AI[alg].choice, k.p, k.n, c, (uint8_t)dg); break;
            case 1: v = pgfe_hotp(k.p, k.n, c, (uint8_t)dg); break;
            case 2: v = pgfe_hotp_4digits(k.p, k.n, c); break;
            case 3: v = pgfe_hotp_6digits(k.p, k.n, c); break;
            default: v = pgfe_hotp_8digits(k.p, k.n, c); break;
            }
        });
        result(&v, 4);
        G->checks++;
        bool def;
        uint32_t w = ref_hotp31(alg, k.copy, c, &def);
        if (def && v != ref_otp_cut(w, dg)) violate(V_RESULT, "hotp code", "op %d: HOTP code %u, expected %u (%s, counter %llu, %u digits)", cur_op(), v, ref_otp_cut(w, dg), ref_alg_name[alg], (unsigned long long)c, dg);
        break;
    }
    case HO_NEW: {
        if (!may_mutate(o)) return;
        drop(slot_no(o, o.a[0]));
        int alg = (int)(o.a[1] % (P->P("shake_otp") ? 16 : 12)), ov = (int)(o.a[2] % 5);
        Sec x;
        make_secret(x, ov == 4 ? 0 : ov, o.a[3], o.a[4], 0, 0);
        HOTP *h = nullptr;
        auto ch = AI[alg].choice;
        if (call(o, [&] {
                switch (ov) {
                case 0: h = new HOTP(x.in->p, x.in->n, ch); break;
                case 1: h = new HOTP((const char *)x.in->p, ch); break;
                case 2: h = new HOTP(x.s, ch); break;
                case 3: h = new HOTP(x.sd, ch); break;
                default: h = new HOTP(ch); break;
                }
            }) != R_OK) return;
        HObj *b = new HObj;
        b->h = h; b->alg = alg; b->has = ov != 4; b->sec = x.b;
        slot(o).reset(b);
        expect_num("algorithm", h->algorithm(), ch);
        break;
    }
    case HO_SECRET: {
        HObj *b = get<HObj>(o);
        if (!b || !may_mutate(o)) return;
        int ov = (int)(o.a[1] & 7);
        Sec x;
        make_secret(x, ov, o.a[2], o.a[3], o.a[4], (int)o.a[5]);
        if (call(o, [&] { set_secret(b->h, ov, x); }) == R_OK) { b->has = true; b->sec = x.b; }
        break;
    }
    case HO_COUNTER: {
        HObj *b = get<HObj>(o);
        if (!b || !may_mutate(o)) return;
        call(o, [&] { b->h->set_counter((uint64_t)o.a[1]); });
        b->co = (uint64_t)o.a[1];
        break;
    }
    case HO_GEN: {
        HObj *b = get<HObj>(o);
        if (!b) return;
        unsigned dg = (unsigned)o.a[1] & 255;
        bool str = o.a[2] & 1;
        uint32_t v = 0;
        std::string s;
        Rc rc = call(o, [&] {
            if (str) { std::string t = b->h->generate_str((uint8_t)dg); OutLib ol; s = t; }
            else v = b->h->generate((uint8_t)dg);
        }, R_NOTINIT);
        if (rc == R_NOMEM) break;
        if (!b->has || rc == R_NOTINIT) { expect_num("throws NotInitializedException", rc == R_NOTINIT, !b->has); break; }
        if (str) result(s.data(), s.size()); else result(&v, 4);
        G->checks++;
        if (!code_ok(b->alg, b->sec, b->co, dg, str, v, s, nullptr))
            violate(V_RESULT, "hotp object code", "op %d: HOTP object gives %s, expected %s (%s, secret of %zu bytes, counter %llu)", cur_op(), str ? s.c_str() : std::to_string(v).c_str(),
                    str ? ref_otp_str(ref_hotp31(b->alg, b->sec, b->co), dg).c_str() : std::to_string(ref_otp_cut(ref_hotp31(b->alg, b->sec, b->co), dg)).c_str(), ref_alg_name[b->alg], b->sec.size(), (unsigned long long)b->co);
        break;
    }
    case HO_DEL: if (may_mutate(o) && get<HObj>(o)) drop(slot_no(o, o.a[0])); break;

    case TO_NEW: {
        if (is_shared(o.a[0])) return;
        drop(slot_no(o, o.a[0]));
        int alg = (int)(o.a[1] % 12), ov = (int)(o.a[2] % 5);
        uint32_t iv = (uint32_t)o.a[5];
        if (iv < 1 || iv > 0x7fffffff) iv = 30;
        Sec x;
        make_secret(x, ov == 4 ? 0 : ov, o.a[3], o.a[4], 0, 0);
        TOTP *h = nullptr;
        auto ch = AI[alg].choice;
        if (call(o, [&] {
                switch (ov) {
                case 0: h = new TOTP(x.in->p, x.in->n, iv, ch); break;
                case 1: h = new TOTP((const char *)x.in->p, iv, ch); break;
                case 2: h = new TOTP(x.s, iv, ch); break;
                case 3: h = new TOTP(x.sd, iv, ch); break;
                default: h = new TOTP(iv, ch); break;
                }
            }) != R_OK) return;
        TObj *b = new TObj;
        b->t = h; b->alg = alg; b->has = ov != 4; b->sec = x.b; b->interval = iv;
        slot(o).reset(b);
        b->getters();
        expect_num("algorithm", h->algorithm(), ch);
        break;
    }
    case TO_SECRET: {
        TObj *b = get<TObj>(o);
        if (!b) return;
        int ov = (int)(o.a[1] & 7);
        Sec x;
        make_secret(x, ov, o.a[2], o.a[3], o.a[4], (int)o.a[5]);
        if (call(o, [&] { set_secret(b->t, ov, x); }) == R_OK) { b->has = true; b->sec = x.b; b->have_code = false; }
        break;
    }
    case TO_INTERVAL: {
        TObj *b = get<TObj>(o);
        if (!b || o.a[1] < 1 || o.a[1] > 0x7fffffff) return;
        call(o, [&] { b->t->set_interval((uint32_t)o.a[1]); });
        b->interval = o.a[1]; b->have_code = false;
        b->getters();
        break;
    }
    case TO_COUNTER: { // a counter set by hand never makes a code that is not current
        TObj *b = get<TObj>(o);
        if (!b) return;
        call(o, [&] { b->t->set_counter((uint64_t)o.a[1]); });
        b->have_code = false;
        b->getters();
        break;
    }
    case TO_INITIAL: {
        TObj *b = get<TObj>(o);
        if (!b) return;
        call(o, [&] { b->t->set_initial_time(o.a[1]); });
        b->t0 = o.a[1]; b->have_code = false;
        b->getters();
        break;
    }
    case TO_GEN: {
        TObj *b = get<TObj>(o);
        if (!b || !valid_params(b)) return;
        unsigned dg = (unsigned)o.a[1] & 255;
        bool str = o.a[2] & 1;
        uint32_t v = 0;
        std::string s;
        if (clock_now() > 0xffffffffLL) probe(PR_CLOCK_2E32);
        Rc rc = call(o, [&] {
            if (o.a[2] & 2) { // the known finding has a plan of its own
                const AbstractOTP &base = *b->t;
                if (str) { std::string t = base.generate_str((uint8_t)dg); OutLib ol; s = t; }
                else v = base.generate((uint8_t)dg);
            }
            else if (str) { std::string t = b->t->generate_str((uint8_t)dg); OutLib ol; s = t; }
            else v = b->t->generate((uint8_t)dg);
        }, R_NOTINIT);
        std::vector<int64_t> sh = clock_op().shown;
        if (sh.empty()) sh.push_back(clock_now());
        for (int64_t c : sh) b->shown.insert(c);
        if (rc == R_NOMEM) { b->have_code = false; break; }
        if (!b->has || rc == R_NOTINIT) { b->have_code = false; expect_num("throws NotInitializedException", rc == R_NOTINIT, !b->has); break; }
        if (str) result(s.data(), s.size()); else result(&v, 4);
        G->checks++;
        std::set<int64_t> steps, ok;
        bool undef = false;
        for (int64_t c : sh) if (c >= b->t0) steps.insert((c - b->t0) / b->interval);
        if (b->have_code && steps.size() == 1 && b->cand.count(*steps.begin())) probe(PR_CODE_CACHED);
        for (int64_t st : steps) if (code_ok(b->alg, b->sec, (uint64_t)st, dg, str, v, s, &undef)) ok.insert(st);
        if (ok.empty()) {
            std::string w;
            for (int64_t st : steps) w += " " + ref_otp_str(ref_hotp31(b->alg, b->sec, (uint64_t)st), dg);
            violate(V_RESULT, "totp object code", "op %d: the TOTP object gives %s, current codes are%s (clock %lld, interval %lld, initial time %lld)", cur_op(), str ? s.c_str() : std::to_string(v).c_str(), w.c_str(),
                    (long long)sh[0], (long long)b->interval, (long long)b->t0);
        }
        b->cand = undef ? steps : ok;
        b->have_code = true;
        break;
    }
    case TO_REM: {
        TObj *b = get<TObj>(o);
        if (!b || !b->have_code) return;
        int64_t v = 0;
        call(o, [&] { v = b->t->remaining_time(); });
        result(&v, 8);
        G->checks++;
        if (v <= 0) probe(PR_STEP_EXPIRED);
        bool ok = false;
        std::string w;
        for (int64_t st : b->cand)
            for (int64_t c : clock_op().shown) {
                int64_t e = b->t0 + (st + 1) * b->interval - c;
                ok |= e == v;
                w += " " + std::to_string(e);
            }
        if (!ok) violate(V_RESULT, "remaining_time", "op %d: remaining_time() is %lld, expected%s", cur_op(), (long long)v, w.c_str());
        break;
    }
    case TO_UPD: {
        TObj *b = get<TObj>(o);
        if (!b || !b->have_code) return;
        int64_t v = 0;
        call(o, [&] { v = b->t->update_time(); });
        result(&v, 8);
        G->checks++;
        bool ok = b->shown.count(v) && v >= b->t0 && b->cand.count((v - b->t0) / b->interval);
        if (!ok) violate(V_RESULT, "update_time", "op %d: update_time() is %lld: %s", cur_op(), (long long)v, b->shown.count(v) ? "not in the time step of the last code" : "the clock never showed that in a generating call");
        break;
    }
    case TO_DEL: if (get<TObj>(o)) drop(slot_no(o, o.a[0])); break;
    case OC_TOTP: {
        int var = (int)(o.a[6] & 7) % 5, alg = (int)(o.a[0] & 15);
        bool null = o.a[6] & 8;
        if (!known_alg(alg)) alg = A_SHA1;
        unsigned dg = (unsigned)o.a[3] & 255;
        int64_t iv = o.a[4], t0 = o.a[5];
        if (iv < 1 || iv > 0x7fffffff) iv = 30;
        if (var) { alg = A_SHA1; t0 = 0; }
        if (var >= 2) dg = (unsigned)(var - 2) * 2 + 4;
        In k(o.a[2], o.a[1]);
        int32_t *delta = (int32_t *)raw_alloc(4);
        junk(delta, 4);
        uint32_t v = 0;
        int32_t *dp = null ? nullptr : delta;
        if (clock_now() > 0xffffffffLL) probe(PR_CLOCK_2E32);
        call(o, [&] {
            switch (var) {
            case 0: v = pgfe_totp_generic(AI[alg].choice, k.p, k.n, (uint8_t)dg, (uint32_t)iv, t0, dp); break;
            case 1: v = pgfe_totp(k.p, k.n, (uint8_t)dg, (uint32_t)iv, dp); break;
            case 2: v = pgfe_totp_4digits(k.p, k.n, (uint32_t)iv, dp); break;
            case 3: v = pgfe_totp_6digits(k.p, k.n, (uint32_t)iv, dp); break;
            default: v = pgfe_totp_8digits(k.p, k.n, (uint32_t)iv, dp); break;
            }
        });
        result(&v, 4);
        if (!null) result(delta, 4);
        G->checks++;
        bool ok = false;
        std::string w;
        for (int64_t c : clock_op().shown) {
            if (c < t0) continue;
            bool a = code_ok(alg, k.copy, (uint64_t)((c - t0) / iv), dg, false, v, "", nullptr), d = null || *delta == iv - (c - t0) % iv;
            ok |= a && d;
            w += " " + std::to_string(c) + (a ? "" : "(other code)") + (d ? "" : "(other remaining time " + std::to_string(iv - (c - t0) % iv) + ")");
        }
        if (!ok) violate(V_RESULT, "totp code", "op %d: pgfe_totp gives code %u and %d s remaining; no clock value of the call fits:%s (interval %lld, initial time %lld)", cur_op(), v, null ? 0 : *delta, w.c_str(), (long long)iv, (long long)t0);
        raw_free(delta);
        break;
    }
    }
}

// ---------------------------------------------------------------- Blowfish
struct FCtx : Obj { struct pgfe_blowfish_ctx *c; struct pgfe_blowfish_ctx snap; RefBlowfish ref; bool ready = false;
    FCtx() { c = (struct pgfe_blowfish_ctx *)raw_alloc(sizeof *c); junk(c, sizeof *c); fault(F_JUNK_STORAGE); } ~FCtx() { raw_free(c); } };
struct FObj : Obj { Blowfish *b = nullptr; RefBlowfish ref; int via = 0; void destroy() override { del_as<AbstractSymmetricCrypter>(via, b); } };
static size_t klen_ok(int64_t n) { return n < 1 ? 1 : n > 72 ? 72 : (size_t)n; }
static void do_fish(const Op &o) {
    switch (o.code) {
    case BF_INIT: {
        if (!may_mutate(o)) return;
        FCtx *f = get<FCtx>(o);
        if (!f) { drop(slot_no(o, o.a[0])); slot(o).reset(f = new FCtx); }
        In k(o.a[2], klen_ok(o.a[1]));
        call(o, [&] { pgfe_blowfish_init(f->c, k.p, k.n); });
        f->ref.init(k.copy.data(), k.n);
        f->snap = *f->c;
        f->ready = true;
        break;
    }
    case BF_CRYPT: {
        FCtx *f = get<FCtx>(o);
        if (!f || !f->ready) return;
        In in(o.a[2], o.a[1], (int)(o.a[4] & 15));
        int dir = (int)(o.a[3] % 3);
        size_t bl = (in.n + 7) / 8 * 8, n = 0;
        Out out(bl);
        call(o, [&] { n = dir == 1 ? pgfe_blowfish_decrypt(f->c, in.p, in.n, out.p) : pgfe_blowfish_encrypt(f->c, in.p, in.n, out.p); });
        Bytes w = f->ref.crypt(in.copy.data(), in.n, dir == 1);
        expect(dir == 1 ? "blowfish plaintext" : "blowfish ciphertext", out.p, out.n, w.data(), w.size());
        expect_num("blowfish length", (int64_t)n, (int64_t)bl);
        if (dir == 2) {
            Out back(bl);
            call(NOFAULT, [&] { n = pgfe_blowfish_decrypt(f->c, out.p, bl, back.p); });
            Bytes pt = in.copy;
            pt.resize(bl);
            expect("blowfish round trip", back.p, bl, pt.data(), bl);
        }
        if (memcmp(&f->snap, f->c, sizeof f->snap)) violate(V_RESULT, "key-schedule-changed", "op %d: the key schedule changed", cur_op());
        break;
    }
    case BF_UNIT: {
        FCtx *f = get<FCtx>(o);
        if (!f || !f->ready) return;
        pgfe_fake_uint64_t u;
        Rng r(o.a[1]);
        uint32_t l = (uint32_t)r.next(), q = (uint32_t)r.next();
        u.left = l; u.right = q;
        bool dec = o.a[2] & 1;
        call(o, [&] { if (dec) pgfe_blowfish_decrypt_unit(f->c, &u); else pgfe_blowfish_encrypt_unit(f->c, &u); });
        f->ref.words(l, q, dec);
        expect_num("blowfish unit", (int64_t)u.left << 32 | u.right, (int64_t)l << 32 | q);
        if (memcmp(&f->snap, f->c, sizeof f->snap)) violate(V_RESULT, "key-schedule-changed", "op %d: the key schedule changed", cur_op());
        break;
    }
    case BFO_NEW: {
        if (!may_mutate(o)) return;
        drop(slot_no(o, o.a[0]));
        int ov = (int)(o.a[3] & 3);
        In k(o.a[2], klen_ok(o.a[1]), 0, ov == 1);
        std::string s((char *)k.p, k.n);
        SequentialData sd(k.p, k.n);
        Blowfish *b = nullptr;
        if (call(o, [&] { b = ov == 0 ? new Blowfish(k.p, k.n) : ov == 1 ? new Blowfish((const char *)k.p) : ov == 2 ? new Blowfish(s) : new Blowfish(sd); }) != R_OK) return;
        FObj *f = new FObj;
        f->b = b; f->via = (int)(k.n & 1);
        f->ref.init(k.copy.data(), k.n);
        slot(o).reset(f);
        break;
    }
    case BFO_CRYPT: {
        FObj *f = get<FObj>(o);
        if (!f) return;
        int ov = (int)(o.a[4] & 3), dir = (int)(o.a[3] % 3);
        In in(o.a[2], o.a[1], 0, ov == 1);
        std::string s((char *)in.p, in.n);
        SequentialData sd(in.p, in.n);
        Bytes got;
        Rc rc = call(o, [&] {
            Duplicate<Blowfish> twin(f->b, o.a[4] & 4);
            Blowfish &b = *twin;
            SequentialData r = dir == 1 ? (ov == 0 ? b.decrypt(in.p, in.n) : ov == 1 ? b.decrypt((const char *)in.p) : ov == 2 ? b.decrypt(s) : b.decrypt(sd))
                                        : (ov == 0 ? b.encrypt(in.p, in.n) : ov == 1 ? b.encrypt((const char *)in.p) : ov == 2 ? b.encrypt(s) : b.encrypt(sd));
            OutLib ol;
            got.assign(r.data(), r.data() + r.size());
        });
        if (rc != R_OK) return;
        Bytes w = f->ref.crypt(in.copy.data(), in.n, dir == 1);
        expect(dir == 1 ? "blowfish object plaintext" : "blowfish object ciphertext", got.data(), got.size(), w.data(), w.size());
        if (dir == 2) {
            Bytes back;
            In ct(std::string(got.begin(), got.end()));
            call(NOFAULT, [&] {
                SequentialData r = f->b->decrypt(ct.p, ct.n);
                OutLib ol;
                back.assign(r.data(), r.data() + r.size());
            });
            Bytes pt = in.copy;
            pt.resize(w.size());
            expect("blowfish object round trip", back.data(), back.size(), pt.data(), pt.size());
        }
        break;
    }
    case BFO_DEL: if (may_mutate(o) && get<FObj>(o)) drop(slot_no(o, o.a[0])); break;
    }
}

// ---------------------------------------------------------------- helpers
static std::string hex_of(const Bytes &b) {
    std::string w;
    for (uint8_t c : b) { w += "0123456789abcdef"[c >> 4]; w += "0123456789abcdef"[c & 15]; }
    return w;
}
static Bytes trimmed(const Bytes &b, int sides) {
    size_t i = 0, n = b.size();
    if (sides & 1) while (i < n && !b[i]) i++;
    if (sides & 2) while (n > i && !b[n - 1]) n--;
    return Bytes(b.begin() + i, b.begin() + n);
}
// hex text as people write it: upper case, a prefix, a suffix, separators
static std::string hex_style(const Bytes &b, uint64_t seed) {
    Rng r(seed);
    std::string w = hex_of(b), t;
    int upper = (int)r.below(3), sep = (int)r.below(3);
    static const char S[] = ":- _.,\n\t";
    if (r.chance(1, 5)) t = r.chance(1, 2) ? "0x" : "0X";
    bool odd = b.size() && !(b[0] >> 4) && r.chance(1, 2); // without the leading zero
    for (size_t i = odd; i < w.size(); i++) {
        if (sep && t.size() >= 2 && (sep == 1 ? i % 2 == 0 : r.chance(1, 5))) t += S[r.below(8)];
        t += upper == 1 || (upper == 2 && r.chance(1, 2)) ? (char)toupper(w[i]) : w[i];
    }
    if (r.chance(1, 6)) t += r.chance(1, 2) ? 'h' : 'H';
    return t;
}
static std::string any_text(const In &in) {
    std::string x((char *)in.p, in.n);
    Rng r(in.n + 5);
    int mode = (int)r.below(3);
    for (char &c : x) if (!c || (mode == 1 && r.chance(1, 2)) || mode == 2) c = "0123456789abcdefABCDEFxXhH:- "[(uint8_t)c % 29];
    if (x.size() > 1 && r.chance(1, 5)) x[1] = r.chance(1, 2) ? 'x' : 'X';
    return x;
}
static std::string hex_clean(const std::string &x) { // only the digits, without a 0x in front
    std::string c;
    for (size_t i = x.size() >= 2 && (x[1] == 'x' || x[1] == 'X') ? 2 : 0; i < x.size(); i++) if (isascii(x[i]) && isxdigit(x[i])) c += x[i];
    return c;
}
static Bytes hex_value(const std::string &c) {
    Bytes b;
    auto v = [](char d) { return d <= '9' ? d - '0' : (d | 32) - 'a' + 10; };
    for (size_t i = c.size() % 2; i <= c.size(); i += 2) {
        if (i == 1) b.push_back((uint8_t)v(c[0]));
        if (i + 1 < c.size()) b.push_back((uint8_t)(v(c[i]) << 4 | v(c[i + 1])));
    }
    return b;
}
static std::string printed[8];
static bool print_fails[8];
static void do_misc(const Op &o) {
    switch (o.code) {
    case X_ALGSTR: {
        static const struct { const char *n; int a; } N[] = {{"md5", A_MD5}, {"MD5", A_MD5}, {"sha1", A_SHA1}, {"SHA1", A_SHA1}, {"sha224", A_SHA224}, {"SHA224", A_SHA224}, {"sha256", A_SHA256}, {"SHA256", A_SHA256},
            {"sha384", A_SHA384}, {"SHA384", A_SHA384}, {"sha512", A_SHA512}, {"SHA512", A_SHA512}, {"sha512_224", A_SHA512_224}, {"SHA512_224", A_SHA512_224}, {"sha512_256", A_SHA512_256}, {"SHA512_256", A_SHA512_256},
            {"sha3_224", A_SHA3_224}, {"SHA3_224", A_SHA3_224}, {"sha3_256", A_SHA3_256}, {"SHA3_256", A_SHA3_256}, {"sha3_384", A_SHA3_384}, {"SHA3_384", A_SHA3_384}, {"sha3_512", A_SHA3_512}, {"SHA3_512", A_SHA3_512},
            {"shake128", A_SHAKE128}, {"SHAKE128", A_SHAKE128}, {"rawshake128", A_RAWSHAKE128}, {"RawSHAKE128", A_RAWSHAKE128}, {"shake256", A_SHAKE256}, {"SHAKE256", A_SHAKE256},
            {"rawshake256", A_RAWSHAKE256}, {"RawSHAKE256", A_RAWSHAKE256}, {"no such algorithm", -1}, {"", -1}, {"sha", -1}, {"sha3", -1}, {"md4", -1}, {"sha2560", -1}, {"sha3_255", -1},
            {"SHA256 with a name far too long for any small buffer", -1}, {" sha1", -1}, {"\xff\x80", -1}};
        enum { NN = sizeof N / sizeof *N };
        auto &n = N[o.a[0] % NN];
        std::string s = n.n;
        int a = n.a;
        if (o.a[2]) { // something around a name
            Rng r(o.a[2]);
            switch (r.below(10)) {
            case 0: s += (char)(33 + r.below(90)); break;
            case 1: if (!s.empty()) s.pop_back(); break;
            case 2: if (!s.empty()) s[r.below(s.size())] ^= (char)(1 << r.below(8)); break;
            case 3: for (char &c : s) if (isalpha((uint8_t)c) && r.chance(1, 2)) c ^= 32; break;
            case 4: if (!s.empty()) s[0] ^= 32; break;
            case 5: s.insert(r.chance(1, 2) ? 0 : s.size(), 1, " \t\n-_"[r.below(5)]); break;
            case 6: for (char &c : s) if (c == '_') c = "-/ ."[r.below(4)]; break;
            case 7: s.insert(r.below(s.size() + 1), 1, "-_ "[r.below(3)]); break;
            case 8: s += std::string(r.chance(1, 2) ? "\0" : "\0x", r.chance(1, 2) ? 1 : 2); break;
            default: s += std::string(1 + r.below(40), 'x');
            }
            if (o.a[1] % 3 != 1) s = s.c_str(); // these forms end at a zero byte
            a = -1;
            for (auto &m : N) if (s == m.n) a = m.a;
        }
        int v = -2;
        In cs{s};
        Rc rc = call(o, [&] { v = o.a[1] % 3 == 1 ? _algstr(s) : o.a[1] % 3 ? operator"" _pgfe_alg((const char *)cs.p, cs.n) : _algstr((const char *)cs.p); }, R_RANGE);
        if (rc == R_NOMEM) return;
        if (rc == R_OTHER) rc = R_RANGE;
        expect_num("algorithm name found", rc == R_OK, a >= 0);
        if (rc == R_OK && a >= 0) expect_num("algorithm of name", v, AI[a].choice);
        break;
    }
    case X_SIZES: {
        int a = (int)(o.a[0] & 15);
        size_t d = 0, b = 0;
        Rc rc = call(o, [&] { d = pgfe_digest_length.at(AI[a].choice); b = pgfe_block_length.at(AI[a].choice); }, R_RANGE);
        if (rc == R_NOMEM) return;
        expect_num("algorithm in the size tables", rc == R_OK, 1);
        if (rc == R_OK) {
            expect_num("digest size in the table", (int64_t)d, (int64_t)ref_digest_size(a));
            expect_num("block size in the table", (int64_t)b, (int64_t)ref_block_size(a));
        }
        break;
    }
    case X_HEX: {
        In in(o.a[1], o.a[0]);
        std::string w = hex_of(in.copy), styled = o.a[1] & 1 ? hex_style(in.copy, o.a[1]) : w;
        switch (o.a[2] % 13) {
        case 0: {
            Out out(w.size() + 1);
            size_t n = 0;
            call(o, [&] { n = pgfe_hash_to_hex_string(in.p, in.n, (char *)out.p); });
            expect("hex text", out.p, n <= w.size() ? n : w.size(), w.data(), w.size());
            break;
        }
        case 1: {
            In t(styled);
            Out out(in.n);
            size_t n = 0;
            call(o, [&] { n = pgfe_hex_string_to_hash((const char *)t.p, out.p); });
            expect("bytes of hex text", out.p, n <= in.n ? n : in.n, in.copy.data(), in.n);
            break;
        }
        case 2: {
            In t(styled);
            SequentialData *sd = nullptr;
            if (call(o, [&] { sd = utils::sequential_data::from_hex_string((const char *)t.p); }) != R_OK) return;
            expect("sequence of hex text", *sd, in.copy);
            del(sd);
            break;
        }
        case 4: { // any text
            std::string x = any_text(in), c = hex_clean(x);
            Bytes want = hex_value(c);
            In t(x);
            Out out(want.size()), clean(c.size() + 1);
            size_t n = 0, k = 0, l = 0;
            call(o, [&] { n = pgfe_hex_string_to_hash((const char *)t.p, out.p); k = pgfe_hash_string_clean((const char *)t.p, (char *)clean.p); l = pgfe_hash_length((const char *)t.p); });
            expect("bytes of a text", out.p, n <= want.size() ? n : want.size(), want.data(), want.size());
            expect("text cleaned", clean.p, k <= c.size() ? k + 1 : c.size(), (cp)c.c_str(), c.size() + 1);
            expect_num("bytes yielded", (int64_t)n, (int64_t)want.size());
            expect_num("computed length", (int64_t)l, (int64_t)n);
            break;
        }
        case 10: { // to standard output, by several threads at once too
            static FILE *to[2], *keep;
            static int users;
            int ti = sim_tid() & 7, many = P->nthreads > 1;
            if (!to[many]) {
                cookie_io_functions_t io = {nullptr, [](void *, const char *b, size_t k) -> ssize_t { OutLib ol; int i = sim_tid() & 7; return print_fails[i] ? 0 : (printed[i].append(b, k), (ssize_t)k); }, nullptr, nullptr};
                to[many] = fopencookie(nullptr, "w", io);
                static char buffer[4096];
                setvbuf(to[many], buffer, many ? _IONBF : _IOFBF, sizeof buffer); // without a buffer each thread's text is known to be its own
            }
            printed[ti].clear();
            print_fails[ti] = o.a[3] == 1;
            if (!users++) { keep = stdout; sim_stdout = stdout = to[many]; }
            call(o, [&] { pgfe_print_hash(in.p, in.n); });
            fflush(to[many]);
            if (!--users) { stdout = keep; sim_stdout = nullptr; }
            if (!print_fails[ti]) expect("text printed", printed[ti], w);
            if (!users) clearerr(to[many]);
            if (print_fails[ti]) { fault(F_IO_ERROR); print_fails[ti] = false; fflush(to[many]); }
            break;
        }
        case 11: {
            std::string x = any_text(in);
            Bytes want = hex_value(hex_clean(x));
            In t(x);
            SequentialData *sd = nullptr;
            if (call(o, [&] { sd = utils::sequential_data::from_hex_string((const char *)t.p); }) != R_OK) return;
            expect("sequence of a text", *sd, want);
            del(sd);
            break;
        }
        case 12: { // in place
            std::string x = any_text(in), c = hex_clean(x);
            size_t n = 0;
            In t(x);
            memcpy(t.copy.data(), t.p, t.n);
            call(o, [&] { n = pgfe_hash_string_clean_((char *)t.p); });
            expect("text cleaned in place", t.p, n <= t.n ? n + 1 : t.n, (cp)c.c_str(), c.size() + 1);
            if (t.n) memcpy(t.p, t.copy.data(), t.n);
            break;
        }
        case 5: {
            In t(w);
            Out out(w.size() + 1);
            size_t n = 0;
            call(o, [&] { n = pgfe_hash_string_clean((const char *)t.p, (char *)out.p); });
            expect("hex text cleaned", out.p, n <= w.size() ? n : w.size(), w.data(), w.size());
            break;
        }
        case 6: {
            std::string x = w;
            size_t n = 0;
            call(o, [&] { n = pgfe_hash_string_clean_(&x[0]); });
            expect("hex text cleaned in place", (cp)x.data(), n <= x.size() ? n : x.size(), w.data(), w.size());
            break;
        }
        case 7: {
            In t(styled);
            size_t n = 0;
            call(o, [&] { n = pgfe_hash_length((const char *)t.p); });
            expect_num("length of hex text", (int64_t)n, (int64_t)in.n);
            break;
        }
        case 8: {
            SequentialData *sd = nullptr;
            if (call(o, [&] { sd = utils::sequential_data::from_hex_string(styled); }) != R_OK) return;
            expect("sequence of hex text", *sd, in.copy);
            del(sd);
            break;
        }
        default: {
            SequentialData sd(in.p, in.n);
            std::string got;
            if (call(o, [&] { std::string x = sd.hex_str(); OutLib ol; got = x; }) != R_OK) return;
            expect("hex_str", got, w);
        }
        }
        break;
    }
    case X_SD: {
        int m = (int)(o.a[2] % 12);
        bool term = m == 1 || m == 5;
        In in(o.a[1], o.a[0], 0, term);
        std::string s((char *)in.p, in.n);
        SequentialData src(in.p, in.n);
        SequentialData *p = nullptr;
        Rc rc = call(o, [&] {
            switch (m) {
            case 0: p = new SequentialData(in.p, in.n); break;
            case 1: p = new SequentialData((const char *)in.p); break;
            case 2: p = new SequentialData(s); break;
            case 3: p = new SequentialData(src); break;
            case 4: p = utils::to_sequential_data(in.p, in.n); break;
            case 5: p = utils::to_sequential_data((const char *)in.p); break;
            case 6: p = utils::to_sequential_data(s); break;
            case 8: p = new SequentialData(src.trim()); break;
            case 9: p = new SequentialData(src.trim_right()); break;
            case 10: { SequentialData x(src), y(std::move(x)); p = new SequentialData(y); break; }
            case 11: { SequentialData x; x.assign(src); p = new SequentialData(x); break; }
            default: p = new SequentialData(&src); break;
            }
        });
        if (rc != R_OK) return;
        Bytes want = m == 8 || m == 9 ? trimmed(in.copy, m == 8 ? 3 : 2) : in.copy;
        expect("sequence", *p, want);
        std::string t;
        size_t n = 0;
        cp q = nullptr;
        if (call(o, [&] { std::string x = p->to_str(); q = p->to_pgfe_seq(n); OutLib ol; t = x; }) == R_OK) {
            expect("to_str", t, std::string(want.begin(), want.end()));
            expect("to_pgfe_seq", q, n, want.data(), want.size());
        }
        del(p);
        break;
    }
    }
}

// ---------------------------------------------------------------- SequentialData values with a life of their own
struct SObj : Obj {
    SequentialData *v = nullptr;
    Bytes b; // what it must hold
    bool moved = false; // may hold anything
    void destroy() override { if (v) del(v); v = nullptr; }
};
struct Sink : std::streambuf {
    std::string s;
    int_type overflow(int_type c) override { OutLib ol; s += (char)c; return c; }
    std::streamsize xsputn(const char *p, std::streamsize n) override { OutLib ol; s.append(p, (size_t)n); return n; }
};
static void intact(const char *what, const SObj *s) { if (s && s->v && !s->moved) expect(what, *s->v, s->b); }
static void others_intact(const Op &o) { // every value this thread has to itself, and the one used
    intact("sequence", get<SObj>(o));
    int base = slot_no(Op(), 0) + ((o.t < 0 ? 0 : o.t) & 7) * 8;
    if (o.t >= 0) for (int i = 0; i < 8; i++) intact("another sequence", dynamic_cast<SObj *>(slots[base + i].get()));
}
static void do_seq(const Op &o) {
    switch (o.code) {
    case SD_NEW: {
        if (!may_mutate(o)) return;
        drop(slot_no(o, o.a[0]));
        int m = (int)(o.a[1] % 10);
        bool term = m == 1 || m == 4;
        Bytes z(o.a[4] & 255), t(o.a[4] >> 8 & 255);
        std::string all(z.begin(), z.end());
        { In x(o.a[3], o.a[2], 0, term); all.append((char *)x.p, x.n); }
        all.append(t.begin(), t.end());
        if (term) all = all.c_str() + z.size();
        Bytes want(all.begin(), all.end());
        std::unique_ptr<In> in(new In(m == 6 || m == 7 ? hex_style(want, o.a[3]) : all)), other(new In(o.a[3] + 1, 40));
        std::string s((char *)in->p, in->n);
        SObj *n = new SObj;
        n->b = want;
        Rc rc = call(o, [&] {
            switch (m) {
            case 0: n->v = new SequentialData(in->p, in->n); break;
            case 1: n->v = new SequentialData((const char *)in->p); break;
            case 2: n->v = new SequentialData(s); break;
            case 3: n->v = utils::to_sequential_data(in->p, in->n); break;
            case 4: n->v = utils::to_sequential_data((const char *)in->p); break;
            case 5: n->v = utils::to_sequential_data(s); break;
            case 6: n->v = utils::sequential_data::from_hex_string((const char *)in->p); break;
            case 7: n->v = utils::sequential_data::from_hex_string(s); break;
            case 8: { SequentialData x(in->p, in->n); n->v = new SequentialData(std::move(x)); break; }
            default: { std::unique_ptr<SequentialData> x(new SequentialData); x->assign(in->p, in->n); n->v = x.release(); }
            }
        });
        in.reset(); // the sources are gone from here on
        std::fill(s.begin(), s.end(), '#');
        if (rc != R_OK) { delete n; return others_intact(o); }
        slot(o).reset(n);
        break;
    }
    case SD_FROM: {
        if (!may_mutate(o)) return;
        SObj *src = dynamic_cast<SObj *>(slots[slot_no(o, o.a[1])].get()), *dst = get<SObj>(o);
        if (!src || src == dst || src->moved) return;
        int m = (int)(o.a[2] % 13);
        bool sh = is_shared(o.a[1]) && o.t >= 0;
        if (sh && (m == 2 || m == 5 || (m >= 6 && m <= 8))) m = 0;
        if (m >= 3 && m <= 5 && (!dst || dst->moved)) m = 1;
        const SequentialData &c = *src->v;
        if (m >= 3 && m <= 5) {
            if (m == 4 && dst->b.size() + src->b.size() > 5000) return;
            Rc rc = call(o, [&] { if (m == 3) dst->v->assign(c); else if (m == 4) dst->v->append(c); else dst->v->swap(*src->v); });
            if (rc == R_OK) { if (m == 3) dst->b = src->b; else if (m == 4) dst->b.insert(dst->b.end(), src->b.begin(), src->b.end()); else std::swap(dst->b, src->b); }
            break;
        }
        SequentialData *v = nullptr;
        Rc rc = call(o, [&] {
            switch (m) {
            case 0: v = new SequentialData(c); break;
            case 1: v = new SequentialData(&c); break;
            case 2: v = new SequentialData(std::move(*src->v)); break;
            case 6: v = new SequentialData(src->v->trim()); break;
            case 7: v = new SequentialData(src->v->trim_left()); break;
            case 8: v = new SequentialData(src->v->trim_right()); break;
            case 9: v = new SequentialData(c.to_str()); break;
            case 10: { std::string h = c.hex_str(); v = utils::sequential_data::from_hex_string(h); break; }
            case 11: { size_t n = 0; cp p = c.to_pgfe_seq(n); v = new SequentialData(p, n); break; }
            default: { // as elements of a container that grows
                std::vector<SequentialData> l;
                for (int i = 0; i < 3; i++) l.push_back(c);
                v = new SequentialData(l[(size_t)o.a[2] % 3]);
            }
            }
        });
        if (m == 2 && rc == R_OK) src->moved = true;
        if (rc != R_OK) break;
        SObj *n = new SObj;
        n->v = v;
        n->b = m >= 6 && m <= 8 ? trimmed(src->b, m == 6 ? 3 : m == 7 ? 1 : 2) : src->b;
        if (m == 2 && o.a[0] % 2) drop(slot_no(o, o.a[1]));
        drop(slot_no(o, o.a[0]));
        slot(o).reset(n);
        break;
    }
    case SD_EDIT: {
        SObj *s = get<SObj>(o);
        if (!s || s->moved || !may_mutate(o)) return;
        In in(o.a[3], o.a[2] % 2000);
        int m = (int)(o.a[1] % 7);
        size_t at = s->b.empty() ? 0 : (size_t)o.a[3] % s->b.size(), cnt = (size_t)o.a[2];
        if (m == 0 && s->b.size() > 5000) return;
        Rc rc = call(o, [&] {
            switch (m) {
            case 0: s->v->append(in.p, in.n); break;
            case 1: s->v->erase(at, cnt); break;
            case 2: s->v->trim_(); break;
            case 3: s->v->trim_left_(); break;
            case 4: s->v->trim_right_(); break;
            case 5: s->v->clear(); break;
            default: s->v->shrink_to_fit(); break;
            }
        });
        if (rc != R_OK) break;
        switch (m) {
        case 0: s->b.insert(s->b.end(), in.copy.begin(), in.copy.end()); break;
        case 1: s->b.erase(s->b.begin() + at, s->b.begin() + at + std::min(cnt, s->b.size() - at)); break;
        case 2: case 3: case 4: s->b = trimmed(s->b, m == 2 ? 3 : m - 2); break;
        case 5: s->b.clear(); break;
        }
        break;
    }
    case SD_READ: {
        SObj *s = get<SObj>(o);
        if (!s || s->moved) return;
        const SequentialData &c = *s->v;
        int m = (int)(o.a[1] % 5);
        std::string got;
        Bytes raw;
        bool bytes = false;
        Sink sink;
        std::ostream os(&sink);
        Rc rc = call(o, [&] {
            switch (m) {
            case 0: { std::string x = c.to_str(); OutLib ol; got = x; break; }
            case 1: { std::string x = c.hex_str(); OutLib ol; got = x; break; }
            case 2: { cp p = c.to_pgfe_seq(); OutLib ol; raw.assign(p, p + s->b.size()); bytes = true; break; }
            case 3: { size_t n = 0; cp p = c.to_pgfe_seq(n); OutLib ol; raw.assign(p, p + n); bytes = true; break; }
            default: os << c;
            }
        });
        if (rc == R_OK) {
            if (bytes) expect("to_pgfe_seq", raw.data(), raw.size(), s->b.data(), s->b.size());
            else expect(m == 1 ? "hex_str" : m == 0 ? "to_str" : "stream output", m == 4 ? sink.s : got, m == 1 ? hex_of(s->b) : std::string(s->b.begin(), s->b.end()));
        }
        break;
    }
    case SD_DEL: if (may_mutate(o) && get<SObj>(o)) drop(slot_no(o, o.a[0])); break;
    }
    others_intact(o);
}

// ---------------------------------------------------------------- running a plan
static bool noise_op[8];
bool in_noise() { return P && noise_op[sim_tid() & 7]; }
// one argument varies from one repetition to the next, so that stale results show
static int varying(int c) {
    switch (c) {
    case H_UPD: case M_UPD: case ME_UPD: case E_UPD: case B_ENC: case B_DEC: case BO_ENC: case BO_DEC: case BF_CRYPT: case BFO_CRYPT: case H_ONE: case ME_NEW: case H_FILE: return 2;
    case OC_HOTP: case HO_NEW: case HO_SECRET: return 3;
    case SD_NEW: case SD_EDIT: return 3;
    case HO_COUNTER: case M_ONE: case M_GEN: case BF_UNIT: return c == HO_COUNTER || c == BF_UNIT ? 1 : 4;
    }
    return -1;
}
static void exec_op(int i) {
    Op o = P->ops[i];
    int ti = sim_tid() & 7;
    int c = o.code & 255;
    if (o.rep) { fault(F_ENDURANCE); note_nontrivial(64); }
    for (int64_t k = 0; k <= o.rep; k++) {
        set_cur_op(i);
        noise_op[ti] = o.code & NOISE;
        Op q = o;
        q.code = c;
        if (k && varying(c) >= 0) q.a[varying(c)] += k;
        G->ops++;
        G->opcount[c]++;
        if (o.dt) {
            fault(o.dt > 0 ? F_CLOCK_FWD : F_CLOCK_BACK);
            if (o.dt < 0) note_nontrivial(4);
            clock_add(o.dt);
        }
        log_ev(0x11, i, c);
        if (c == H_FILE) do_file(q);
        else if (c < M_INIT) do_hash(q);
        else if (c < E_NEW) do_hmac(q);
        else if (c < B_ENC) do_henc(q);
        else if (c < OC_HOTP) do_base(q);
        else if (c < X_CLOCK) do_otp(q);
        else if (c < X_ALGSTR) do_fish(q);
        else if (c < SD_NEW) do_misc(q);
        else do_seq(q);
    }
    noise_op[ti] = false;
    set_cur_op(-1);
}
static void setup_thread(int) {
    for (size_t i = 0; i < P->ops.size(); i++) if (P->ops[i].t < 0) exec_op((int)i);
}
static void work_thread(int t) {
    if (g_only >= 0 && t != g_only) return;
    for (size_t i = 0; i < P->ops.size(); i++) if (P->ops[i].t == t) exec_op((int)i);
}
// One history, its calls made by several threads, one after the other in the order of the plan; a thread ends with its last call
static int relay_at, relay_last;
static int relay_next(int i) {
    while (++i < (int)P->ops.size() && P->ops[i].t < 0) {}
    return i;
}
static void relay_thread(int me) {
    int n = (int)P->P("relay");
    for (int i = 0; i < (int)P->ops.size(); i++) {
        if (P->ops[i].t < 0 || P->ops[i].by % n != me) continue;
        while (relay_at != i) sched_wait(&relay_at);
        if (relay_last >= 0 && relay_last != me) { fault(F_HANDOVER); note_nontrivial(128); }
        exec_op(i);
        relay_last = me;
        relay_at = relay_next(i);
        sched_wake(&relay_at);
    }
    if (relay_at < (int)P->ops.size()) fault(F_THREAD_END);
}
static void teardown_thread(int) {
    for (int i = 0; i < NSLOT; i++) drop(i);
}
void exec_plan(const Plan &p) {
    P = &p;
    run_reset();
    for (size_t i = 0; i < p.ops.size() && i < MAXOPS; i++) G->opres[i] = 0;
    recycle_config((int)p.P("recycle"));
    alloc_config(p.P("jseed", 1), (int)p.P("jmode", 2), (uint64_t)p.P("jval", 3));
    fault(F_JUNK_HEAP); fault(F_JUNK_STACK); fault(F_STALE_ERRNO);
    clock_config(p.P("clock", 1700000000), p.P("nsec", 0), p.P("cmin", 0));
    sched_config(p);
    effects_config(p);
    bool setup = false;
    for (auto &o : p.ops) setup |= o.t < 0;
    if (setup) sched_run(1, setup_thread);
    if (p.P("relay")) {
        relay_at = relay_next(-1); relay_last = -1;
        sched_run((int)p.P("relay"), relay_thread);
    } else sched_run(p.nthreads, work_thread);
    set_cur_op(-1);
    sched_run(1, teardown_thread);
    G->runs++;
}
const char *op_name(int c) {
    switch (c & 255) {
#define N(x) case x: return #x;
    N(H_INIT) N(H_UPD) N(H_DIG) N(H_COPY) N(H_ONE) N(H_STR) N(H_MULTI) N(H_FILE) N(M_INIT) N(M_KEY) N(M_UPD) N(M_DIG) N(M_COPY) N(M_ONE) N(M_GEN) N(ME_NEW) N(ME_UPD) N(ME_DIG) N(ME_DEL)
    N(E_NEW) N(E_UPD) N(E_DIG) N(E_RESET) N(E_DEL) N(B_ENC) N(B_DEC) N(BO_NEW) N(BO_ENC) N(BO_DEC) N(BO_DEL) N(OC_HOTP) N(HO_NEW) N(HO_SECRET) N(HO_COUNTER) N(HO_GEN) N(HO_DEL)
    N(TO_NEW) N(TO_SECRET) N(TO_INTERVAL) N(TO_INITIAL) N(TO_GEN) N(TO_REM) N(TO_UPD) N(TO_DEL) N(TO_COUNTER) N(OC_TOTP) N(X_CLOCK) N(BF_INIT) N(BF_CRYPT) N(BF_UNIT) N(BFO_NEW) N(BFO_CRYPT) N(BFO_DEL)
    N(X_ALGSTR) N(X_SIZES) N(X_HEX) N(X_SD) N(SD_NEW) N(SD_FROM) N(SD_EDIT) N(SD_READ) N(SD_DEL)
    }
    return "?";
}
std::string op_text(const Op &o) {
    std::string s = (o.by ? "b" + std::to_string(o.by) : "t" + std::to_string(o.t)) + " " + op_name(o.code) + "(";
    int n = NARG;
    while (n > 1 && !o.a[n - 1]) n--;
    for (int i = 0; i < n; i++) s += (i ? "," : "") + std::to_string(o.a[i]);
    s += ")";
    if (o.code & NOISE) s += " (not judged)";
    if (o.fail) s += " fail-alloc " + std::to_string(o.fail) + "+" + std::to_string(o.fail2);
    if (o.dt) s += " clock" + std::string(o.dt > 0 ? "+" : "") + std::to_string(o.dt);
    if (o.rep) s += " " + std::to_string(o.rep) + " more times";
    if (o.d1 || o.d2) s += " clock-in-call " + std::to_string(o.d1) + "," + std::to_string(o.d2);
    return s;
}
