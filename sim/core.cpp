#include "core.h"
#include <cinttypes>
#include <cstdarg>
#include <sstream>
#include <unistd.h>

Shared *G;
int g_judge = -1, g_record = 0;
const char *fault_name[F_COUNT] = {"alloc_fail", "alloc_fail_burst", "clock_forward", "clock_backward", "clock_tick_in_call", "clock_jump_in_call",
    "io_short_read", "io_error", "io_eintr", "io_eof_then_data", "io_delay", "preempt", "preempt_at_sync", "blocked", "stalled_thread",
    "client_abandons", "context_copied", "text_cut", "text_noise", "junk_heap", "junk_stack", "junk_storage", "cold_start", "address_reused", "stale_errno", "long_history", "handed_to_another_thread", "thread_ended_objects_live_on"};
const char *probe_name[PR_COUNT] = {"mutex_contended", "cache_grow", "bad_alloc_seen", "retry_ok_after_fault", "reset_after_fault", "time_step_expired",
    "code_from_same_step", "clock_beyond_2e32", "empty_piece", "two_block_padding", "squeeze_continued", "partial_bits", "key_longer_than_block",
    "read_error_seen", "read_ends_on_buffer_multiple", "zero_tail", "carry_2e32_bits", "beyond_2e31_bytes", "beyond_2e32_bytes",
    "alloc_fail_tolerated"};

static void twin(uint64_t kind, uint8_t *p, size_t n);
void fill_bytes(uint64_t seed, uint8_t *p, size_t n) {
    if (uint64_t k = seed >> 48 & 0x7fff) { // nearly the bytes of another seed
        fill_bytes(seed & 0xffffffffffffULL, p, n);
        if (n) twin(k, p, n);
        return;
    }
    Rng r(seed * 0x9e37 + 77);
    int cls = (int)r.below(10);
    if (cls == 0) { memset(p, 0, n); return; }
    if (cls == 1) { memset(p, 0xff, n); return; }
    for (size_t i = 0; i < n;) {
        uint64_t v = r.next();
        for (int k = 0; k < 8 && i < n; k++, i++) p[i] = (uint8_t)(v >> (8 * k));
    }
    if (cls == 2) for (size_t i = 0; i < n; i++) p[i] = 'a' + p[i] % 26;
    if (cls == 3 && n) { // zero tail
        size_t k = r.below(n) + 1;
        memset(p + n - k, 0, k);
    }
    if (cls == 4 && n) { size_t k = r.below(n) + 1; memset(p, 0, k); }
    if (cls == 5 && n) { size_t a = r.below(n), k = r.below(n - a) + 1; memset(p + a, 0, k); }
}

static void twin(uint64_t kind, uint8_t *p, size_t n) {
    Rng r(kind);
    size_t z = (kind >> 4) % n;
    switch (kind & 15) {
    case 1: p[n - 1] ^= 1; break;
    case 2: p[0] ^= 0x80; break;
    case 3: p[n / 2] ^= 1; break;
    case 4: p[r.below(n)] ^= (uint8_t)(1 << r.below(8)); break;
    case 5: p[z] = 0; break;                           // these two are equal up to a zero byte
    case 6: p[z] = 0; for (size_t i = z + 1; i < n; i++) p[i] ^= 0x11; break;
    case 7: for (size_t i = 8; i < n; i++) p[i] ^= 0x24; break;   // the beginning is the same
    case 8: for (size_t i = 64; i < n; i++) p[i] ^= 0x24; break;
    case 9: for (size_t i = 0; i + 8 < n; i++) p[i] ^= 0x42; break; // the end is the same
    case 10: std::swap(p[0], p[n - 1]); break;         // sums and xors are the same
    case 11: std::swap(p[n / 2], p[n - 1]); break;
    case 12: if (n > 1) { p[n - 1] ^= 1; p[n - 2] ^= 1; } break;
    default: p[n - 1 - z] ^= 4;
    }
}

// ---------------------------------------------------------------- plan text
std::string Plan::text() const {
    std::ostringstream o;
    o << "plan " << prop << " index " << index << " seed " << seed << " threads " << nthreads << " strategy " << strategy << " sseed " << sched_seed
      << " explicit " << (int)explicit_sched << "\n";
    for (auto &p : par) o << "par " << p.first << " " << p.second << "\n";
    for (auto &q : ops) {
        o << "op " << q.t << " " << q.code;
        for (int i = 0; i < NARG; i++) o << " " << q.a[i];
        o << " f " << q.fail << " " << q.fail2 << " c " << q.dt << " " << q.d1 << " " << q.d2;
        if (q.rep) o << " r " << q.rep;
        if (q.by) o << " b " << q.by;
        o << "\n";
    }
    if (explicit_sched) {
        o << "sched";
        for (auto &s : sched) o << " " << s.t << ":" << s.q;
        o << "\n";
    }
    o << "end\n";
    return o.str();
}
bool Plan::parse(const std::string &s) {
    std::istringstream in(s);
    std::string l;
    *this = Plan();
    bool ok = false;
    while (std::getline(in, l)) {
        std::istringstream f(l);
        std::string w, x;
        f >> w;
        if (w == "plan") {
            int e;
            f >> prop >> x >> index >> x >> seed >> x >> nthreads >> x >> strategy >> x >> sched_seed >> x >> e;
            explicit_sched = e;
            ok = (bool)f;
        } else if (w == "par") {
            std::string k; int64_t v;
            f >> k >> v;
            par[k] = v;
        } else if (w == "op") {
            Op q;
            f >> q.t >> q.code;
            for (int i = 0; i < NARG; i++) f >> q.a[i];
            f >> x >> q.fail >> q.fail2 >> x >> q.dt >> q.d1 >> q.d2;
            if (!f) return false;
            while (f >> x) if (x == "r") f >> q.rep; else if (x == "b") f >> q.by;
            ops.push_back(q);
        } else if (w == "sched") {
            while (f >> w) {
                size_t c = w.find(':');
                if (c == std::string::npos) return false;
                sched.push_back({atoi(w.c_str()), atoll(w.c_str() + c + 1)});
            }
        } else if (w == "end") break;
    }
    return ok;
}

// ---------------------------------------------------------------- reporting
static inline uint64_t hmix(uint64_t h, uint64_t v) { return Rng::mix(h ^ (v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2))); }
void log_ev(uint64_t a, uint64_t b, uint64_t c) {
    G->hash = hmix(hmix(hmix(G->hash, a), b), c);
    G->fullhash = hmix(G->fullhash, G->hash);
}
void log_data(const void *p, size_t n) {
    uint64_t h = G->fullhash;
    const uint8_t *c = (const uint8_t *)p;
    for (; n >= 8; n -= 8, c += 8) { uint64_t v; memcpy(&v, c, 8); h = (h ^ v) * 0x9e3779b97f4a7c15ULL; h ^= h >> 29; }
    for (; n; n--, c++) h = (h ^ *c) * 0x100000001b3ULL;
    G->fullhash = hmix(h, 5);
}
void sched_flush_slice();
static int g_trivial;
void note_nontrivial(int w) { g_trivial |= w; }
int run_nontrivial() { return g_trivial; }
void run_reset() {
    G->hash = G->fullhash = 0x1234;
    G->nslice = 0;
    G->slice_overflow = 0;
    G->nedge = 0;
    g_trivial = 0;
}
void op_result(int op, uint64_t h) {
    if (op >= 0 && op < MAXOPS) G->opres[op] = h | 1;
}
void violate(int kind, const char *cls, const char *fmt, ...) {
    if (G->violated) _exit(42);
    if (!(kind & g_judge) || in_noise()) {
        __atomic_fetch_add(&G->foreign[__builtin_ctz(kind)], 1, __ATOMIC_RELAXED);
        // some can be passed over, others end the run
        if (kind & (V_DEADLOCK | V_HANG | V_CRASH | V_WILD)) _exit(43);
        return;
    }
    va_list ap;
    va_start(ap, fmt);
    snprintf(G->cls, sizeof G->cls, "%s", cls);
    vsnprintf(G->msg, sizeof G->msg, fmt, ap);
    va_end(ap);
    for (char *p = G->msg; *p; p++) if (*p == '\n') *p = ' ';
    G->viol_op = cur_op();
    sched_flush_slice();
    G->violated = kind;
    _exit(42);
}
