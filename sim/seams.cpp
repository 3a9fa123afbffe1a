// Allocation and clock seams, and junk for every kind of fresh memory.
#include "core.h"
#include <cerrno>
#include <new>
#include <pthread.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <vector>
#define RAW __attribute__((no_sanitize("address")))

__thread int t_inlib __attribute__((tls_model("initial-exec"))) = 0;
InLib::InLib() { t_inlib++; }
InLib::~InLib() { t_inlib--; }
OutLib::OutLib() { save = t_inlib; t_inlib = 0; }
OutLib::~OutLib() { t_inlib = save; }

// ---------------------------------------------------------------- junk
static Rng jrng(1);
static int jmode = 0;
static uint64_t jval = 0, jstack = 0;
void alloc_config(uint64_t seed, int mode, uint64_t value) {
    jrng.reseed(seed);
    jmode = mode; jval = value;
    jstack = mode == 0 ? 0 : mode == 1 ? ~0ULL : mode == 3 ? value * 0x0000000100000001ULL : jrng.next();
}
uint64_t stack_junk_word() { return jstack; }
uint64_t junk_word() {
    switch (jmode) {
    case 0: return 0;
    case 1: return ~0ULL;
    case 3: return jval * 0x0000000100000001ULL; // small integers: looks like an enum, a length, a flag
    default: return jrng.next();
    }
}
void junk(void *p, size_t n) {
    uint8_t *c = (uint8_t *)p;
    while (n >= 8) { uint64_t w = junk_word(); memcpy(c, &w, 8); c += 8; n -= 8; }
    if (n) { uint64_t w = junk_word(); memcpy(c, &w, n); }
}
RAW __attribute__((noinline)) void junk_stack() {
    char buf[12288];
    char *lo = buf;
    size_t c = sizeof buf / 8;
    uint64_t w = jstack;
    asm volatile("rep stosq" : "+D"(lo), "+c"(c) : "a"(w) : "memory");
}

// ---------------------------------------------------------------- allocations of the library
// With recycling on, a freed block is the next one handed out for its size class, as ordinary allocators do; otherwise ASan's quarantine keeps
// addresses from coming back. Blocks waiting in the pool and the bytes behind a block's size are poisoned.
extern "C" void __asan_poison_memory_region(void const volatile *, size_t);
extern "C" void __asan_unpoison_memory_region(void const volatile *, size_t);
static int recycle = 0;
enum { NCLASS = 520, POOLMAX = 4096 };
struct PoolBlk { void *p; uint32_t cap; };
static std::vector<void *> pool[NCLASS];
static std::vector<PoolBlk> pool_all; // every block that belongs to the pool, in use or not
static std::vector<uint32_t> pool_size; // bytes in use, ~0 when waiting
static std::vector<int32_t> pool_idx;   // hash: address -> index + 1
static int pool_find(void *p) {
    if (pool_all.empty()) return -1;
    uint32_t m = (uint32_t)pool_idx.size() - 1;
    for (uint32_t i = ((uint32_t)((uintptr_t)p >> 4) * 0x9e3779b1u) & m; pool_idx[i]; i = (i + 1) & m) if (pool_all[pool_idx[i] - 1].p == p) return pool_idx[i] - 1;
    return -1;
}
void recycle_config(int on) {
    for (size_t i = 0; i < pool_all.size(); i++) { // what is still in use stays: the library may keep it for good
        auto &b = pool_all[i];
        if (pool_size[i] != ~0u) continue;
        __asan_unpoison_memory_region(b.p, b.cap);
        free(b.p);
    }
    for (auto &c : pool) c.clear();
    pool_all.clear(); pool_size.clear();
    pool_idx.assign(on ? POOLMAX * 2 : 0, 0);
    recycle = on;
}
void *raw_alloc(size_t n) {
    size_t c = (n + 15) / 16;
    if (!recycle || c >= NCLASS) {
        void *p = malloc(n);
        if (p && !n) __asan_poison_memory_region(p, 8); // malloc(0) has one byte
        return p;
    }
    if (!c) c = 1;
    int k;
    if (!pool[c].empty()) { k = pool_find(pool[c].back()); pool[c].pop_back(); fault(F_ADDR_REUSE); }
    else {
        if (pool_all.size() >= POOLMAX) return malloc(n);
        void *p = malloc(c * 16);
        if (!p) return p;
        k = (int)pool_all.size();
        pool_all.push_back({p, (uint32_t)(c * 16)});
        pool_size.push_back(0);
        uint32_t m = (uint32_t)pool_idx.size() - 1, i = ((uint32_t)((uintptr_t)p >> 4) * 0x9e3779b1u) & m;
        while (pool_idx[i]) i = (i + 1) & m;
        pool_idx[i] = k + 1;
    }
    void *p = pool_all[k].p;
    __asan_unpoison_memory_region(p, n);
    if (c * 16 > n) { size_t f = (n + 7) / 8 * 8; __asan_poison_memory_region((char *)p + n, f - n); __asan_poison_memory_region((char *)p + f, c * 16 - f); }
    pool_size[k] = (uint32_t)n;
    return p;
}
void raw_free(void *p) {
    int k = recycle ? pool_find(p) : -1;
    if (k < 0) { free(p); return; }
    if (pool_size[k] == ~0u) { violate(V_BADFREE, "double-free", "a block of %u bytes is released a second time", pool_all[k].cap); return; }
    pool_size[k] = ~0u;
    __asan_poison_memory_region(p, pool_all[k].cap);
    pool[pool_all[k].cap / 16].push_back(p);
}
// does the address lie behind the end of a block in use?
bool pool_tail(const void *a) {
    for (size_t i = 0; i < pool_all.size(); i++) if ((const char *)a >= (char *)pool_all[i].p && (const char *)a < (char *)pool_all[i].p + pool_all[i].cap) return pool_size[i] != ~0u;
    return false;
}
enum Kind { K_NEW = 1, K_ARR = 2, K_MALLOC = 3 };
static const char *kname[] = {"?", "new", "new[]", "malloc"};
struct Blk { void *p; uint32_t size; uint8_t kind; };
enum { TAB = 1 << 16 };
static Blk tab[TAB];
static uint64_t live, liveb;
static inline uint32_t hp(void *p) { return (uint32_t)(((uintptr_t)p >> 4) * 0x9e3779b1u) % TAB; }
static void tab_add(void *p, size_t n, int k) {
    if (live > TAB / 2) { fprintf(stderr, "allocation table full\n"); _exit(70); }
    uint32_t i = hp(p);
    while (tab[i].p) i = (i + 1) % TAB;
    tab[i] = {p, (uint32_t)n, (uint8_t)k};
    live++; liveb += n;
}
static bool tab_del(void *p, Blk &out) {
    uint32_t i = hp(p);
    while (tab[i].p && tab[i].p != p) i = (i + 1) % TAB;
    if (!tab[i].p) return false;
    out = tab[i];
    live--; liveb -= out.size;
    uint32_t h = i;
    for (uint32_t j = (i + 1) % TAB; tab[j].p; j = (j + 1) % TAB) { // close the gap
        uint32_t k = hp(tab[j].p);
        if ((j > h) ? (k <= h || k > j) : (k <= h && k > j)) { tab[h] = tab[j]; h = j; }
    }
    tab[h].p = nullptr;
    return true;
}
uint64_t alloc_live_count() { return live; }
uint64_t alloc_live_bytes() { return liveb; }
static thread_local AllocOp t_aop;
AllocOp &alloc_op() { return t_aop; }
static bool must_fail() {
    AllocOp &o = t_aop;
    o.seen++;
    if (o.fail_at && o.seen >= o.fail_at && o.seen < o.fail_at + 1 + o.fail_n) {
        o.fired = true;
        fault(F_ALLOC);
        if (o.seen > o.fail_at) fault(F_ALLOC_MULTI);
        return true;
    }
    return false;
}
// nullptr: out of memory
static void *lib_alloc(size_t n, int kind, size_t align = 0) {
    if (!t_inlib) {
        void *p = nullptr;
        if (align > 16) { if (posix_memalign(&p, align, n)) p = nullptr; } else p = malloc(n);
        return p;
    }
    sched_point();
    OutLib o;
    log_ev(0x60, n, kind);
    if (must_fail() || n > (1ULL << 34)) return nullptr;
    void *p = nullptr;
    if (align > 16) { if (posix_memalign(&p, align, n)) p = nullptr; } else p = raw_alloc(n);
    if (!p) return nullptr;
    if (n <= 1 << 20) junk(p, n);
    tab_add(p, n, kind);
    return p;
}
static void lib_free(void *p, int kind) {
    if (!p) return;
    if (t_inlib) sched_point();
    OutLib o;
    Blk b;
    if (tab_del(p, b)) {
        log_ev(0x61, b.size, kind);
        if (b.kind != kind) violate(V_BADFREE, "mismatched-free", "a block of %u bytes from %s is released with %s", b.size, kname[b.kind], kind == K_NEW ? "delete" : kind == K_ARR ? "delete[]" : "free");
        mutex_forget(p, b.size);
    }
    raw_free(p);
}
void *operator new(size_t n) { void *p = lib_alloc(n, K_NEW); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = lib_alloc(n, K_ARR); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return lib_alloc(n, K_NEW); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return lib_alloc(n, K_ARR); }
void *operator new(size_t n, std::align_val_t a) { void *p = lib_alloc(n, K_NEW, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n, std::align_val_t a) { void *p = lib_alloc(n, K_ARR, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return lib_alloc(n, K_NEW, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return lib_alloc(n, K_ARR, (size_t)a); }
void operator delete(void *p) noexcept { lib_free(p, K_NEW); }
void operator delete[](void *p) noexcept { lib_free(p, K_ARR); }
void operator delete(void *p, size_t) noexcept { lib_free(p, K_NEW); }
void operator delete[](void *p, size_t) noexcept { lib_free(p, K_ARR); }
void operator delete(void *p, const std::nothrow_t &) noexcept { lib_free(p, K_NEW); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { lib_free(p, K_ARR); }
void operator delete(void *p, std::align_val_t) noexcept { lib_free(p, K_NEW); }
void operator delete[](void *p, std::align_val_t) noexcept { lib_free(p, K_ARR); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { lib_free(p, K_NEW); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { lib_free(p, K_ARR); }
// the library is linked with --wrap for these
extern "C" {
void *__wrap_malloc(size_t n) { void *p = lib_alloc(n, K_MALLOC); if (!p) errno = ENOMEM; return p; }
void __wrap_free(void *p) { lib_free(p, K_MALLOC); }
void *__wrap_calloc(size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) return nullptr;
    void *p = lib_alloc(n, K_MALLOC);
    if (p) memset(p, 0, n); else errno = ENOMEM;
    return p;
}
void *__wrap_realloc(void *q, size_t n) {
    if (!q) return __wrap_malloc(n);
    void *p = lib_alloc(n, K_MALLOC);
    if (!p) { errno = ENOMEM; return nullptr; }
    Blk b;
    OutLib o;
    if (tab_del(q, b)) { memcpy(p, q, b.size < n ? b.size : n); raw_free(q); }
    else raw_free(q);
    return p;
}
char *__wrap_strdup(const char *s) {
    size_t n = strlen(s) + 1;
    char *p = (char *)__wrap_malloc(n);
    if (p) memcpy(p, s, n);
    return p;
}
}

// ---------------------------------------------------------------- clock
static int64_t vnow, vmono, vnsec, vmin;
static thread_local ClockOp t_cop;
static ClockOp *active[8]; // calls in progress: they see every value the clock takes
ClockOp &clock_op() { return t_cop; }
void clock_config(int64_t s, int64_t nsec, int64_t mn) { vnow = s; vnsec = nsec; vmono = 1000; vmin = mn; for (auto &a : active) a = nullptr; }
int64_t clock_now() { return vnow; }
void clock_begin(int64_t d1, int64_t d2) {
    ClockOp &c = t_cop;
    c.d1 = d1; c.d2 = d2; c.reads = 0;
    c.shown.assign(1, vnow);
    active[sim_tid()] = &c;
}
void clock_end() { active[sim_tid()] = nullptr; }
void clock_add(int64_t d) {
    if (vnow + d < vmin) d = vmin - vnow;
    if (vnow + d > 1LL << 55) d = (1LL << 55) - vnow;
    if (!d) return;
    vnow += d;
    for (auto a : active) if (a) a->shown.push_back(vnow);
    if (d > 0) { vmono += d; G->sim_seconds += d; }
    log_ev(0x80, d);
}
static int64_t read_clock() {
    sched_point();
    OutLib o;
    ClockOp &c = t_cop;
    int64_t v = vnow;
    log_ev(0x81, v);
    int n = ++c.reads;
    int64_t d = n == 1 ? c.d1 : n == 2 ? c.d2 : 0;
    if (d) {
        fault(d == 1 ? F_CLOCK_TICK_IN_CALL : F_CLOCK_JUMP_IN_CALL);
        note_nontrivial(4);
        clock_add(d);
    }
    return v;
}
extern "C" {
time_t time(time_t *p) noexcept {
    if (!t_inlib) { struct timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
    time_t v = read_clock();
    if (p) *p = v;
    return v;
}
int clock_gettime(clockid_t c, struct timespec *t) noexcept {
    if (!t_inlib) return (int)syscall(SYS_clock_gettime, c, t);
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) { t->tv_sec = read_clock(); t->tv_nsec = vnsec; }
    else { t->tv_sec = vmono; t->tv_nsec = 0; }
    return 0;
}
int gettimeofday(struct timeval *t, void *) noexcept {
    if (!t_inlib) { struct timespec s; syscall(SYS_clock_gettime, CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
    t->tv_sec = read_clock(); t->tv_usec = vnsec / 1000;
    return 0;
}
int timespec_get(struct timespec *t, int base) noexcept {
    if (!t_inlib) { syscall(SYS_clock_gettime, CLOCK_REALTIME, t); return base; }
    t->tv_sec = read_clock(); t->tv_nsec = vnsec;
    return base;
}
}
