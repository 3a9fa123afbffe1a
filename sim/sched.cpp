// The scheduler: real pthreads, of which exactly one runs at a time. The running thread gives up the token only where the simulator decides:
// after a chosen number of steps (instrumentation callbacks of the library: edges, loads, stores; synchronisation events), when it blocks, or
// when it is done.
#include "core.h"
#include <climits>
#include <cmath>
#include <ctime>
#include <dlfcn.h>
#include <linux/futex.h>
#include <cerrno>
#include <pthread.h>
#include <semaphore.h>
#include <threads.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

__thread int64_t t_quantum __attribute__((tls_model("initial-exec"))) = INT64_MAX;
static __thread int t_tid __attribute__((tls_model("initial-exec"))) = -1;
static __thread uint32_t t_edge __attribute__((tls_model("initial-exec")));
extern __thread int t_inlib;
#define RAW __attribute__((no_sanitize("address")))

enum { MAXT = 8, STACK = 1 << 20, GUARD = 64 << 20, CAP = 1 << 18 };
enum TState { T_RUN, T_BLOCK, T_TIMED, T_FINISH, T_DEAD };
static struct Th {
    pthread_t pt;
    int state;
    const void *wait;
    int word; // futex
    int op;
    int64_t opsteps; // steps of the current operation
    int64_t stuck; // steps since the last switch
    char *stack;
} th[MAXT];
static int nth, cur = -1, conductor;
static bool g_sim;
static void (*g_fn)(int);
static const Plan *P;
static Rng srng;
static bool multi;                       // more than one thread: decisions are made and recorded
static int64_t qstart, acc, qleft;       // current slice
static int64_t total, budget;
static size_t xi;                        // next explicit slice
static int prio[MAXT], lowprio;
static std::vector<int64_t> changes;
static size_t chi;
static bool fair; // somebody ran long without getting anywhere: from here on everybody gets turns, so that only a real lack of progress is reported
static int victim; static int64_t victim_at, victim_run; static bool stalled;
static uint64_t ilh; static bool ilany;

static void fwait(int *w) {
    while (!__atomic_load_n(w, __ATOMIC_ACQUIRE)) syscall(SYS_futex, w, FUTEX_WAIT, 0, nullptr, nullptr, 0);
    __atomic_store_n(w, 0, __ATOMIC_RELEASE);
}
static void fwake(int *w) {
    __atomic_store_n(w, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, w, FUTEX_WAKE, 1, nullptr, nullptr, 0);
}
bool in_sim() { return g_sim && t_tid >= 0; }
int sim_tid() { return t_tid; }
static int g_op = -1;
static void account();
void set_cur_op(int o) { if (t_tid >= 0) { if (g_sim) account(); th[t_tid].op = o; th[t_tid].opsteps = 0; } g_op = o; G->cur_gop = o; G->beat++; }
int cur_op() { return t_tid >= 0 ? th[t_tid].op : g_op; }

static void set_quantum(int64_t q) { // steps until the next decision
    if (q < 1) q = 1;
    qleft = 0;
    if (q > CAP) { qleft = q - CAP; q = CAP; }
    qstart = t_quantum = q;
}
// steps of the running slice so far; folds them into acc
static void account() {
    int64_t c = qstart - t_quantum;
    acc += c; total += c;
    if (t_tid == victim) victim_run += c;
    G->lib_steps += c;
    if (t_tid >= 0) th[t_tid].stuck += c, th[t_tid].opsteps += c;
    qstart = t_quantum;
}
static void record(int t, int64_t q) {
    if (!multi || q <= 0) return;
    if (G->nslice >= MAXSLICE) { G->slice_overflow = 1; return; }
    G->slices[G->nslice++] = {t, q};
}
void sched_flush_slice() {
    if (g_sim && t_tid >= 0 && multi) { account(); record(t_tid, acc + 1); acc = 0; }
}
static int64_t expo(double mean) {
    double u = ((srng.next() >> 11) + 1) / 9007199254740993.0;
    double v = -mean * log(u);
    return v > 1e9 ? 1000000000 : (int64_t)v + 1;
}
static bool runnable(int i) { return i >= 0 && i < nth && th[i].state == T_RUN; }
static int nrun() { int n = 0; for (int i = 0; i < nth; i++) n += runnable(i); return n; }
static int randrun(int except) {
    int c[MAXT], n = 0;
    for (int i = 0; i < nth; i++) if (runnable(i) && i != except) c[n++] = i;
    return n ? c[srng.below(n)] : (runnable(except) ? except : -1);
}
enum Why { W_EXPIRE, W_BLOCK, W_FINISH, W_SYNC, W_YIELD, W_STUCK };
// Chooses who runs next; `from` may be chosen again if it is runnable. Also sets q.
static int pick(int from, Why why, int64_t &q) {
    q = INT64_MAX / 4;
    if (nrun() == 0) {
        for (int i = 0; i < nth; i++) if (th[i].state == T_TIMED) { th[i].state = T_RUN; th[i].wait = (void *)1; return i; } // its timeout passes
        return -1;
    }
    if (P->explicit_sched) {
        while (xi < P->sched.size()) {
            const Slice &s = P->sched[xi++];
            if (runnable(s.t)) { q = s.q; return s.t; }
        }
        if (fair) { q = expo(3000); return randrun(-1); }
        if (why == W_STUCK || why == W_YIELD) for (int k = 1; k <= nth; k++) if (runnable((from + k + nth) % nth)) return (from + k + nth) % nth;
        if (runnable(from)) return from;
        for (int i = 0; i < nth; i++) if (runnable(i)) return i;
    }
    if (fair) { q = expo(3000); return randrun(why == W_STUCK || why == W_YIELD ? from : -1); }
    if (why == W_STUCK || why == W_YIELD) {
        if (P->strategy == 2) prio[from] = --lowprio;
        int64_t m = P->P("mean", 64);
        q = P->strategy == 0 ? INT64_MAX / 4 : expo((double)m);
        for (int k = 1; k <= nth; k++) if (runnable((from + k + nth) % nth)) return (from + k + nth) % nth;
    }
    switch (P->strategy) {
    case 0: // sequential: one after the other
        if (runnable(from)) return from;
        for (int i = 0; i < nth; i++) if (runnable(i)) return i;
        break;
    case 2: { // PCT: highest priority, lowered at the change points
        while (chi < changes.size() && total >= changes[chi]) { if (from >= 0) prio[from] = --lowprio; chi++; }
        int b = -1;
        for (int i = 0; i < nth; i++) if (runnable(i) && (b < 0 || prio[i] > prio[b])) b = i;
        if (chi < changes.size()) q = changes[chi] - total;
        return b;
    }
    case 4: // one thread is stopped in the middle of something until nobody else can run
        if (!stalled && from == victim) {
            if (victim_run >= victim_at) { stalled = true; fault(F_STALL); }
        }
        if (stalled) {
            int b = nrun() > 1 || !runnable(victim) ? randrun(victim) : victim;
            q = expo((double)P->P("mean", 64));
            if (b == victim) q = INT64_MAX / 4;
            return b;
        } else {
            int b = randrun(-1);
            q = expo((double)P->P("mean", 64));
            if (b == victim && q > victim_at - victim_run) q = victim_at - victim_run;
            return b;
        }
    case 3:
    default:
        q = expo((double)P->P("mean", 64));
        return randrun(why == W_SYNC ? from : -1);
    }
    return -1;
}
static int64_t g_handq;
static void il(int a, uint32_t e, int b) {
    ilh = Rng::mix(ilh ^ ((uint64_t)a << 40) ^ ((uint64_t)b << 48) ^ e);
    ilany = true;
}
static void deadlock() {
    char b[600]; int n = 0;
    for (int i = 0; i < nth; i++)
        if (th[i].state == T_BLOCK) n += snprintf(b + n, sizeof b - n, " thread %d waits in op %d;", i, th[i].op);
    violate(V_DEADLOCK, "deadlock", "no thread can run:%s", b);
    _exit(43);
}
// The current thread stops being the running one (or may go on), for the given reason
static void reschedule(Why why) {
    int me = t_tid;
    account();
    if (th[me].opsteps > budget) {
        violate(V_HANG, "hang", "no end after %lld library steps, op %d", (long long)th[me].opsteps, th[me].op);
        _exit(43);
    }
    if (why == W_EXPIRE) { // also with two threads that only pass the turn to each other while they wait for a third
        if (!fair && (th[me].stuck > 1500000 || th[me].opsteps > 6000000) && nrun() > 1 && !(P->explicit_sched && xi < P->sched.size())) { why = W_STUCK; fair = true; }
        else if (qleft > 0) { set_quantum(qleft); return; }
    }
    if (!multi && why != W_BLOCK) { set_quantum(INT64_MAX / 4); return; }
    int64_t q;
    int nx = pick(me, why, q);
    if (nx < 0) deadlock();
    if (nx == me) { // goes on; the slice continues
        set_quantum(q);
        return;
    }
    record(me, why == W_BLOCK ? acc + 1 : acc);
    acc = 0;
    th[me].stuck = th[nx].stuck = 0;
    G->switches++;
    if (why == W_EXPIRE || why == W_SYNC || why == W_STUCK) { G->preemptions++; fault(why == W_SYNC ? F_PREEMPT_SYNC : F_PREEMPT); note_nontrivial(1); }
    il(me, t_edge, nx);
    log_ev(0x5c, me, nx);
    cur = nx;
    set_quantum(q);
    int64_t sq = t_quantum;
    t_quantum = INT64_MAX;
    g_handq = sq;
    fwake(&th[nx].word);
    fwait(&th[me].word);
    qstart = t_quantum = g_handq;
    G->cur_gop = th[me].op;
    log_ev(0x5d, me);
}

extern "C" RAW __attribute__((noinline)) void sim_expire() {
    if (t_tid < 0 || !g_sim || th[t_tid].state == T_FINISH) { t_quantum = INT64_MAX; return; }
    int s = t_inlib; t_inlib = 0;
    reschedule(W_EXPIRE);
    t_inlib = s;
}
static inline RAW void step() { if (__builtin_expect(--t_quantum <= 0, 0)) sim_expire(); }
void sched_point() {
    if (!in_sim() || th[t_tid].state == T_FINISH) return;
    --t_quantum;
    if (multi && P->strategy == 3 && !P->explicit_sched && srng.chance(1, 2)) {
        int s = t_inlib; t_inlib = 0;
        reschedule(W_SYNC);
        t_inlib = s;
    } else if (t_quantum <= 0) sim_expire();
}
void sched_event() { sched_point(); }
static void yield_now() {
    if (!in_sim() || th[t_tid].state == T_FINISH) return;
    --t_quantum;
    int s = t_inlib; t_inlib = 0;
    if (nrun() > 1) reschedule(W_YIELD);
    else if (t_quantum <= 0) reschedule(W_EXPIRE);
    t_inlib = s;
}

// ---------------------------------------------------------------- instrumentation callbacks
extern "C" {
RAW void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
    static uint32_t n;
    if (a == b || *a) return;
    for (; a < b; a++) *a = ++n;
}
RAW void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
    t_edge = *g;
    if (G && *g < sizeof G->edge) G->edge[*g] = 1;
    step();
}
RAW void __sanitizer_cov_load1(uint8_t *) { step(); }
RAW void __sanitizer_cov_load2(uint16_t *) { step(); }
RAW void __sanitizer_cov_load4(uint32_t *) { step(); }
RAW void __sanitizer_cov_load8(uint64_t *) { step(); }
RAW void __sanitizer_cov_load16(__uint128_t *) { step(); }
RAW void __sanitizer_cov_store1(uint8_t *) { step(); }
RAW void __sanitizer_cov_store2(uint16_t *) { step(); }
RAW void __sanitizer_cov_store4(uint32_t *) { step(); }
RAW void __sanitizer_cov_store8(uint64_t *) { step(); }
RAW void __sanitizer_cov_store16(__uint128_t *) { step(); }
}

// ---------------------------------------------------------------- running
void sched_config(const Plan &p) {
    P = &p;
    srng.reseed(p.sched_seed);
    xi = 0;
    budget = p.P("budget", 60000000);
    ilh = 1; ilany = false; fair = false;
    lowprio = 0;
    int n = p.nthreads;
    for (int i = 0; i < MAXT; i++) prio[i] = i + 1;
    for (int i = n - 1; i > 0; i--) std::swap(prio[i], prio[srng.below(i + 1)]);
    changes.clear(); chi = 0;
    int64_t hor = p.P("horizon", 1000);
    if (p.strategy == 2) {
        for (int i = 0; i < p.P("depth", 3); i++) changes.push_back(1 + (int64_t)srng.below(hor));
        for (size_t i = 1; i < changes.size(); i++) for (size_t j = i; j && changes[j] < changes[j - 1]; j--) std::swap(changes[j], changes[j - 1]);
    }
    victim = p.strategy == 4 ? (int)srng.below(n) : -1;
    victim_at = 1 + (int64_t)srng.below(hor);
    victim_run = 0; stalled = false;
}
uint64_t sched_interleaving() { return ilany ? ilh : 0; }
RAW static void *entry(void *a) {
    int i = (int)(intptr_t)a;
    t_tid = i;
    fwait(&th[i].word);
    qstart = t_quantum = g_handq;
    g_fn(i);
    account();
    record(i, acc + 1);
    acc = 0;
    th[i].state = T_FINISH;
    t_quantum = INT64_MAX;
    fwake(&conductor);
    return nullptr;
}
RAW static void stack_fill(char *lo, size_t n) {
    uint64_t w = stack_junk_word();
    size_t c = n / 8;
    asm volatile("rep stosq" : "+D"(lo), "+c"(c) : "a"(w) : "memory");
}
void locks_end();
void sched_run(int n, void (*fn)(int)) {
    nth = n;
    g_fn = fn;
    multi = n > 1;
    acc = 0; total = 0;
    conductor = 0;
    for (int i = 0; i < n; i++) {
        if (!th[i].stack) {
            th[i].stack = (char *)mmap(nullptr, STACK + GUARD, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0) + GUARD; // who runs out of it hits nothing else
            mprotect(th[i].stack, STACK, PROT_READ | PROT_WRITE);
        }
        stack_fill(th[i].stack + STACK - 65536, 65536);
        th[i].state = T_RUN; th[i].word = 0; th[i].op = -1; th[i].stuck = 0; th[i].wait = nullptr;
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstack(&at, th[i].stack, STACK);
        if (pthread_create(&th[i].pt, &at, entry, (void *)(intptr_t)i)) { perror("pthread_create"); _exit(70); }
        pthread_attr_destroy(&at);
    }
    g_sim = true;
    int last = -1;
    for (int left = n; left > 0; left--) {
        int64_t q;
        int64_t tq = t_quantum;
        int nx = multi ? pick(last, W_FINISH, q) : (q = INT64_MAX / 4, 0);
        if (nx < 0) deadlock();
        if (multi) { il(last, 0, nx); log_ev(0x5e, nx); }
        set_quantum(q);
        g_handq = t_quantum;
        t_quantum = tq;
        fwake(&th[nx].word);
        fwait(&conductor);
        for (int i = 0; i < n; i++)
            if (th[i].state == T_FINISH) { pthread_join(th[i].pt, nullptr); th[i].state = T_DEAD; last = i; if (multi) stack_fill(th[i].stack + STACK - 65536, 65536); } // with its thread-local storage
    }
    g_sim = false;
    locks_end();
}

// ---------------------------------------------------------------- synchronisation model
struct Lk { const void *a; int kind; int owner, cnt, readers; }; // kind 0 mutex, 1 rwlock, 2 once/guard, 3 spin
static Lk lk[512];
static int nlk;
static Lk &lock_of(const void *a, int kind) {
    for (int i = 0; i < nlk; i++) if (lk[i].a == a) return lk[i];
    int i = 0;
    for (; i < nlk; i++) if (lk[i].owner < 0 && !lk[i].readers) break;
    if (i == nlk) { if (nlk == 512) { fprintf(stderr, "too many locks\n"); _exit(70); } nlk++; }
    lk[i] = {a, kind, -1, 0, 0};
    return lk[i];
}
void mutex_forget(const void *p, size_t n) {
    for (int i = 0; i < nlk; i++)
        if ((const char *)lk[i].a >= (const char *)p && (const char *)lk[i].a < (const char *)p + n) {
            if (lk[i].owner >= 0 || lk[i].readers) violate(V_LOCK, "lock-left-held", "an object is destroyed while its lock is held by thread %d", lk[i].owner);
            lk[i].a = nullptr; lk[i].owner = -1; lk[i].readers = 0;
        }
}
void locks_end() { // all threads are gone: whoever holds a lock now will hold it for ever
    for (int i = 0; i < nlk; i++)
        if (lk[i].a && (lk[i].owner >= 0 || lk[i].readers)) {
            violate(V_LOCK, "lock-left-held", "thread %d ended and left a lock held", lk[i].owner);
            lk[i].owner = -1; lk[i].readers = 0; lk[i].cnt = 0;
        }
}
static void block_on(const void *a, bool timed = false) {
    int s = t_inlib; t_inlib = 0;
    th[t_tid].state = timed ? T_TIMED : T_BLOCK;
    th[t_tid].wait = a;
    fault(F_BLOCKED); probe(PR_MUTEX_CONTENDED);
    reschedule(W_BLOCK);
    t_inlib = s;
}
static void wake_all(const void *a) {
    for (int i = 0; i < nth; i++)
        if ((th[i].state == T_BLOCK || th[i].state == T_TIMED) && th[i].wait == a) th[i].state = T_RUN;
}
void sched_wait(const void *a) {
    th[t_tid].state = T_BLOCK;
    th[t_tid].wait = a;
    reschedule(W_BLOCK);
}
void sched_wake(const void *a) { wake_all(a); }
static int m_lock(pthread_mutex_t *m, bool tryl) {
    sched_point();
    int kind = m->__data.__kind & 3;
    for (;;) {
        Lk &l = lock_of(m, 0);
        if (l.owner < 0) { l.owner = t_tid; l.cnt = 1; log_ev(0x70, t_tid); return 0; }
        if (l.owner == t_tid) {
            if (kind == PTHREAD_MUTEX_RECURSIVE) { l.cnt++; return 0; }
            if (tryl) return EBUSY;
            if (kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
            violate(V_DEADLOCK, "self-deadlock", "thread %d locks a mutex it already holds", t_tid);
            _exit(43);
        }
        if (tryl) return EBUSY;
        block_on(m);
    }
}
static int m_unlock(pthread_mutex_t *m) {
    Lk &l = lock_of(m, 0);
    if (l.owner != t_tid) {
        if ((m->__data.__kind & 3) == PTHREAD_MUTEX_NORMAL || l.owner < 0 || l.owner != t_tid)
            violate(V_LOCK, "bad-unlock", "thread %d unlocks a mutex it does not hold", t_tid);
        return EPERM;
    }
    if (--l.cnt == 0) { l.owner = -1; wake_all(m); log_ev(0x71, t_tid); }
    sched_point();
    return 0;
}
FILE *sim_stdout;
static pthread_mutex_t print_lock = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP; // flockfile(stdout)
static int rw_lock(void *a, bool wr, bool tryl) {
    sched_point();
    for (;;) {
        Lk &l = lock_of(a, 1);
        if (wr ? l.owner < 0 && !l.readers : l.owner < 0) {
            if (wr) l.owner = t_tid; else l.readers++;
            return 0;
        }
        if (tryl) return EBUSY;
        if (l.owner == t_tid) { violate(V_DEADLOCK, "self-deadlock", "thread %d locks a lock it already holds", t_tid); _exit(43); }
        block_on(a);
    }
}
static int rw_unlock(void *a) {
    Lk &l = lock_of(a, 1);
    if (l.owner == t_tid) l.owner = -1; else if (l.readers) l.readers--;
    wake_all(a);
    sched_point();
    return 0;
}
#define REAL(fn) ([] { static decltype(&fn) f; if (!f) f = (decltype(&fn))dlsym(RTLD_NEXT, #fn); return f; }())
extern "C" {
void flockfile(FILE *f) { if (in_sim() && f == sim_stdout) m_lock(&print_lock, false); else REAL(flockfile)(f); }
int ftrylockfile(FILE *f) { return in_sim() && f == sim_stdout ? m_lock(&print_lock, true) : REAL(ftrylockfile)(f); }
void funlockfile(FILE *f) { if (in_sim() && f == sim_stdout) m_unlock(&print_lock); else REAL(funlockfile)(f); }
int pthread_mutex_lock(pthread_mutex_t *m) { return in_sim() ? m_lock(m, false) : REAL(pthread_mutex_lock)(m); }
int pthread_mutex_trylock(pthread_mutex_t *m) { return in_sim() ? m_lock(m, true) : REAL(pthread_mutex_trylock)(m); }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { return in_sim() ? m_lock(m, true) ? ETIMEDOUT : 0 : REAL(pthread_mutex_timedlock)(m, t); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *t) { return in_sim() ? m_lock(m, true) ? ETIMEDOUT : 0 : REAL(pthread_mutex_clocklock)(m, c, t); }
int pthread_mutex_unlock(pthread_mutex_t *m) { return in_sim() ? m_unlock(m) : REAL(pthread_mutex_unlock)(m); }
int pthread_mutex_destroy(pthread_mutex_t *m) { if (in_sim()) { mutex_forget(m, 1); return 0; } return REAL(pthread_mutex_destroy)(m); }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) { return in_sim() ? rw_lock(m, false, false) : REAL(pthread_rwlock_rdlock)(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { return in_sim() ? rw_lock(m, true, false) : REAL(pthread_rwlock_wrlock)(m); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { return in_sim() ? rw_lock(m, false, true) : REAL(pthread_rwlock_tryrdlock)(m); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) { return in_sim() ? rw_lock(m, true, true) : REAL(pthread_rwlock_trywrlock)(m); }
int pthread_rwlock_unlock(pthread_rwlock_t *m) { return in_sim() ? rw_unlock(m) : REAL(pthread_rwlock_unlock)(m); }
int pthread_spin_lock(pthread_spinlock_t *m) { return in_sim() ? rw_lock((void *)m, true, false) : REAL(pthread_spin_lock)(m); }
int pthread_spin_trylock(pthread_spinlock_t *m) { return in_sim() ? rw_lock((void *)m, true, true) : REAL(pthread_spin_trylock)(m); }
int pthread_spin_unlock(pthread_spinlock_t *m) { return in_sim() ? rw_unlock((void *)m) : REAL(pthread_spin_unlock)(m); }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!in_sim()) return REAL(pthread_cond_wait)(c, m);
    Lk &l = lock_of(m, 0);
    l.owner = -1; l.cnt = 0;
    wake_all(m);
    block_on(c);
    m_lock(m, false);
    return 0;
}
static int cond_timed(pthread_cond_t *c, pthread_mutex_t *m) {
    Lk &l = lock_of(m, 0);
    l.owner = -1; l.cnt = 0;
    wake_all(m);
    block_on(c, true);
    bool to = th[t_tid].wait == (void *)1;
    m_lock(m, false);
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
    return in_sim() ? cond_timed(c, m) : REAL(pthread_cond_timedwait)(c, m, t);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) {
    return in_sim() ? cond_timed(c, m) : REAL(pthread_cond_clockwait)(c, m, k, t);
}
int pthread_cond_signal(pthread_cond_t *c) {
    if (!in_sim()) return REAL(pthread_cond_signal)(c);
    int w[MAXT], n = 0;
    for (int i = 0; i < nth; i++) if ((th[i].state == T_BLOCK || th[i].state == T_TIMED) && th[i].wait == c) w[n++] = i;
    if (n) th[w[0]].state = T_RUN;
    sched_point();
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    if (!in_sim()) return REAL(pthread_cond_broadcast)(c);
    wake_all(c);
    sched_point();
    return 0;
}
int pthread_once(pthread_once_t *o, void (*f)()) {
    if (!in_sim()) { // nobody else is there
        if (*(int *)o == 2) return 0;
        *(int *)o = 1;
        try { f(); } catch (...) { *(int *)o = 0; throw; }
        *(int *)o = 2;
        return 0;
    }
    sched_point();
    for (;;) {
        if (*(int *)o == 2) return 0;
        Lk &l = lock_of(o, 2);
        if (l.owner < 0) { l.owner = t_tid; break; }
        if (l.owner == t_tid) { violate(V_DEADLOCK, "self-deadlock", "an initialiser run once is entered recursively"); _exit(43); }
        block_on(o);
    }
    try { f(); } catch (...) { lock_of(o, 2).owner = -1; wake_all(o); throw; }
    *(int *)o = 2;
    lock_of(o, 2).owner = -1;
    wake_all(o);
    sched_point();
    return 0;
}
RAW int __cxa_guard_acquire(uint64_t *g) {
    char *b = (char *)g;
    if (!in_sim()) { if (*b) return 0; b[1] = 1; return 1; }
    sched_point();
    for (;;) {
        if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0;
        Lk &l = lock_of(g, 2);
        if (l.owner < 0) { l.owner = t_tid; log_ev(0x72, t_tid); return 1; }
        if (l.owner == t_tid) { violate(V_DEADLOCK, "self-deadlock", "recursive initialisation of a static"); _exit(43); }
        block_on(g);
    }
}
RAW void __cxa_guard_release(uint64_t *g) {
    __atomic_store_n((char *)g, 1, __ATOMIC_RELEASE);
    ((char *)g)[1] = 0;
    if (in_sim()) { lock_of(g, 2).owner = -1; wake_all(g); sched_point(); }
}
RAW void __cxa_guard_abort(uint64_t *g) {
    ((char *)g)[1] = 0;
    if (in_sim()) { lock_of(g, 2).owner = -1; wake_all(g); sched_point(); }
}
int sched_yield(void) { if (in_sim()) { yield_now(); return 0; } return (int)syscall(SYS_sched_yield); }
int nanosleep(const struct timespec *a, struct timespec *b) {
    if (in_sim()) { clock_add(a->tv_sec); yield_now(); return 0; }
    return (int)syscall(SYS_nanosleep, a, b);
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) {
    if (in_sim()) { if (!f) clock_add(a->tv_sec); yield_now(); return 0; }
    return -(int)syscall(SYS_clock_nanosleep, c, f, a, b);
}
// threads.h: the same objects underneath
int mtx_lock(mtx_t *m) { return in_sim() ? m_lock((pthread_mutex_t *)m, false) ? thrd_error : thrd_success : REAL(mtx_lock)(m); }
int mtx_trylock(mtx_t *m) { return in_sim() ? m_lock((pthread_mutex_t *)m, true) ? thrd_busy : thrd_success : REAL(mtx_trylock)(m); }
int mtx_timedlock(mtx_t *m, const struct timespec *t) { return in_sim() ? m_lock((pthread_mutex_t *)m, true) ? thrd_timedout : thrd_success : REAL(mtx_timedlock)(m, t); }
int mtx_unlock(mtx_t *m) { return in_sim() ? m_unlock((pthread_mutex_t *)m) ? thrd_error : thrd_success : REAL(mtx_unlock)(m); }
void mtx_destroy(mtx_t *m) { if (in_sim()) mutex_forget(m, 1); else REAL(mtx_destroy)(m); }
int cnd_wait(cnd_t *c, mtx_t *m) { return in_sim() ? pthread_cond_wait((pthread_cond_t *)c, (pthread_mutex_t *)m) : REAL(cnd_wait)(c, m); }
int cnd_timedwait(cnd_t *c, mtx_t *m, const struct timespec *t) { return in_sim() ? cond_timed((pthread_cond_t *)c, (pthread_mutex_t *)m) ? thrd_timedout : thrd_success : REAL(cnd_timedwait)(c, m, t); }
int cnd_signal(cnd_t *c) { return in_sim() ? pthread_cond_signal((pthread_cond_t *)c) : REAL(cnd_signal)(c); }
int cnd_broadcast(cnd_t *c) { return in_sim() ? pthread_cond_broadcast((pthread_cond_t *)c) : REAL(cnd_broadcast)(c); }
void call_once(once_flag *f, void (*fn)(void)) { pthread_once((pthread_once_t *)f, fn); }
void thrd_yield(void) { sched_yield(); }
int thrd_sleep(const struct timespec *a, struct timespec *b) { return nanosleep(a, b); }
// semaphores: the count lives in the first word, as long as everybody goes through here
static int s_wait(sem_t *s, bool tryl) {
    unsigned *v = (unsigned *)s;
    if (in_sim()) sched_point();
    for (;;) {
        if (*v) { --*v; return 0; }
        if (tryl || !in_sim()) { errno = EAGAIN; return -1; }
        block_on(s);
    }
}
int sem_init(sem_t *s, int, unsigned v) { memset(s, 0, sizeof *s); *(unsigned *)s = v; return 0; }
int sem_destroy(sem_t *) { return 0; }
int sem_wait(sem_t *s) { return s_wait(s, false); }
int sem_trywait(sem_t *s) { return s_wait(s, true); }
int sem_timedwait(sem_t *s, const struct timespec *) { if (s_wait(s, true)) { errno = ETIMEDOUT; return -1; } return 0; }
int sem_post(sem_t *s) { ++*(unsigned *)s; if (in_sim()) { wake_all(s); sched_point(); } return 0; }
int sem_getvalue(sem_t *s, int *v) { *v = (int)*(unsigned *)s; return 0; }
int usleep(useconds_t u) {
    struct timespec t = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000};
    return nanosleep(&t, nullptr);
}
}
