// Core of the simulator: PRNG, plans, the shared result page, and the seams.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <utility>
#include <vector>

// ---------------------------------------------------------------- PRNG
struct Rng {
    uint64_t s[2];
    explicit Rng(uint64_t seed = 1) { reseed(seed); }
    static uint64_t mix(uint64_t z) {
        z += 0x9e3779b97f4a7c15ULL;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    void reseed(uint64_t seed) {
        s[0] = mix(seed);
        s[1] = mix(s[0] ^ 0x1234567);
        if (!s[0] && !s[1]) s[0] = 1;
    }
    uint64_t next() {
        uint64_t a = s[0], b = s[1], r = a + b;
        b ^= a;
        s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16);
        s[1] = (b << 37) | (b >> 27);
        return r;
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a) + 1); }
    bool chance(int num, int den) { return (int)below(den) < num; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    uint64_t logu(int maxbits) { // log-uniform
        int b = (int)below(maxbits + 1);
        return b ? (1ULL << (b - 1)) + below(1ULL << (b - 1)) : 0;
    }
};

void fill_bytes(uint64_t seed, uint8_t *p, size_t n); // deterministic bytes with zero runs now and then

// ---------------------------------------------------------------- plans
enum { NARG = 7 };
struct Op {
    int t = 0;          // thread
    int code = 0;       // operation
    int64_t a[NARG] = {0};
    int64_t fail = 0;   // fail the n-th library allocation of this op (0: none)
    int64_t fail2 = 0;  // and the following fail2 ones
    int64_t dt = 0;     // clock change before the op
    int64_t d1 = 0, d2 = 0; // clock change after the first / second clock read of the op
    int64_t rep = 0;    // carried out this many more times
    int by = 0;         // relay plans: the thread that makes the call
};
struct Slice { int t; int64_t q; };
struct Plan {
    std::string prop;
    uint64_t index = 0;
    uint64_t seed = 1;      // data seed
    std::map<std::string, int64_t> par;
    int nthreads = 1;
    std::vector<Op> ops;
    bool explicit_sched = false;
    int strategy = 0;
    uint64_t sched_seed = 1;
    std::vector<Slice> sched;
    int64_t P(const char *k, int64_t d = 0) const { auto i = par.find(k); return i == par.end() ? d : i->second; }
    std::string text() const;
    bool parse(const std::string &);
};

// ---------------------------------------------------------------- shared result page (survives a crash of the child)
enum { MAXSLICE = 1 << 16 };
enum Fault {
    F_ALLOC, F_ALLOC_MULTI, F_CLOCK_FWD, F_CLOCK_BACK, F_CLOCK_TICK_IN_CALL, F_CLOCK_JUMP_IN_CALL, F_IO_SHORT, F_IO_ERROR, F_IO_EINTR,
    F_IO_EOF_INNER, F_IO_DELAY, F_PREEMPT, F_PREEMPT_SYNC, F_BLOCKED, F_STALL, F_CLIENT_CRASH, F_SNAPSHOT, F_TEXT_CUT, F_TEXT_NOISE,
    F_JUNK_HEAP, F_JUNK_STACK, F_JUNK_STORAGE, F_COLD_START, F_ADDR_REUSE, F_STALE_ERRNO, F_ENDURANCE, F_HANDOVER, F_THREAD_END, F_COUNT
};
extern const char *fault_name[F_COUNT];
enum Probe {
    PR_MUTEX_CONTENDED, PR_CACHE_GROW, PR_BAD_ALLOC_SEEN, PR_RETRY_OK, PR_RESET_AFTER_FAIL, PR_STEP_EXPIRED, PR_CODE_CACHED, PR_CLOCK_2E32,
    PR_UPDATE_EMPTY, PR_TWO_BLOCK_PAD, PR_SQUEEZE_CONT, PR_PARTIAL_BITS, PR_LONG_KEY, PR_READ_ERROR_SEEN, PR_EXACT_BUFFER_MULTIPLE, PR_ZERO_TAIL,
    PR_CARRY_2E32_BITS, PR_2E31_BYTES, PR_2E32_BYTES, PR_TRANSPARENT_ALLOC_FAIL, PR_COUNT
};
extern const char *probe_name[PR_COUNT];

// kinds of violations; each property judges some of them, the others are somebody else's business
enum VK {
    V_RESULT = 1, V_CRASH = 2, V_ASAN = 4, V_UAF = 8, V_BADFREE = 16, V_LEAK = 32, V_JUNK = 64, V_DEADLOCK = 128, V_HANG = 256, V_INPUT = 512,
    V_LOCK = 1024, V_EXC = 2048, V_STATE = 4096, V_WILD = 8192 /* a write outside any buffer, where V_ASAN and V_UAF are not judged */
};
enum { MAXOPS = 4096 };
struct Shared {
    volatile uint64_t cur_index;
    volatile int violated; // VK or 0
    uint64_t foreign[16];  // violations of kinds this property does not judge, by bit
    char cls[96];
    char msg[1500];
    volatile int viol_op; // global op number
    volatile uint64_t hash, fullhash;
    volatile int cur_gop;    // operation being executed
    volatile uint64_t beat;  // progress
    uint64_t runs, ops, preemptions, lib_steps, switches, ctrl_events;
    int64_t sim_seconds;
    uint64_t faults[F_COUNT], probes[PR_COUNT];
    uint64_t opcount[256];
    uint64_t nontrivial;
    uint32_t nslice, slice_overflow;
    Slice slices[MAXSLICE];
    uint32_t nedge;
    uint8_t edge[1 << 16];
    uint64_t ilset[1 << 17]; // distinct interleaving hashes (open addressing)
    uint64_t nil;
    uint64_t shapeset[1 << 17]; // distinct outcome hashes of non-trivial runs
    uint64_t nshape;
    uint64_t opres[MAXOPS]; // hash of the result of every op of the last execution (0: not executed)
    uint64_t checks;        // comparisons against an oracle
    uint64_t plans;
    volatile int fill;      // which execution of the plan this is (C15, C16)
    volatile int done;
};
extern Shared *G;

extern int g_judge;  // VK mask of the current check
extern int g_record; // 1: result mismatches are only noted
// reports and ends the process if this kind is judged; returns otherwise
void violate(int kind, const char *cls, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
int run_nontrivial();
uint64_t sched_interleaving();
void run_reset();    // per run counters and hashes
void op_result(int op, uint64_t h);
void note_nontrivial(int what);
void log_ev(uint64_t a, uint64_t b = 0, uint64_t c = 0); // structural event: schedule, op outcome kinds, sizes
void log_data(const void *p, size_t n);                  // result bytes (full hash only)
inline void fault(Fault f) { __atomic_fetch_add(&G->faults[f], 1, __ATOMIC_RELAXED); }
inline void probe(Probe p) { __atomic_fetch_add(&G->probes[p], 1, __ATOMIC_RELAXED); }

// ---------------------------------------------------------------- scheduler
extern __thread int64_t t_quantum __attribute__((tls_model("initial-exec")));
void sched_config(const Plan &);
void sched_run(int n, void (*fn)(int));   // runs fn(0..n-1) on n simulated threads until all are done
void sched_point();                       // a synchronisation event
void sched_wait(const void *);            // until somebody wakes the waiters of this address
void sched_wake(const void *);
void sched_event();                       // harness-level preemption point (op boundary)
bool in_sim();
int sim_tid();
extern FILE *sim_stdout; // where printing goes at the moment, nullptr: nobody prints
void mutex_forget(const void *p, size_t n);
void set_cur_op(int global_op);
int cur_op();
bool in_noise();                          // the current operation is not judged

// ---------------------------------------------------------------- allocation seam
void alloc_config(uint64_t junkseed, int mode, uint64_t value);
struct AllocOp { int64_t fail_at = 0, fail_n = 0; int64_t seen = 0; bool fired = false; };
AllocOp &alloc_op(); // of the calling thread
struct InLib { InLib(); ~InLib(); };  // calls made inside belong to the library
struct OutLib { int save; OutLib(); ~OutLib(); };
void recycle_config(int on);            // hand freed blocks out again at once
void *raw_alloc(size_t n);              // the harness's own buffers and contexts come from the same pool
void raw_free(void *);
bool pool_tail(const void *);
uint64_t alloc_live_count();
uint64_t alloc_live_bytes();
void junk(void *p, size_t n);           // fill storage with this run's junk
void junk_stack();
uint64_t stack_junk_word();
uint64_t junk_word();

// ---------------------------------------------------------------- clock seam
void clock_config(int64_t start, int64_t nsec, int64_t minimum);
int64_t clock_now();
void clock_add(int64_t d); // never below the minimum
// shown: every value the system clock had since the call began; d1/d2: change right after its first/second clock read
struct ClockOp { int64_t d1 = 0, d2 = 0; int reads = 0; std::vector<int64_t> shown; };
ClockOp &clock_op();
void clock_begin(int64_t d1, int64_t d2);
void clock_end();

// ---------------------------------------------------------------- workloads
void gen_plan(const std::string &prop, uint64_t seed, uint64_t index, bool thorough, Plan &);
void exec_plan(const Plan &);
void effects_config(const Plan &);
void effects_before();
void effects_after();
extern int g_only; // execute only the operations of this thread (-1: all)
std::string op_text(const Op &);
