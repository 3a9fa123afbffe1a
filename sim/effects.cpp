// The state of the process that other code sees, and whether the library changed any of it
#include "core.h"
#include <clocale>
#include <csignal>
#include <cstdlib>
#include <exception>
#include <fcntl.h>
#include <fenv.h>
#include <locale.h>
#include <locale>
#include <iostream>
#include <new>
#include <sched.h>
#include <stdio_ext.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
#include <xmmintrin.h>

extern char **environ;
static bool on, alone;
static int rounding;
static char rnd[128];
static uint64_t h(uint64_t x, const void *p, size_t n) {
    for (size_t i = 0; i < n; i++) x = (x ^ ((const uint8_t *)p)[i]) * 1099511628211ULL;
    return x;
}
static const char *const WHAT[] = {"standard output", "standard error", "the locale", "the environment", "the sequence of rand()", "signal handling", "the signal mask", "the file mode mask",
    "the working directory", "the new or terminate handler", "resource limits or timers", "the state of std::cout, std::cerr or std::cin", "floating-point modes", "open descriptors", "standard input", "the C++ locale",
    "the thread's cancellation state, name, signal stack, priority or processors"};
enum { NW = sizeof WHAT / sizeof *WHAT };
struct State { uint64_t v[NW]; };
static void look(State &s) {
    uint64_t z = 1469598103934665603ULL;
    memset(&s, 0, sizeof s);
    s.v[0] = h(z + __fpending(stdout), &(const off_t &)lseek(1, 0, SEEK_CUR), sizeof(off_t)) + (ferror(stdout) ? 7 : 0) + 31 * (uint64_t)(uintptr_t)stdout;
    s.v[1] = h(z + __fpending(stderr), &(const off_t &)lseek(2, 0, SEEK_CUR), sizeof(off_t)) + (ferror(stderr) ? 7 : 0) + 31 * (uint64_t)(uintptr_t)stderr;
    const char *l = setlocale(LC_ALL, nullptr);
    s.v[2] = h(z, l, strlen(l)) + (uint64_t)(uintptr_t)uselocale((locale_t)0);
    s.v[3] = z + (uint64_t)(uintptr_t)environ;
    for (char **e = environ; e && *e; e++) s.v[3] = h(s.v[3] * 3, *e, strlen(*e));
    s.v[4] = h(z, rnd, sizeof rnd);
    for (int g : {SIGSEGV, SIGINT, SIGTERM, SIGPIPE, SIGALRM, SIGFPE, SIGABRT, SIGCHLD, SIGHUP, SIGUSR1, SIGBUS, SIGILL}) {
        struct sigaction a;
        memset(&a, 0, sizeof a);
        sigaction(g, nullptr, &a);
        s.v[5] = h(s.v[5] * 3, &a.sa_handler, sizeof a.sa_handler) + (uint64_t)a.sa_flags;
    }
    sigset_t m;
    pthread_sigmask(SIG_BLOCK, nullptr, &m);
    for (int i = 1; i < 65; i++) if (sigismember(&m, i) == 1) s.v[6] |= 1ULL << (i - 1);
    mode_t u = umask(0);
    umask(u);
    s.v[7] = u;
    char b[4096];
    if (getcwd(b, sizeof b)) s.v[8] = h(z, b, strlen(b));
    auto nh = std::get_new_handler(); auto th = std::get_terminate();
    s.v[9] = (uint64_t)(uintptr_t)nh * 3 + (uint64_t)(uintptr_t)th;
    for (int r : {RLIMIT_CORE, RLIMIT_STACK, RLIMIT_NOFILE, RLIMIT_DATA, RLIMIT_MEMLOCK}) { struct rlimit q; getrlimit((__rlimit_resource_t)r, &q); s.v[10] = h(s.v[10] * 3, &q, sizeof q); }
    struct itimerval it;
    getitimer(ITIMER_REAL, &it);
    s.v[10] += (it.it_value.tv_sec || it.it_value.tv_usec) + 2 * (uint64_t)prctl(PR_GET_DUMPABLE);
    for (std::ostream *o : {&std::cout, &std::cerr}) s.v[11] = s.v[11] * 31 + (uint64_t)o->flags() + 977 * (uint64_t)o->precision() + 7 * (uint64_t)(uint8_t)o->fill() + (uint64_t)o->rdstate() + (uint64_t)o->width() + 5 * (uint64_t)(uintptr_t)o->rdbuf();
    s.v[11] = s.v[11] * 31 + (uint64_t)std::cin.flags() + (uint64_t)std::cin.rdstate();
    unsigned short cw;
    asm volatile("fnstcw %0" : "=m"(cw));
    s.v[12] = (uint64_t)(_mm_getcsr() & 0xffc0) << 16 | cw;
    if (alone) for (int i = 0; i < 40; i++) if (fcntl(i, F_GETFD) >= 0) s.v[13] |= 1ULL << i;
    s.v[14] = (uint64_t)lseek(0, 0, SEEK_CUR) * 3 + (uint64_t)(uintptr_t)stdin;
    s.v[15] = h(z, std::locale().name().data(), std::locale().name().size());
    int cs, ct;
    pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &cs); pthread_setcancelstate(cs, nullptr);
    pthread_setcanceltype(PTHREAD_CANCEL_DEFERRED, &ct); pthread_setcanceltype(ct, nullptr);
    char nm[32] = "";
    prctl(PR_GET_NAME, nm);
    stack_t ss;
    memset(&ss, 0, sizeof ss);
    sigaltstack(nullptr, &ss);
    cpu_set_t cpus;
    CPU_ZERO(&cpus);
    sched_getaffinity(0, sizeof cpus, &cpus);
    s.v[16] = h(h(z, nm, strlen(nm)), &cpus, sizeof cpus) + (uint64_t)cs * 3 + (uint64_t)ct * 5 + (uint64_t)(uintptr_t)ss.ss_sp + (uint64_t)getpriority(PRIO_PROCESS, 0) * 7;
}
static State base;
static State mine[8];
static __thread bool seen;
void effects_config(const Plan &p) {
    on = p.prop == "C22";
    if (!on) return;
    alone = p.nthreads == 1;
    static bool first = true;
    if (first) {
        first = false;
        for (int i = 0; i < 3; i++) { int f = memfd_create("std", 0); if (f < 0 || dup2(f, i) < 0) _exit(70); close(f); }
    }
    setlocale(LC_ALL, p.seed & 1 ? "C.UTF-8" : "C"); // not the state a temporary change goes back to
    umask(p.seed & 2 ? 077 : 022);
    rounding = p.seed & 4 ? FE_UPWARD : FE_TONEAREST;
    memset(rnd, 0, sizeof rnd);
    initstate((unsigned)p.seed, rnd, sizeof rnd);
    look(base);
}
static void compare(const State &a, const State &b, uint64_t which, const char *when) {
    G->checks++;
    for (int i = 0; i < NW; i++)
        if ((which >> i & 1) && a.v[i] != b.v[i]) violate(V_STATE, WHAT[i], "op %d: %s changed %s", cur_op(), WHAT[i], when);
}
// before: other threads may be in the middle of their calls
void effects_before() {
    if (!on || sim_tid() < 0) return;
    int t = sim_tid() & 7;
    if (!seen) fesetround(rounding);
    State s;
    look(s);
    compare(base, s, 0xffff & ~(1 << 2 | 1 << 6 | 1 << 12 | 1 << 13), alone ? "between calls" : "while another thread is in a call");
    if (seen) compare(mine[t], s, 1 << 2 | 1 << 6 | 1 << 12 | 1 << 16, "between calls");
    mine[t] = s;
    seen = true;
}
void effects_after() {
    if (!on || sim_tid() < 0) return;
    int t = sim_tid() & 7;
    State s;
    look(s);
    compare(mine[t], s, 0x1ffff, "during a call");
}
