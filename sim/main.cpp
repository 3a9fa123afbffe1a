// Driver: runs batches of plans in child processes, confirms, minimises and replays violations.
#include "core.h"
#include "ops.h"
#include "ref.h"
#include <algorithm>
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <sched.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

// ---------------------------------------------------------------- what each property judges
static const int BASE = V_RESULT | V_CRASH | V_DEADLOCK | V_HANG | V_EXC | V_WILD;
static int judged_kinds(int id) {
    switch (id) {
    case 4: return BASE | V_ASAN | V_UAF;
    case 5: return BASE | V_UAF | V_BADFREE | V_LOCK;
    case 6: return BASE | V_ASAN | V_UAF | V_BADFREE | V_LOCK;
    case 14: return V_ASAN | V_UAF | V_BADFREE | V_INPUT | V_CRASH;
    case 15: return V_JUNK | V_CRASH;
    case 16: return V_LEAK | V_BADFREE;
    case 20: return BASE | V_UAF | V_BADFREE;
    case 18: return BASE | V_ASAN | V_UAF | V_BADFREE | V_INPUT;
    case 19: return BASE | V_UAF;
    case 22: return V_STATE;
    case 21: return BASE | V_ASAN | V_UAF | V_BADFREE | V_LOCK;
    default: return BASE;
    }
}
static int prop_id(const Plan &p) { return atoi(p.prop.c_str() + 1); }
static const char *kind_name(int k) {
    switch (k) {
    case V_RESULT: return "wrong-result"; case V_CRASH: return "crash"; case V_ASAN: return "out-of-bounds"; case V_UAF: return "use-after-free"; case V_BADFREE: return "bad-free";
    case V_LEAK: return "leak"; case V_JUNK: return "stale-memory"; case V_DEADLOCK: return "deadlock"; case V_HANG: return "no-progress"; case V_INPUT: return "input-modified";
    case V_LOCK: return "lock"; case V_EXC: return "exception"; case V_STATE: return "state"; case V_WILD: return "memory-damaged";
    }
    return "?";
}
extern "C" const char *__asan_get_report_description();
extern "C" int __asan_get_report_access_type();
extern "C" void *__asan_get_report_address();
extern "C" void __asan_on_error() {
    const char *d = __asan_get_report_description();
    int k = strstr(d, "use-after") ? V_UAF : strstr(d, "free") ? V_BADFREE : V_ASAN;
    if (k == V_UAF && strstr(d, "poison") && pool_tail(__asan_get_report_address())) { k = V_ASAN; d = "heap-buffer-overflow"; }
    if (k != V_BADFREE && !(k & g_judge) && __asan_get_report_access_type() == 1) k = V_WILD; // nothing the run shows from here on counts
    int op = cur_op();
    char cls[80];
    snprintf(cls, sizeof cls, "%.70s", d);
    violate(k, cls, "op %d: %s", op, d);
}
// the build's ASan options; read at start-up
extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:halt_on_error=0:detect_stack_use_after_return=0:symbolize=0:suppress_equal_pcs=0:"
           "exitcode=99:alloc_dealloc_mismatch=0:allocator_may_return_null=1:quarantine_size_mb=16:thread_local_quarantine_size_kb=64:max_malloc_fill_size=0:detect_odr_violation=0:print_stats=0";
}

// ---------------------------------------------------------------- one plan, as its property wants it (in the child)
static void insert_set(uint64_t *set, uint64_t &n, uint64_t h) {
    enum { N = 1 << 17 };
    if (!h) return;
    if (n > N * 3 / 4) return;
    for (uint64_t i = h % N;; i = (i + 1) % N) {
        if (set[i] == h) return;
        if (!set[i]) { set[i] = h; n++; return; }
    }
}
static bool g_count = true;
static void finish_exec() {
    if (!g_count) return;
    uint64_t il = sched_interleaving();
    insert_set(G->ilset, G->nil, il);
    if (run_nontrivial()) { G->nontrivial++; insert_set(G->shapeset, G->nshape, G->hash | 1); }
}
static std::string junk_msg(int i, const Plan &plan, int k) {
    static const char *fn[] = {"zero", "ff", "random", "small integer", "other random"};
    return "the result of op " + std::to_string(i) + ", " + op_text(plan.ops[i]) + ", with fresh memory filled with " + fn[k] + " bytes differs from the result with zero bytes";
}
static void run_plan(const Plan &plan) {
    G->plans++;
    G->fill = 0;
    int id = prop_id(plan);
    if (id == 15) {
        Plan p = plan;
        std::vector<uint64_t> base(plan.ops.size());
        uint64_t js = (uint64_t)plan.P("jseed", 1);
        int one = (int)plan.P("onefill"); // judge(): this filling alone
        for (int k = 0; k < 5; k++) {
            static const int M[] = {0, 1, 2, 3, 2};
            if (one && one != k + 1) continue;
            G->fill = k;
            p.par["jmode"] = M[k];
            p.par["jseed"] = (int64_t)(Rng::mix(js + k) >> 1);
            exec_plan(p);
            finish_exec();
            for (size_t i = 0; i < plan.ops.size() && i < MAXOPS; i++) {
                if (!k || one) base[i] = G->opres[i];
                else if (base[i] != G->opres[i]) {
                    set_cur_op((int)i);
                    violate(V_JUNK, op_name(plan.ops[i].code), "%s", junk_msg((int)i, plan, k).c_str());
                }
            }
        }
    } else if (id == 16) {
        uint64_t l[4];
        l[0] = alloc_live_count();
        for (int k = 1; k <= 3; k++) {
            G->fill = k;
            exec_plan(plan);
            finish_exec();
            l[k] = alloc_live_count();
        }
        if (l[2] > l[1] && l[3] > l[2]) {
            set_cur_op(-1);
            violate(V_LEAK, "leak", "blocks left after 1, 2 and 3 executions of this history: %llu, %llu, %llu", (unsigned long long)(l[1] - l[0]), (unsigned long long)(l[2] - l[0]), (unsigned long long)(l[3] - l[0]));
        }
    } else {
        exec_plan(plan);
        finish_exec();
    }
}

// ---------------------------------------------------------------- child processes
struct Outcome {
    int kind = 0, sig = 0, op = -1, fill = 0;
    bool fatal_foreign = false, harness = false;
    uint64_t index = 0, hash = 0, fullhash = 0;
    std::string cls, msg;
    std::vector<uint64_t> opres;
    std::vector<Slice> slices;
    bool overflow = false;
    std::string sigature() const { return std::to_string(kind) + "/" + cls; }
};
static double wall() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double g_hang = 30;
static int g_devnull = -1;
static bool g_verbose;
// what the child left in the shared page, given how it ended
static Outcome outcome(int st, bool hung, size_t nops) {
    Outcome o;
    o.index = G->cur_index;
    o.fill = G->fill;
    o.hash = G->hash; o.fullhash = G->fullhash;
    o.op = G->cur_gop;
    if (hung) { o.kind = V_HANG; o.cls = "hang"; o.msg = "no progress for " + std::to_string((int)g_hang) + " s in op " + std::to_string(o.op); }
    else if (WIFSIGNALED(st)) {
        o.sig = WTERMSIG(st);
        o.kind = V_CRASH;
        if (o.sig == SIGKILL || o.sig == SIGTERM || o.sig == SIGINT) o.harness = true;
        o.cls = std::string("signal-") + std::to_string(o.sig);
        o.msg = std::string(strsignal(o.sig)) + " in op " + std::to_string(o.op);
    } else if (WEXITSTATUS(st) == 42) { o.kind = G->violated; o.cls = G->cls; o.msg = G->msg; o.op = G->viol_op; }
    else if (WEXITSTATUS(st) == 43) o.fatal_foreign = true;
    else if (WEXITSTATUS(st)) { o.harness = true; o.msg = "child exit status " + std::to_string(WEXITSTATUS(st)); }
    for (size_t i = 0; i < nops && i < MAXOPS; i++) o.opres.push_back(G->opres[i]);
    for (uint32_t i = 0; i < G->nslice && i < MAXSLICE; i++) o.slices.push_back(G->slices[i]);
    o.overflow = G->slice_overflow;
    return o;
}
static Outcome spawn(const std::function<void()> &f, size_t nops) {
    G->violated = 0; G->cur_gop = -1; G->fill = 0; G->nslice = 0; G->slice_overflow = 0; G->done = 0; G->viol_op = -1;
    sigset_t ss;
    sigemptyset(&ss);
    sigaddset(&ss, SIGCHLD);
    sigprocmask(SIG_BLOCK, &ss, nullptr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(70); }
    if (!pid) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        sigprocmask(SIG_UNBLOCK, &ss, nullptr);
        if (!g_verbose) { dup2(g_devnull, 2); dup2(g_devnull, 1); }
        f();
        G->done = 1;
        _exit(0);
    }
    int st = 0;
    bool hung = false;
    uint64_t beat = G->beat;
    double t = wall();
    for (;;) {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid) break;
        struct timespec to = {0, 500000000};
        sigtimedwait(&ss, nullptr, &to);
        if (G->beat != beat) { beat = G->beat; t = wall(); }
        else if (wall() - t > g_hang) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; }
    }
    return outcome(st, hung, nops);
}
// Executes the plans one after the other in a fresh process. mask: kinds that end the run
static Outcome fresh(const std::vector<Plan> &v, int mask, int only = -1) {
    return spawn([&] {
        g_judge = mask;
        for (size_t i = 0; i < v.size(); i++) {
            bool last = i + 1 == v.size();
            G->cur_index = v[i].index;
            if (only >= 0 && last) g_only = only;
            run_plan(v[i]);
        }
    }, v.back().ops.size());
}
static bool candidate(int id, const Outcome &o) {
    if (!o.kind || o.harness || !(o.kind & judged_kinds(id))) return false;
    if (id == 14 && o.kind == V_CRASH && o.sig != SIGSEGV && o.sig != SIGBUS) return false;
    return true;
}
// The verdict on a list of plans (the last one is the one judged): o.kind is 0 if there is nothing to report.
static Outcome judge(const std::vector<Plan> &v) {
    int id = prop_id(v.back());
    Outcome o = fresh(v, judged_kinds(id));
    if (!candidate(id, o)) { o.kind = 0; return o; }
    if (o.index != v.back().index) { o.kind = 0; return o; } // an earlier plan fails
    Outcome none = o;
    none.kind = 0;
    if ((o.kind & (V_CRASH | V_HANG)) && o.op >= 0 && o.op < (int)v.back().ops.size() && (v.back().ops[o.op].code & NOISE)) return none;
    if (id == 4) { // the same threads, each alone: is it the company that makes the difference?
        const Plan &p = v.back();
        int soft = judged_kinds(4) & ~(V_RESULT | V_ASAN | V_UAF | V_EXC);
        Outcome all = fresh(v, soft);
        Outcome ret = none;
        for (int t = 0; t < p.nthreads; t++) {
            bool any = false;
            for (auto &q : p.ops) any |= q.t == t;
            if (!any) continue;
            Outcome solo = fresh(v, soft, t);
            if (solo.kind || solo.fatal_foreign) continue; // fails by itself as well
            if (all.kind || all.fatal_foreign) {
                if (o.op >= 0 && o.op < (int)p.ops.size() && p.ops[o.op].t != t) continue;
                ret = o;
            } else for (size_t i = 0; i < p.ops.size() && i < solo.opres.size(); i++)
                if (p.ops[i].t == t && solo.opres[i] != all.opres[i] && !ret.kind) {
                    ret = o;
                    ret.op = (int)i;
                    ret.kind = V_RESULT;
                    ret.cls = std::string("differs-from-alone ") + op_name(p.ops[i].code);
                    ret.msg = "the result of op " + std::to_string(i) + ", " + op_text(p.ops[i]) + ", differs from the one thread " + std::to_string(t) + " gets alone; " + o.msg;
                }
        }
        if (ret.kind == 0 && (o.kind & (V_ASAN | V_UAF | V_CRASH | V_DEADLOCK | V_HANG)) && o.op >= 0 && o.op < (int)p.ops.size()) { // memory errors only seen in company
            Outcome solo = fresh(v, judged_kinds(4), p.ops[o.op].t);
            bool clean = !solo.kind && !solo.fatal_foreign;
            if (clean) ret = o;
        }
        return ret;
    }
    if (id == 6) {
        std::vector<Plan> w = v;
        for (auto &p : w) for (auto &q : p.ops) q.fail = q.fail2 = 0;
        Outcome b = fresh(w, judged_kinds(6));
        if (b.kind || b.fatal_foreign) return none; // has nothing to do with the failed allocations
        return o;
    }
    if (id == 21) { // the same history, all calls made by one thread
        std::vector<Plan> w = v;
        for (auto &p : w) { p.par.erase("relay"); for (auto &q : p.ops) q.by = 0; }
        Outcome b = fresh(w, judged_kinds(21));
        if (b.kind || b.fatal_foreign) return none;
        return o;
    }
    if (id == 15) { // each filling in a process of its own: in one process, what the library set up in the first execution is there in the next ones
        std::vector<Plan> w = v;
        Outcome base;
        for (int k = 0; k < 5; k++) {
            w.back().par["onefill"] = k + 1;
            Outcome r = fresh(w, judged_kinds(15));
            if (!k) base = r;
            if (r.kind || r.fatal_foreign || r.harness) {
                if (!k || !(r.kind & judged_kinds(15)) || r.index != v.back().index) return none;
                return r;
            }
            for (size_t i = 0; i < r.opres.size() && i < base.opres.size(); i++)
                if (r.opres[i] != base.opres[i]) {
                    r.kind = V_JUNK;
                    r.op = (int)i;
                    r.cls = op_name(v.back().ops[i].code);
                    r.msg = junk_msg((int)i, v.back(), k);
                    return r;
                }
        }
        return none;
    }
    return o;
}

// ---------------------------------------------------------------- run
static std::string read_file(const std::string &f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static std::vector<Plan> read_plans(const std::string &f) {
    std::string s = read_file(f);
    std::vector<Plan> v;
    size_t a = 0;
    while ((a = s.find("plan ", a)) != std::string::npos) {
        if (a && s[a - 1] != '\n') { a++; continue; }
        size_t e = s.find("\nend\n", a);
        if (e == std::string::npos) break;
        Plan p;
        if (p.parse(s.substr(a, e + 5 - a))) v.push_back(p);
        a = e + 5;
    }
    return v;
}
static void write_plans(const std::string &f, const std::vector<Plan> &v, const Outcome &o) {
    std::ofstream w(f);
    w << "# " << kind_name(o.kind) << " [" << o.cls << "] " << o.msg << "\n";
    for (auto &p : v) {
        w << "# " << p.nthreads << " threads";
        w << (p.explicit_sched ? ", schedule given as thread:steps\n" : ", schedule drawn from the seed\n");
        for (size_t i = 0; i < p.ops.size(); i++) w << "#   op " << i << ": " << op_text(p.ops[i]) << "\n";
        w << p.text();
    }
}
static std::map<std::string, std::string> opt;
static int64_t O(const char *k, int64_t d) { return opt.count(k) ? atoll(opt[k].c_str()) : d; }

static void dump_stats(const std::string &f, uint64_t foreign, uint64_t done, double secs, bool capped) {
    std::ofstream w(f);
    w << "plans " << G->plans << "\nruns " << G->runs << "\nops " << G->ops << "\nchecks " << G->checks << "\nnontrivial " << G->nontrivial << "\npreemptions " << G->preemptions << "\nswitches " << G->switches
      << "\nsteps " << G->lib_steps << "\nsim_seconds " << G->sim_seconds << "\nrejected " << foreign << "\ndone " << done << "\nsecs " << secs << "\ncapped " << capped << "\n";
    for (int i = 0; i < F_COUNT; i++) w << "fault." << fault_name[i] << " " << G->faults[i] << "\n";
    for (int i = 0; i < PR_COUNT; i++) w << "probe." << probe_name[i] << " " << G->probes[i] << "\n";
    for (int i = 0; i < 256; i++) if (G->opcount[i]) w << "op." << op_name(i) << " " << G->opcount[i] << "\n";
    for (int i = 0; i < 16; i++) if (G->foreign[i]) w << "foreign." << kind_name(1 << i) << " " << G->foreign[i] << "\n";
    w.close();
    std::ofstream b(f + ".sets", std::ios::binary);
    auto put = [&](uint64_t *s, uint64_t n) {
        b.write((char *)&n, 8);
        for (int i = 0; i < 1 << 17; i++) if (s[i]) b.write((char *)&s[i], 8);
    };
    put(G->ilset, G->nil);
    put(G->shapeset, G->nshape);
    uint64_t ne = sizeof G->edge;
    b.write((char *)&ne, 8);
    b.write((char *)G->edge, ne);
}
static int mode_run() {
    std::string prop = opt["prop"], out = opt["out"];
    uint64_t seed = (uint64_t)O("seed", 1), count = (uint64_t)O("count", 1000), W = (uint64_t)O("workers", 1), w = (uint64_t)O("worker", 0), batch = (uint64_t)O("batch", 25);
    bool th = O("thorough", 0);
    double cap = (double)O("cap", 600), t0 = wall();
    int id = atoi(prop.c_str() + 1), mask = judged_kinds(id);
    uint64_t rejected = 0, done = 0;
    bool capped = false;
    for (uint64_t b = w * batch; b < count && !capped; b += W * batch) {
        uint64_t i = b, end = std::min(b + batch, count);
        while (i < end) {
            if (wall() - t0 > cap) { capped = true; break; }
            uint64_t first = i;
            Outcome o = spawn([&] {
                g_judge = mask;
                if (batch <= 4) fault(F_COLD_START);
                for (uint64_t k = first; k < end; k++) {
                    Plan p;
                    gen_plan(prop, seed, k, th, p);
                    G->cur_index = k;
                    run_plan(p);
                }
            }, 0);
            if (o.harness) { fprintf(stderr, "harness failure at plan %llu: %s\n", (unsigned long long)o.index, o.msg.c_str()); return 2; }
            if (!o.kind && !o.fatal_foreign) { done += end - i; i = end; continue; }
            uint64_t bad = o.index;
            done += bad - i + 1;
            if (candidate(id, o)) {
                g_count = false;
                std::vector<Plan> v(1);
                gen_plan(prop, seed, bad, th, v[0]);
                Outcome r = judge(v);
                if (!r.kind && bad > first) { // perhaps it needs what happened before in the process
                    std::vector<Plan> h;
                    for (uint64_t k = first; k <= bad; k++) { Plan p; gen_plan(prop, seed, k, th, p); h.push_back(p); }
                    Outcome r2 = judge(h);
                    if (r2.kind) { r = r2; v = h; }
                }
                g_count = true;
                if (r.kind) {
                    write_plans(out + ".viol", v, r);
                    std::ofstream(out + ".index") << bad << "\n";
                    dump_stats(out, rejected, done, wall() - t0, capped);
                    return 1;
                }
                rejected++;
            } else rejected++;
            i = bad + 1;
        }
    }
    dump_stats(out, rejected, done, wall() - t0, capped);
    return 0;
}
static void report(const Outcome &o) {
    printf("kind=%s class=[%s] op=%d hash=%016llx/%016llx\n%s\n", o.kind ? kind_name(o.kind) : "none", o.cls.c_str(), o.op, (unsigned long long)o.hash, (unsigned long long)o.fullhash, o.msg.c_str());
}
static int mode_replay() {
    auto v = read_plans(opt["file"]);
    if (v.empty()) { fprintf(stderr, "no plan in %s\n", opt["file"].c_str()); return 2; }
    Outcome o = judge(v);
    report(o);
    return o.harness ? 2 : o.kind ? 1 : 0;
}
// ---------------------------------------------------------------- minimisation
static int tries;
static double min_end;
static bool same(const std::vector<Plan> &v, const Outcome &want, Outcome &got) {
    if (wall() > min_end) return false;
    tries++;
    got = judge(v);
    return got.kind == want.kind && got.cls == want.cls;
}
static int mode_minimise() {
    auto v = read_plans(opt["file"]);
    if (v.empty()) return 2;
    min_end = wall() + (double)O("secs", 60);
    if (g_hang > 8) g_hang = 8;
    Outcome o = judge(v), g;
    if (!o.kind) { report(o); return 2; }
    // whole plans
    for (size_t i = 0; i + 1 < v.size();) {
        auto w = v;
        w.erase(w.begin() + i);
        if (same(w, o, g)) v = w, o = g; else i++;
    }
    for (size_t i = 0; i < v.size(); i++) if (v[i].P("relay")) {
        auto w = v;
        w[i].par.erase("relay");
        for (auto &q : w[i].ops) q.by = 0;
        if (same(w, o, g)) v = w, o = g;
    }
    auto shrink_ops = [&] {
        bool any = false;
        for (size_t k = v.size(); k-- > 0;)
            for (size_t chunk = std::max<size_t>(1, v[k].ops.size() / 2); chunk >= 1; chunk /= 2) {
                for (size_t i = v[k].ops.size(); i > 0;) {
                    size_t a = i > chunk ? i - chunk : 0;
                    auto w = v;
                    w[k].ops.erase(w[k].ops.begin() + a, w[k].ops.begin() + i);
                    if (!w[k].ops.empty() && same(w, o, g)) { v = w; o = g; any = true; }
                    i = a;
                }
                if (chunk == 1) break;
            }
        return any;
    };
    auto shrink_args = [&] {
        bool any = false;
        for (auto k = v.size(); k-- > 0;)
            for (size_t i = 0; i < v[k].ops.size(); i++) {
                auto tryset = [&](int64_t Op::*f, int64_t x) {
                    if (v[k].ops[i].*f == x) return false;
                    auto w = v;
                    w[k].ops[i].*f = x;
                    if (!same(w, o, g)) return false;
                    v = w; o = g;
                    return any = true;
                };
                if (v[k].ops[i].by) {
                    auto w = v;
                    w[k].ops[i].by = 0;
                    if (same(w, o, g)) { v = w; o = g; any = true; }
                }
                tryset(&Op::fail, 0); tryset(&Op::fail2, 0); tryset(&Op::dt, 0); tryset(&Op::d1, 0); tryset(&Op::d2, 0);
                if (v[k].ops[i].rep && !tryset(&Op::rep, 0)) // the fewest repetitions
                    for (int64_t lo = 0; v[k].ops[i].rep - lo > 1;) {
                        int64_t m = lo + (v[k].ops[i].rep - lo) / 2;
                        if (!tryset(&Op::rep, m)) lo = m;
                    }
                for (int a = 1; a < NARG; a++) {
                    auto seta = [&](int64_t x) {
                        if (v[k].ops[i].a[a] == x) return false;
                        auto w = v;
                        w[k].ops[i].a[a] = x;
                        if (!same(w, o, g)) return false;
                        v = w; o = g;
                        return any = true;
                    };
                    if (seta(0)) continue;
                    int64_t x = v[k].ops[i].a[a];
                    if (x > 0 && x < 100000) while (v[k].ops[i].a[a] > 1 && seta(v[k].ops[i].a[a] / 2)) {}
                    if (x > 1 && x < 100000) while (v[k].ops[i].a[a] > 1 && seta(v[k].ops[i].a[a] - 1)) {}
                    if (x >= 100000) for (int64_t y = 1; y < 4; y++) if (seta(y)) break;
                }
            }
        return any;
    };
    shrink_ops();
    while (shrink_args() && shrink_ops() && wall() < min_end) {}
    // fewer threads and a simpler schedule
    for (auto &p : v) (void)p;
    Plan &last = v.back();
    if (last.nthreads > 1) {
        int mx = 0;
        for (auto &q : last.ops) mx = std::max(mx, q.t);
        auto w = v;
        w.back().nthreads = mx + 1;
        if (same(w, o, g)) { v = w; o = g; }
    }
    if (v.back().nthreads > 1) {
        auto w = v;
        w.back().strategy = 0;
        if (same(w, o, g)) { v = w; o = g; }
    }
    if (v.back().nthreads > 1) { // write the schedule down
        Outcome f = fresh(v, judged_kinds(prop_id(v.back())));
        if (!f.overflow && !f.slices.empty() && f.slices.size() < 20000) {
            auto w = v;
            w.back().explicit_sched = true;
            w.back().sched = f.slices;
            if (same(w, o, g)) {
                v = w; o = g;
                for (size_t chunk = std::max<size_t>(1, v.back().sched.size() / 2); chunk >= 1; chunk /= 2) {
                    for (size_t i = v.back().sched.size(); i > 0;) {
                        size_t a = i > chunk ? i - chunk : 0;
                        auto x = v;
                        x.back().sched.erase(x.back().sched.begin() + a, x.back().sched.begin() + i);
                        if (same(x, o, g)) { v = x; o = g; }
                        i = a;
                    }
                    if (chunk == 1) break;
                }
                for (size_t i = 0; i + 1 < v.back().sched.size();) { // join neighbours of one thread
                    auto x = v;
                    auto &s = x.back().sched;
                    if (s[i].t == s[i + 1].t) { s[i].q += s[i + 1].q; s.erase(s.begin() + i + 1); if (same(x, o, g)) { v = x; o = g; continue; } }
                    i++;
                }
                shrink_ops();
            }
        }
    }
    write_plans(opt["out"], v, o);
    fprintf(stdout, "minimised in %d executions: %zu plan(s), %zu operation(s), %zu slice(s)\n", tries, v.size(), v.back().ops.size(), v.back().sched.size());
    report(o);
    return 1;
}
static int mode_dump() {
    uint64_t a = (uint64_t)O("index", 0), n = (uint64_t)O("count", 1);
    for (uint64_t i = a; i < a + n; i++) {
        Plan p;
        gen_plan(opt["prop"], (uint64_t)O("seed", 1), i, O("thorough", 0), p);
        printf("%s index %llu: %d threads, strategy %d%s\n", p.prop.c_str(), (unsigned long long)i, p.nthreads, p.strategy, opt.count("raw") ? "" : "");
        if (opt.count("raw")) printf("%s", p.text().c_str());
        else for (auto &o : p.ops) printf("  %s\n", op_text(o).c_str());
    }
    return 0;
}
static int mode_hash() { // for the determinism proof
    uint64_t a = (uint64_t)O("index", 0), n = (uint64_t)O("count", 1), batch = (uint64_t)O("batch", 1);
    for (uint64_t i = a; i < a + n; i += batch) {
        int fd[2];
        if (pipe(fd)) return 2;
        spawn([&] {
            g_judge = 0;
            for (uint64_t k = i; k < i + batch && k < a + n; k++) {
                Plan p;
                gen_plan(opt["prop"], (uint64_t)O("seed", 1), k, O("thorough", 0), p);
                G->cur_index = k;
                exec_plan(p);
                char b[100];
                int l = snprintf(b, sizeof b, "%llu %016llx %016llx\n", (unsigned long long)k, (unsigned long long)G->hash, (unsigned long long)G->fullhash);
                if (write(fd[1], b, l) != l) _exit(70);
            }
        }, 0);
        close(fd[1]);
        char b[4096];
        ssize_t l;
        while ((l = read(fd[0], b, sizeof b)) > 0) fwrite(b, 1, l, stdout);
        close(fd[0]);
    }
    return 0;
}
int mode_selftest();
int main(int argc, char **argv) {
    if (!getenv("SIM_NOASLR")) {
        setenv("SIM_NOASLR", "1", 1);
        int p = personality(0xffffffff);
        if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    std::string mode = argc > 1 ? argv[1] : "";
    for (int i = 2; i < argc; i++) {
        std::string s = argv[i];
        if (s.compare(0, 2, "--")) { opt["file"] = s; continue; }
        size_t e = s.find('=');
        if (e == std::string::npos) opt[s.substr(2)] = "1"; else opt[s.substr(2, e - 2)] = s.substr(e + 1);
    }
    G = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_devnull = open("/dev/null", O_RDWR);
    g_verbose = opt.count("verbose");
    g_hang = (double)O("hang", 30);
    if (opt.count("cpu")) {
        cpu_set_t c;
        CPU_ZERO(&c);
        CPU_SET((int)O("cpu", 0), &c);
        sched_setaffinity(0, sizeof c, &c);
    }
    if (mode == "run") return mode_run();
    if (mode == "replay") return mode_replay();
    if (mode == "minimise") return mode_minimise();
    if (mode == "dump") return mode_dump();
    if (mode == "hash") return mode_hash();
    if (mode == "selftest") return mode_selftest();
    fprintf(stderr, "usage: sim run|replay|minimise|dump|hash|selftest --key=value...\n");
    return 2;
}
