#!/usr/bin/env python3
"""Builds libpgfe from /repo's working tree under the simulator and decides one property.

  check.py C05 [quick|thorough]     run the check (exit 0 held, 1 violation, 2 the check itself failed)
  check.py --replay FILE            replay a violation
  check.py --setup                  build everything once
"""
import base64, contextlib, hashlib, hmac, json, os, random, re, shutil, struct, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PGFE_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
OUT = os.path.join(HERE, "out")
CPUS = sorted(os.sched_getaffinity(0))
ENV = dict(PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", HOME="/tmp", LC_ALL="C")
COV = "-fsanitize=address -fsanitize-recover=address -fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"
WRAP = "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=strdup"
SIM = ["core", "sched", "seams", "ref", "gen", "main", "world", "effects", "selftest"]
T0 = time.time()


def die(msg):
    print("CHECK FAILED: " + msg, flush=True)
    giant_stop.append(1)
    for p in list(giant_live):
        p.kill()
    sys.exit(2)


def tree_hash():
    h = hashlib.sha256()
    for top in ("CMakeLists.txt", "cmake", "include", "src", "project.json", "metadata.mak"):
        p = os.path.join(REPO, top)
        files = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    d = os.path.join(HERE, "sim")
    for f in sorted(os.listdir(d)):
        h.update(f.encode() + b"\0" + open(os.path.join(d, f), "rb").read())
    h.update(open(__file__, "rb").read())
    return h.hexdigest()[:20]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **kw)
    if r.returncode:
        die("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def cmake(bdir, flags, link):
    run(["cmake", "-S", REPO, "-B", bdir, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=", "-DBUILD_TESTING=OFF", "-DCMAKE_C_COMPILER=/usr/bin/clang",
         "-DCMAKE_CXX_COMPILER=/usr/bin/clang++", "-DCMAKE_C_FLAGS=-w -include stdarg.h " + flags, "-DCMAKE_CXX_FLAGS=-w " + flags,
         "-DCMAKE_SHARED_LINKER_FLAGS=" + link])


def build(raw=False):
    """The content of the tree names the build directory, so nothing stale is ever used."""
    key = tree_hash()
    d = os.path.join(BUILD, key)
    want = [os.path.join(d, "ok")] + ([os.path.join(d, "ok-raw")] if raw else [])
    if all(os.path.exists(w) for w in want):
        os.utime(d)
        return d
    if os.path.isdir(BUILD):
        old = sorted((os.path.join(BUILD, x) for x in os.listdir(BUILD) if x != key), key=os.path.getmtime)
        for x in old[:-3]:
            if os.path.getmtime(x) < time.time() - 3600:
                shutil.rmtree(x, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(want[0]):
        with open(os.path.join(d, "tables.h"), "w") as f:
            f.write(run([sys.executable, os.path.join(HERE, "sim/gen_tables.py")]))
        fl = ["-std=c++17", "-O1", "-g1", "-w", "-fsanitize=address", "-fsanitize-recover=address", "-I" + os.path.join(REPO, "include"), "-I" + d]
        ps = [(s, subprocess.Popen(["clang++"] + fl + ["-c", os.path.join(HERE, "sim", s + ".cpp"), "-o", os.path.join(d, s + ".o")], stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True, env=ENV)) for s in reversed(SIM)]
        cmake(os.path.join(d, "lib"), "-O1 -g1 " + COV, WRAP + " -Wl,-Bsymbolic-functions")
        run(["ninja", "-C", os.path.join(d, "lib"), "pgfe"])
        for s, p in ps:
            o = p.communicate()[0]
            if p.returncode:
                die("the harness does not compile against %s/include: %s\n%s" % (REPO, s, o[-4000:]))
        run(["clang++", "-fsanitize=address", "-rdynamic"] + [os.path.join(d, s + ".o") for s in SIM] +
            ["-L" + os.path.join(d, "lib"), "-lpgfe", "-Wl,-rpath," + os.path.join(d, "lib"), "-lpthread", "-ldl", "-o", os.path.join(d, "sim")])
        selftest(os.path.join(d, "sim"))
        open(want[0], "w").close()
    if raw and not os.path.exists(want[1]):
        cmake(os.path.join(d, "rawlib"), "-O2 -g1", "")
        run(["ninja", "-C", os.path.join(d, "rawlib"), "pgfe"])
        run(["clang++", "-std=c++17", "-O2", "-w", "-I" + os.path.join(REPO, "include"), os.path.join(HERE, "sim/giant.cpp"), "-L" + os.path.join(d, "rawlib"), "-lpgfe",
             "-Wl,-rpath," + os.path.join(d, "rawlib"), "-o", os.path.join(d, "giant")])
        open(want[1], "w").close()
    return d


# ---------------------------------------------------------------- reference models against Python's own implementations
ALGS = ["md5", "sha1", "sha224", "sha256", "sha384", "sha512", "sha512_224", "sha512_256", "sha3_224", "sha3_256", "sha3_384", "sha3_512"]


def selftest(sim):
    r = random.Random(1)
    lines, want = [], []

    def add(l, w):
        lines.append(l)
        want.append(w)
    for n in list(range(0, 300, 7)) + [55, 56, 63, 64, 111, 112, 127, 128, 135, 136, 143, 144, 167, 168, 1000]:
        b = r.randbytes(n)
        x = "x" + b.hex()
        for i, a in enumerate(ALGS):
            try:
                add("hash %d 0 %s" % (i, x), hashlib.new(a, b).hexdigest())
            except ValueError:
                continue
            k = r.randbytes(r.choice([0, 1, 20, 63, 64, 65, 128, 129, 145, 200]))
            add("hmac %d 0 %s x%s" % (i, x, k.hex()), hmac.new(k, b, a).hexdigest())
        for i, a in ((13, "shake_128"), (15, "shake_256")):
            bits = r.choice([0, 8, 256, 1344, 4096, 13, 1])
            d = bytearray(hashlib.new(a, b).digest((bits + 7) // 8))
            if bits % 8:
                d[-1] &= (1 << bits % 8) - 1
            add("hash %d %d %s" % (i, bits, x), d.hex())
        hexa = bytes.maketrans(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", b"0123456789ABCDEFGHIJKLMNOPQRSTUV")
        enc = [base64.b16encode(b), base64.b32encode(b), base64.b32encode(b).translate(hexa), base64.b64encode(b), base64.urlsafe_b64encode(b)]
        for i, e in enumerate(enc):
            add("enc %d 0 %s" % (i, x), e.decode())
            add("dec %d 0 x%s" % (i, e.hex()), b.hex())
    for n in range(40):
        k, c = r.randbytes(20), r.getrandbits(64 if n % 2 else 5)
        for i in (1, 3, 5, 9):
            h = hmac.new(k, struct.pack(">Q", c), ALGS[i]).digest()
            o = h[-1] & 15
            add("otp %d %d x x%s" % (i, c, k.hex()), "%08d" % ((struct.unpack(">I", h[o:o + 4])[0] & 0x7fffffff) % 10 ** 8))
    for k, p, c in (("0000000000000000", "0000000000000000", "4ef997456198dd78"), ("ffffffffffffffff", "ffffffffffffffff", "51866fd5b85ecb8a"),
                    ("3000000000000000", "1000000000000001", "7d856f9a613063f2"), ("0123456789abcdef", "1111111111111111", "61f9c3802281b096"),
                    ("f0e1d2c3b4a5968778695a4b3c2d1e0f", "fedcba9876543210", "93142887ee3be15c")):
        add("fish 0 0 x%s x%s" % (p, k), c)
        add("fish 0 1 x%s x%s" % (c, k), p)
    o = subprocess.run([sim, "selftest"], input="\n".join(lines) + "\n", stdout=subprocess.PIPE, text=True, env=ENV).stdout.split("\n")
    bad = [(l, w, g) for l, w, g in zip(lines, want, o) if w != g]
    if bad or len(o) < len(want):
        die("reference model disagrees with Python: %s" % (bad[:2],))


# ---------------------------------------------------------------- tiers: number of plans, batch size
PLANS = {  # property: (quick, thorough, batch)
    "C01": (60000, 1200000, 25), "C02": (24000, 400000, 25), "C03": (80000, 1500000, 25), "C04": (16000, 160000, 1), "C05": (200000, 3000000, 25), "C06": (80000, 1200000, 25),
    "C07": (60000, 900000, 25), "C08": (50000, 700000, 25), "C09": (100000, 1500000, 25), "C10": (70000, 1200000, 25), "C11": (90000, 1500000, 25), "C12": (160000, 2500000, 25),
    "C18": (50000, 900000, 25), "C19": (60000, 900000, 25), "C21": (60000, 900000, 25), "C22": (40000, 600000, 25),
    "C13": (60000, 700000, 25), "C14": (70000, 1000000, 25), "C15": (50000, 700000, 25), "C16": (60000, 900000, 25), "C17": (130000, 2000000, 25), "C20": (60000, 900000, 25),
}
CAP = {"quick": 240, "thorough": 1500}


def call_sim(sim, *a, timeout=600):
    r = subprocess.run([sim] + list(a), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, timeout=timeout)
    return r.returncode, r.stdout


def parse_stats(f):
    d = {}
    for l in open(f):
        k, v = l.split()
        d[k] = float(v) if k == "secs" else int(v)
    b = open(f + ".sets", "rb").read()
    pos, sets = 0, []
    for _ in range(2):
        n = struct.unpack_from("<Q", b, pos)[0]
        sets.append(set(struct.unpack_from("<%dQ" % n, b, pos + 8)))
        pos += 8 + 8 * n
    n = struct.unpack_from("<Q", b, pos)[0]
    return d, sets[0], sets[1], bytes(b[pos + 8:pos + 8 + n])


def decide(prop, tier, seed):
    d = build()
    sim = os.path.join(d, "sim")
    built = time.time() - T0
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    known = known_findings(prop, sim)
    quick, thorough, batch = PLANS[prop]
    count = thorough if tier == "thorough" else quick
    if "PGFE_COUNT" in os.environ:
        count = int(os.environ["PGFE_COUNT"])
    W = len(CPUS)
    tmp = os.path.join(OUT, "%s-%d" % (prop, os.getpid()))
    os.makedirs(tmp)
    t = time.time()
    ps = []
    for w in range(W):
        f = os.path.join(tmp, str(w))
        ps.append((f, subprocess.Popen([sim, "run", "--prop=" + prop, "--seed=%d" % seed, "--count=%d" % count, "--workers=%d" % W, "--worker=%d" % w, "--batch=%d" % batch, "--cpu=%d" % CPUS[w],
                                        "--cap=%d" % CAP[tier], "--thorough=%d" % (tier == "thorough"), "--out=" + f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV)))
    giant = giants(prop, tier, seed) if prop in GIANTS and "PGFE_NOGIANTS" not in os.environ and os.path.exists(os.path.join(HERE, "sim/giant.cpp")) else None
    viol = []
    for f, p in ps:
        o = p.communicate()[0]
        if p.returncode == 1:
            viol.append((int(open(f + ".index").read()), f + ".viol"))
        elif p.returncode:
            die("worker: exit %s %s" % (p.returncode, o[-2000:]))
    secs = time.time() - t
    st, ils, shapes, edges = {}, set(), set(), bytearray(1 << 16)
    for f, _ in ps:
        s, a, b, e = parse_stats(f)
        for k, v in s.items():
            st[k] = st.get(k, 0) + v
        ils |= a
        shapes |= b
        for i, v in enumerate(e):
            if v:
                edges[i] = 1
    rc = 0
    if viol:
        idx, f = min(viol)
        rc = report(prop, seed, idx, f, sim)
    if giant:
        g = giant(bool(viol))
        if g["violations"]:
            rc = 1
    shutil.rmtree(tmp, ignore_errors=True)
    evidence(prop, tier, seed, d, sim, st, ils, shapes, edges, secs, built, rc, known, giant and g)
    return rc


def report(prop, seed, idx, f, sim):
    path = os.path.join(OUT, "%s-seed%d-%d.replay" % (prop, seed, idx))
    a, b = call_sim(sim, "replay", "--file=" + f), call_sim(sim, "replay", "--file=" + f)
    if a != b or a[0] != 1:
        # Code that reads memory it never wrote can meet values no simulator controls (stack protector, kernel random bytes): it must fail again, but not byte for byte
        more = [a, b] + [call_sim(sim, "replay", "--file=" + f) for _ in range(4)]
        bad = [x for x in more if x[0] == 1]
        if len(bad) < 2:
            keep = path + ".unstable"
            shutil.copy(f, keep)
            die("plan %d of seed %d fails, but not the same way every time (kept in %s)\n%s\n%s" % (idx, seed, keep, a[1], b[1]))
        a = bad[0]
        print("this failure depends on uncontrolled memory contents as well: %d of 6 replays fail" % len(bad))
    shutil.copy(f, path)
    m = call_sim(sim, "minimise", "--file=" + f, "--out=" + f + ".min", "--secs=60")
    if m[0] == 1:
        a2, b2 = call_sim(sim, "replay", "--file=" + f + ".min"), call_sim(sim, "replay", "--file=" + f + ".min")
        if a2 == b2 and a2[0] == 1:
            shutil.copy(f + ".min", path)
            a = a2
            print(m[1].split("\n")[0])
    for l in open(path):
        if l.startswith("#"):
            print(l.rstrip()[:300])
    print("%s: seed %d, plan %d: %s" % (prop, seed, idx, a[1].strip()))
    print("replay with: python3 %s --replay %s" % (os.path.abspath(__file__), path))
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    return 1


def known_findings(prop, sim):
    """finding: property=.. id=.. plan=<file under /verif>  <what fails>. Each is executed by itself; the search never generates these calls."""
    out = []
    f = os.path.join(HERE, "known_findings.txt")
    for l in open(f) if os.path.exists(f) else []:
        m = re.match(r"finding: property=(\S+) id=(\S+) plan=(\S+) (.*)", l)
        if m and m.group(1) == prop:
            rc, o = call_sim(sim, "replay", "--file=" + os.path.join(HERE, m.group(3)))
            if rc == 1:
                print("KNOWN-FINDING: property=%s %s: %s" % (prop, m.group(2), m.group(4)), flush=True)
            out.append({"id": m.group(2), "still_fails": rc == 1})
    return out


# ---------------------------------------------------------------- streams of gigabytes, through the build as shipped
G4, M512 = (1 << 32) + 1000003, (1 << 29) + 100003
GIANTS = {  # property -> [(algorithm, message length, output bits, in the quick tier)]
    "C01": [(a, G4, 0, a in ("md5", "sha1", "sha256", "sha512")) for a in ("sha256", "sha224", "md5", "sha1", "sha512", "sha384")] +
           [(a, M512, 0, True) for a in ("sha256", "sha224", "md5", "sha1", "sha512", "sha384")],
    "C02": [(a, G4, b, a in ("sha3_256", "shake128")) for a, b in (("sha3_256", 0), ("shake128", 512), ("sha3_512", 0), ("sha3_384", 0), ("sha3_224", 0), ("shake256", 512))] +
           [(a, M512, b, a in ("sha3_224", "sha3_512", "shake256")) for a, b in (("sha3_512", 0), ("sha3_224", 0), ("shake256", 512), ("sha3_256", 0), ("sha3_384", 0), ("shake128", 512))] +
           [(a, 1000, (1 << 32) + 8 * 1003, True) for a in ("shake128", "shake256")],
    "C03": [("file:md5", G4, 0, True), ("file:sha1", M512, 0, True), ("file:sha384", M512, 0, True), ("file:sha3_224", M512, 0, True), ("file:shake256", M512, 512, True),
            ("file:sha1", G4, 0, False), ("file:sha384", G4, 0, False), ("file:sha3_224", G4, 0, False), ("file:shake256", G4, 512, False)],
    "C07": [("mac:md5", G4, 0, True), ("mackey:md5", G4, 0, True), ("mac:sha1", M512, 0, True), ("mac:sha384", M512, 0, True), ("mac:sha3_224", M512, 0, True), ("mackey:sha3_224", M512, 0, True)] +
           [(m + a, G4, 0, False) for m in ("mac:", "mackey:") for a in ("sha1", "sha384", "sha3_224")] + [("mackey:" + a, M512, 0, False) for a in ("sha1", "sha384")],
    "C12": [(m, G4, 0, m[:3] == "b64") for m in ("b64e:", "b64d:", "b32e:", "b32d:", "b16e:", "b16d:")] +
           [(m, M512, 0, m[:3] != "b64") for m in ("b64e:", "b64d:", "b32e:", "b32d:", "b16e:", "b16d:")],
    "C13": [("bf:", G4, 0, True), ("bf:", M512, 0, False)],
    "C17": [("enc:md5", G4, 0, True), ("enc:shake128", 1000, (1 << 32) + 8 * 1003, True), ("enc:sha384", M512, 0, True), ("enc:sha1", G4, 0, False), ("enc:sha3_224", G4, 0, False),
            ("enc:shake256", 1000, (1 << 32) + 8 * 1003, False)],
}
GIANT_OK = ("bf:", "b64e:", "b64d:", "b32e:", "b32d:", "b16e:", "b16d:")  # compared inside, with what short pieces give


def giant_cuts(r, total, style):
    if total < 1 << 20:
        a = r.randrange(total + 1)
        return [a, total - a]
    a = r.randrange(400)
    if total > 1 << 32:
        p = [a, (1 << 32) + r.randrange(500000)] if style == 0 else [a] + [r.randrange(1 << 29, 1 << 30) for _ in range(4)]
    else:
        p = [a, (1 << 29) + r.randrange(50000)] if style == 0 else [a, 1 << 20] + [r.randrange(10000, 1 << 28) for _ in range(2)]
    while sum(p) < total:
        p.append(min(total - sum(p), r.choice([0, 1, 63, 64, 65, 127, 128, 1000, 99991, 1 << 28])))
    return p


GIANT_CPU = 300  # seconds of processor time per stream, about ten times what the slowest one takes
giant_live, giant_stop, giant_room = set(), [], threading.Semaphore(2)  # those that write gigabytes to memory


def giant_run(exe, alg, outs, pieces):
    """Digest as hex (SHAKE with long output: its SHA-256), or a description of how it failed."""
    if giant_stop:
        return None
    with giant_room if alg in GIANT_OK else contextlib.nullcontext():
        return giant_run1(exe, alg, outs, pieces)


def giant_run1(exe, alg, outs, pieces):
    if giant_stop:
        return None
    p = subprocess.Popen([exe, alg, "+".join(map(str, outs))] + [str(x) for x in pieces], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=dict(ENV, GIANT_CPU=str(GIANT_CPU)))
    giant_live.add(p)
    if "shake" in alg:
        h, n, b = hashlib.sha256(), 0, b""
        while True:
            c = p.stdout.read(1 << 20)
            if not c:
                break
            h.update(c)
            n += len(c)
            if n <= 64:
                b += c
        got = b.hex() if sum(outs) <= 512 else h.hexdigest()
    else:
        got = p.stdout.read().decode().strip()
    rc = p.wait()
    giant_live.discard(p)
    if giant_stop:
        return None
    if rc == 3:
        die("giant: set-up failed for " + alg)
    return got if rc == 0 else "no end within %d s of processor time" % GIANT_CPU if rc == -24 else "ended by signal %d" % -rc if rc < 0 else "exit status %d" % rc


def giants(prop, tier, seed):
    import concurrent.futures as cf
    exe = os.path.join(build(raw=True), "giant")
    table = {(a, int(t), int(b)): d for a, t, b, d in (l.split() for l in open(os.path.join(HERE, "sim/giant_table.txt")))}
    r = random.Random(seed * 7919 + int(prop[1:]))
    jobs = []
    for alg, total, bits, quick in GIANTS[prop]:
        for style in ((0, 1, 0) if tier == "thorough" else (0,) if total != M512 else (r.randrange(2),)):
            p = giant_cuts(r, total, style)
            o = [bits]
            if bits > 512:
                a = 8 * r.randrange(1, 300)
                b = (1 << 32) + 8 * r.randrange(0, 600)
                o = [a, b, bits - a - b]
            if quick or tier == "thorough":
                jobs.append((alg, o, p, "ok" if alg in GIANT_OK else table[(re.sub("^(file|enc):", "", alg), total, bits)]))
    ex = cf.ThreadPoolExecutor(len(CPUS))
    fs = [ex.submit(giant_run, exe, *j[:3]) for j in jobs]

    def stop():
        giant_stop.append(1)
        for p in list(giant_live):
            p.kill()

    def finish(already):
        bad, done = 0, 0
        if already:
            stop()
        for f in cf.as_completed(fs):
            alg, o, p, want = jobs[fs.index(f)]
            got = f.result()
            if got is None or already:
                continue
            done += 1
            if got == want:
                continue
            if not got.startswith("no end") and got != giant_run(exe, alg, o, p):
                die("giant: %s gives different results" % alg)
            stop()
            bad += 1
            path = os.path.join(OUT, "%s-seed%d-giant-%s.replay" % (prop, seed, alg.replace(":", "-")))
            open(path, "w").write("# giant: %s with pieces of these lengths of the pattern in sim/giant.cpp\n%s\n" % (
                alg, json.dumps({"alg": alg, "outs": o, "pieces": p, "want": want, "got": got})))
            print("%s with pieces %s, output bits %s: %s, expected %s" % (alg, p, o, got, want))
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            break
        return {"violations": bad, "finished": done, "streams": ["%s pieces %s bits %s" % (j[0], j[2][:6], j[1]) for j in jobs], "bytes": sum(sum(j[2]) for j in jobs)}
    return finish


def replay_giant(path):
    j = json.loads(open(path).read().split("\n")[1])
    got = giant_run(os.path.join(build(raw=True), "giant"), j["alg"], j["outs"], j["pieces"])
    print("%s: %s, expected %s" % (j["alg"], got, j["want"]))
    return 0 if got == j["want"] else 1


REAL = ["all of libpgfe (every source file of /repo/src, built from the working tree with its own CMake files)", "libstdc++ (strings, exceptions, std::mutex)", "glibc stdio (FILE buffering)"]
STUB = ["thread scheduling (real pthreads run one at a time, chosen by the simulator at instrumented edges, loads, stores and synchronisation calls)",
        "mutexes, rwlocks, condition variables, pthread_once, static initialisation guards (modelled)", "system clock (time, clock_gettime, gettimeofday, timespec_get)",
        "heap allocation of the library (failures and contents injected)", "the file behind each FILE (fopencookie: short reads, errors, EINTR, delays)"]
NONTRIV = ("Plans (threads, operations, arguments, faults, schedule) are drawn from seed and index. An execution is non-trivial if at least one of these happened in it: a preemption inside or "
           "between library calls, an allocation failure that surfaced, a clock step backwards or a clock change inside a call, a mid-stream context copy, a short read, a cut or noisy text. "
           "Distinct: different hash over its schedule, operations, outcomes, allocation sizes and clock reads.")


def evidence(prop, tier, seed, d, sim, st, ils, shapes, edges, secs, built, rc, known, giant):
    samples = call_sim(sim, "dump", "--prop=" + prop, "--seed=%d" % seed, "--index=0", "--count=3")[1].strip().split("\n")
    cov = {
        "evaluations": st["runs"], "distinct_nontrivial": len(shapes), "rule": NONTRIV, "samples": [s[:200] for s in samples[:60]],
        "plans": st["done"], "nontrivial_runs": st["nontrivial"], "operations": st["ops"], "comparisons_with_oracle": st["checks"],
        "runs_per_hour": int(st["runs"] / max(secs, .001) * 3600), "seeds_per_hour": int(st["done"] / max(secs, .001) * 3600), "run_seconds": round(secs, 2), "build_seconds": round(built, 2),
        "simulated_seconds": st["sim_seconds"], "library_steps": st["steps"], "preemptions": st["preemptions"], "thread_switches": st["switches"],
        "distinct_interleavings": len(ils), "interleaving_measure": "hash of the sequence (thread, code edge reached) at every switch", "library_edges_covered": sum(edges),
        "faults": {k[6:]: v for k, v in st.items() if k.startswith("fault.") and v}, "probes": {k[6:]: v for k, v in st.items() if k.startswith("probe.")},
        "operations_by_kind": {k[3:]: v for k, v in st.items() if k.startswith("op.")}, "kinds_left_to_other_properties": {k[8:]: v for k, v in st.items() if k.startswith("foreign.")},
        "candidates_rejected": st["rejected"], "stopped_by_time_cap": bool(st["capped"]), "workers": len(CPUS), "real_components": REAL, "stub_components": STUB, "known_findings": known,
    }
    if giant:
        cov["giant_streams"] = giant
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
               "assumptions": ["Code outside the simulator (kernel, compiler) is trusted", "Accesses interleave sequentially consistently at instrumented loads, stores and edges; weaker memory orders are not simulated",
                               "The reference models are right (compared with Python's hashlib, hmac and base64 at every build)"],
               "wall_s": round(time.time() - T0, 2), "violations": 1 if rc else 0}, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)


def main():
    a = sys.argv[1:]
    if not a:
        die(__doc__)
    if a[0] == "--setup":
        build(raw=os.path.exists(os.path.join(HERE, "sim/giant.cpp")))
        print("built in %.1f s" % (time.time() - T0))
        return 0
    if a[0] == "--replay":
        head = open(a[1]).read(200)
        if head.startswith("# giant"):
            return replay_giant(a[1])
        rc, o = call_sim(os.path.join(build(), "sim"), "replay", "--file=" + os.path.abspath(a[1]))
        print(o, end="")
        return rc
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    print("%s %s seed %d" % (a[0], tier, seed), flush=True)
    rc = decide(a[0], tier, seed)
    if rc == 0:
        print("%s: held on everything explored (%.1f s)" % (a[0], time.time() - T0))
    return rc


if __name__ == "__main__":
    sys.exit(main())
