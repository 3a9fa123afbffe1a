#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = "deterministic simulation with fault injection: "
N = {
 "C01": "seeded interleavings of piecewise-fed contexts, context copies, abandoned contexts; streaming reference model; gigabyte streams on the shipped build",
 "C02": "seeded interleavings of piecewise absorb/squeeze, context copies; streaming reference model; gigabyte streams on the shipped build",
 "C03": "simulated files (short reads, delays, errors, EINTR, early end-of-file) under real stdio; digest of the delivered bytes as oracle",
 "C04": "simulated threads preempted inside library code; every candidate compared with the same thread run alone in a fresh process",
 "C05": "simulated threads sharing one base encoder; per-call RFC 4648 model, deadlock and use-after-free detection",
 "C06": "injected allocation failures at every allocation of object calls, single- and multi-threaded; models continue after the failure",
 "C07": "seeded histories over HMAC contexts and objects; RFC 2104 model",
 "C08": "seeded histories with allocation failures and shared use; RFC 4226 model",
 "C09": "simulated clock that ticks, jumps and is set back between and inside calls; RFC 6238 model over every clock value shown",
 "C10": "simulated clock that ticks and jumps inside calls; code and remaining time must fit one shown clock value",
 "C11": "simulated clock over histories of generate/remaining_time/update_time; step model",
 "C12": "seeded call histories with cut and noisy text; RFC 4648 model",
 "C13": "simulated threads sharing Blowfish keys; cipher model, key schedule compared after every call",
 "C14": "exact-size buffers under AddressSanitizer in histories with allocation, stream and clock faults and interleavings",
 "C15": "every history executed under five different fillings of fresh heap, stack and storage; results compared",
 "C16": "allocation ledger over repeated histories with injected failures",
 "C20": "seeded histories over several values with failing allocations, vanishing sources and concurrent readers of shared values; byte model of every live value checked after each operation",
 "C18": "seeded histories of conversions and cleaning of any text, interleaved threads (cold start included), failing allocations and output streams; exact model of every text",
 "C19": "seeded lookups of all and of unknown names in interleaved threads (cold start included), with failing allocations; table of names and sizes from the standards",
 "C21": "simulated threads that take turns calling on the same contexts and objects and end in between, with failing allocations and clock jumps; models, and the same history by one thread",
 "C22": "process-wide state observed before and after every call and between the steps of other threads' calls, under injected allocation and stream failures",
 "C17": "seeded update/get_digest/reset histories with failing allocations; lifecycle model",
}
NOTE = ("Sampling: a clean run is evidence over the executed seeds, not proof. Real library code (all of src, built from the working tree) runs on real pthreads of which the simulator runs exactly one at a time; "
        "clock, allocator, lock primitives and the files behind FILE are simulated. Trusts: clang and its sanitizer instrumentation, the reference models (compared with Python's hashlib/hmac/base64 at every build), "
        "sequential consistency between instrumented accesses.")
NA = {}
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [
    {"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p, "evidence_file": "evidence/%s.json" % p, "technique": T + N[p],
     "level": "exploration", "level_note": NOTE} for p in sorted(N)],
    "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
    "notes": "No hooks in /repo: every seam is at link or compile level (instrumented build, symbol interposition). Replay a violation with: python3 check.py --replay <file>."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
