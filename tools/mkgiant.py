#!/usr/bin/env python3
"""Digests of the giant messages (the pattern of sim/giant.cpp), by hashlib. Writes sim/giant_table.txt; takes minutes, run once."""
import hashlib, hmac, os
from concurrent.futures import ProcessPoolExecutor
def pattern():
    z, b = 88172645463325252, bytearray()
    for _ in range(1 << 17):
        z ^= z << 13 & 0xffffffffffffffff; z ^= z >> 7; z ^= z << 17 & 0xffffffffffffffff
        b += z.to_bytes(8, "little")
    return bytes(b)
G4, M512 = (1 << 32) + 1000003, (1 << 29) + 100003
JOBS = [(a, t, 0) for a in ("md5", "sha1", "sha224", "sha256", "sha384", "sha512", "sha3_224", "sha3_256", "sha3_384", "sha3_512") for t in (G4, M512)] + \
    [("shake_128", G4, 512), ("shake_256", G4, 512), ("shake_128", M512, 512), ("shake_256", M512, 512), ("shake_128", 1000, (1 << 32) + 8 * 1003), ("shake_256", 1000, (1 << 32) + 8 * 1003)]
JOBS += [(m + a, t, 0) for m in ("mac:", "mackey:") for a in ("md5", "sha1", "sha384", "sha3_224") for t in (G4, M512)]
def one(j):
    a, t, bits = j
    p, m, n = pattern(), *a.rpartition(":")[::2]
    h = hmac.new(p[:20], digestmod=n) if m == "mac" else hashlib.new(n)
    for _ in range(t >> 20): h.update(p)
    h.update(p[:t & 0xfffff])
    if m == "mackey": d = hmac.new(h.digest(), b"giant", n).hexdigest()
    elif not bits: d = h.hexdigest()
    elif bits <= 512: d = h.hexdigest(bits // 8)
    else: d = hashlib.sha256(h.digest(bits // 8)).hexdigest()
    return "%s %d %d %s" % (a.replace("shake_", "shake"), t, bits, d)
if __name__ == "__main__":
    with ProcessPoolExecutor(6) as e:
        out = sorted(e.map(one, JOBS))
    open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../sim/giant_table.txt"), "w").write("\n".join(out) + "\n")
