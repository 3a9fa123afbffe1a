#!/usr/bin/env python3
"""Constants of the reference models, computed from their definitions (nothing is taken from the code under test)."""
import sys
from math import isqrt, sin
def icbrt(n):
    lo, hi = 0, 1 << (n.bit_length() // 3 + 2)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** 3 <= n: lo = m
        else: hi = m - 1
    return lo
primes = []
c = 2
while len(primes) < 80:
    if all(c % q for q in primes): primes.append(c)
    c += 1
def fsqrt(p, bits): return isqrt(p << (2 * bits)) & ((1 << bits) - 1)
def fcbrt(p, bits): return icbrt(p << (3 * bits)) & ((1 << bits) - 1)
def arr(name, ty, vals, w):
    print("static const %s %s[] = {%s};" % (ty, name, ",".join("0x%0*xULL" % (w, v) for v in vals)))
arr("T_MD5K", "uint32_t", [int(abs(sin(i + 1)) * 2 ** 32) for i in range(64)], 8)
arr("T_K256", "uint32_t", [fcbrt(p, 32) for p in primes[:64]], 8)
arr("T_K512", "uint64_t", [fcbrt(p, 64) for p in primes[:80]], 16)
arr("T_H256", "uint32_t", [fsqrt(p, 32) for p in primes[:8]], 8)
arr("T_H512", "uint64_t", [fsqrt(p, 64) for p in primes[:8]], 16)
arr("T_H384", "uint64_t", [fsqrt(p, 64) for p in primes[8:16]], 16)
arr("T_H224", "uint32_t", [fsqrt(p, 64) & 0xffffffff for p in primes[8:16]], 8)
def rc():
    out, r = [], 1
    for i in range(24):
        v = 0
        for j in range(7):
            if r & 1: v |= 1 << ((1 << j) - 1)
            r <<= 1
            if r & 0x100: r ^= 0x171
        out.append(v)
    return out
arr("T_RC", "uint64_t", rc(), 16)
rot = [0] * 25
x, y = 1, 0
for t in range(24):
    rot[x + 5 * y] = ((t + 1) * (t + 2) // 2) % 64
    x, y = y, (2 * x + 3 * y) % 5
arr("T_ROT", "int", rot, 2)
# fractional part of pi: 18 + 1024 words
words = 18 + 1024
bits = words * 32
guard = 128
one = 1 << (bits + guard)
def atan_inv(n):
    t = one // n; s = t; k = 3; n2 = n * n; sg = -1
    while t:
        t //= n2; s += sg * (t // k); sg = -sg; k += 2
    return s
pi = 4 * (4 * atan_inv(5) - atan_inv(239))
frac = (pi - 3 * one) >> guard
arr("T_PI", "uint32_t", [(frac >> (32 * (words - 1 - i))) & 0xffffffff for i in range(words)], 8)
