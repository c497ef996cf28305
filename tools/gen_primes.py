#!/usr/bin/env python3
"""Write sim/src/primes.rs: RFC 5054 groups (3072 bits and more recomputed from the digits of pi,
RFC 3526; the others checked to be safe primes) and small safe-prime groups for the simulator."""
import sys, random
from sympy import isprime
from mpmath import mp
mp.prec = 9000
G = {1024: 2, 1536: 2, 2048: 2, 3072: 5, 4096: 5, 6144: 5, 8192: 19}
X = {3072: 1690314, 4096: 240904, 6144: 929484, 8192: 4743158}
out = ["//! Generated by tools/gen_primes.py: groups of RFC 5054 and small custom groups.",
       "pub const RFC: [(u32, u64, &str); 7] = ["]
for b, g in G.items():
    f = int.from_bytes(open(f"/repo/srp/src/groups/{b}.bin", "rb").read(), "big")
    if b in X:
        p = 2**b - 2**(b-64) - 1 + 2**64 * (int(mp.floor(mp.mpf(2)**(b-130) * mp.pi)) + X[b])
    else:
        p = f
        assert isprime(p) and isprime((p-1)//2) and p.bit_length() == b
    print(b, p == f, hex(p)[:40])
    out.append(f'    ({b}, {g}, "{p:x}"),')
out.append("];")
r = random.Random(5054)
def safe(lo, hi):
    while True:
        q = r.randrange(lo//2, hi//2) | 1
        if isprime(q) and isprime(2*q+1):
            return 2*q+1
def gen(p):
    for g in range(2, 100):
        if pow(g, 2, p) != 1 and pow(g, (p-1)//2, p) != 1:
            return g
S = [23, 263, 10007, safe(2**31, 2**32)]
S += [safe(2**127, 2**128), safe(2**128, 2**128 + 2**125), safe(2**200, 2**200+2**195), safe(2**255, 2**256), safe(2**256, 2**256+2**250), safe(2**263,2**264)]
out.append("/// (generator, prime); the first four are too small for negative statements")
out.append(f"pub const SMALL: [(u64, &str); {len(S)}] = [")
for p in S:
    h = f"{p:x}"
    h = "0" * (len(h) % 2) + h
    out.append(f'    ({gen(p)}, "{h}"),')
out.append("];")
open("/verif/sim/src/primes.rs", "w").write("\n".join(out) + "\n")
