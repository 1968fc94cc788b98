#!/usr/bin/env python3
# Composite numbers (2k+1)(4k+1), k odd, both factors prime: a quarter of all
# bases are strong liars. Writes harness/pseudoprimes.inc (committed).
import random, sympy, os
r = random.Random(20261118)
out = []
for bits, count in [(64, 4), (200, 2), (340, 2), (360, 2), (520, 3), (660, 3), (860, 3), (1024, 8), (1320, 2)]:
    while count:
        top = 3 if bits == 1024 else 2
        h = bits // 2
        k = r.getrandbits(h - 1) | 1
        p, q = 2 * k + 1, 4 * k + 1
        if (p * q).bit_length() != bits or (p * q) >> (bits - 2) != 3: continue
        if any(p % s == 0 or q % s == 0 for s in sympy.primerange(3, 2000) if s < k): continue
        if pow(2, p - 1, p) != 1 or pow(2, q - 1, q) != 1: continue
        if sympy.isprime(p) and sympy.isprime(q) and (p * q - 1) % 65537 and (p * q - 1) % 3 + 1:
            out.append((bits, "%x" % (p * q))); count -= 1
open(os.path.join(os.path.dirname(__file__), "..", "harness", "pseudoprimes.inc"), "w").write("".join('{%d, "%s"},\n' % o for o in out))
