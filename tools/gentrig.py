#!/usr/bin/env python3
"""Writes harness/trig.inc: cosine and sine of 256 angles per row (1/2^31 of a turn), scaled by 2^44, from the power series in exact arithmetic."""
import os
from fractions import Fraction as Q
P = 200
def pi():
    def at(n):  # arctan(1/n) * 2^P
        x = (1 << P) // n; s = x; k = 3; sg = -1; n2 = n * n
        while x: x //= n2; s += sg * x // k; k += 2; sg = -sg
        return s
    return 16 * at(5) - 4 * at(239)
PI = pi()
def cs(a):  # a of 2^31
    x = 2 * PI * a >> 31; one = 1 << P; c, s, t, k = 0, 0, one, 0
    while t:
        q = k & 3
        if q == 0: c += t
        elif q == 1: s += t
        elif q == 2: c -= t
        else: s -= t
        k += 1; t = t * x // k >> P
    r = lambda v: (v + (1 << P - 45)) >> (P - 44)
    return r(c), r(s)
ROWS = [("top", 21, 0), ("mid", 13, 0), ("low", 5, 0), ("unit", 0, 0), ("top_b", 21, 0x155000), ("top_c", 21, 0xfff00), ("mid_b", 13, 0x15400000), ("small", 8, 0), ("near90", 8, 0x1fff0000), ("near45", 8, 0x0fff8000), ("mid_c", 13, 0x0a000015)]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "trig.inc"), "w") as f:
    f.write("// written by tools/gentrig.py\n")
    for n, s, c in ROWS:
        v = [cs((i << s) + c) for i in range(256)]
        f.write("struct tr_%s { static constexpr int32_t shift = %d, off = %d; static constexpr int64_t c[256] = { %s }, s[256] = { %s }; };\n" % (n, s, c, ", ".join(str(x[0]) for x in v), ", ".join(str(x[1]) for x in v)))
