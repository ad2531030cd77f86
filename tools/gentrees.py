#!/usr/bin/env python3
"""Generates contracts/trees.h: rooted trees with coloured nodes (three colours to
order 3, colour 0 alone to order 4) with the coefficients of the exact flow."""
from fractions import Fraction as F
from itertools import combinations_with_replacement as cwr
from math import factorial
import os
trees = []  # (color, order, children tuple)
idx = {}
def add(c, ch):
    t = (c, tuple(sorted(ch)))
    if t in idx: return
    idx[t] = len(trees); trees.append((c, 1 + sum(trees[k][1] for k in ch), t[1]))
def mono(k): return trees[k][0] == 0 and all(mono(j) for j in trees[k][2])
for n in range(1, 5):
    lower = list(range(len(trees)))
    for c in (range(3) if n < 4 else [0]):
        for m in range(0, n):
            for ch in cwr(lower, m):
                if sum(trees[k][1] for k in ch) == n - 1 and (n < 4 or all(mono(k) for k in ch)): add(c, ch)
mf = []; ex = []; mask = []
for c, o, ch in trees:
    q = F(1)
    for k in set(ch): q /= factorial(ch.count(k))
    mf.append(q); e = q
    for k in ch: e *= ex[k]
    ex.append(e / o)
    m = 1 << c
    for k in ch: m |= mask[k]
    mask.append(m)
def arr(t, n, v): return 'static const %s %s[NT] = {%s};\n' % (t, n, ', '.join(map(str, v)))
out = '// generated by tools/gentrees.py\n#define NT %d\n' % len(trees)
out += arr('int', 'T_COL', [t[0] for t in trees]) + arr('int', 'T_ORD', [t[1] for t in trees]) + arr('int', 'T_MASK', mask)
out += arr('int', 'T_NCH', [len(t[2]) for t in trees])
out += 'static const int T_CH[NT][3] = {%s};\n' % ', '.join('{%s}' % ', '.join(map(str, list(t[2]) + [0] * (3 - len(t[2])))) for t in trees)
out += arr('double', 'T_MF', ['%d.0 / %d.0' % (q.numerator, q.denominator) for q in mf])
out += arr('double', 'T_EXACT', ['%d.0 / %d.0' % (q.numerator, q.denominator) for q in ex])
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts', 'trees.h'), 'w').write(out)
print(len(trees))
