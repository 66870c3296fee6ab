"""Compares pbt/ref.py's Bardell integrals with exact rational ones of Bardell's published series."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fractions import Fraction as F
from math import factorial
import numpy as np
from pbt import ref


def fact2(n):
    if n in (-1, 0):
        return F(1)
    if n > 0:
        r = F(1)
        while n > 0:
            r *= n
            n -= 2
        return r
    return fact2(n + 2) / (n + 2)


base = [[F(1, 2), F(-3, 4), F(0), F(1, 4)], [F(1, 8), F(-1, 8), F(-1, 8), F(1, 8)],
        [F(1, 2), F(3, 4), F(0), F(-1, 4)], [F(-1, 8), F(-1, 8), F(1, 8), F(1, 8)]]


def poly(i):
    if i < 4:
        return base[i]
    r = i + 1
    c = [F(0)] * r
    for n in range(r // 2 + 1):
        if r - 2 * n - 1 >= 0:
            c[r - 2 * n - 1] += (-1) ** n * fact2(2 * r - 2 * n - 7) / (2 ** n * factorial(n) * factorial(r - 2 * n - 1))
    return c


def d(p):
    return [k * p[k] for k in range(1, len(p))] or [F(0)]


def integ(p, q):
    s = F(0)
    for i, x in enumerate(p):
        if x:
            for j, y in enumerate(q):
                if y and (i + j) % 2 == 0:
                    s += 2 * x * y / (i + j + 1)
    return s


N = 34
P = [poly(i) for i in range(N)]
Ds = [P, [d(p) for p in P], [d(d(p)) for p in P]]
worst = 0
for p in range(3):
    for q in range(3):
        M = np.array([[float(integ(Ds[p][i], Ds[q][k])) for k in range(N)] for i in range(N)])
        e = np.abs(M - ref.integral(p, q)[:N, :N]) / np.outer(ref.norms(p)[:N], ref.norms(q)[:N])
        worst = max(worst, e.max())
print('worst normalised difference of the integrals:', worst)
assert worst < 1e-12
