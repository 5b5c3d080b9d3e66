"""Symbolic helpers for small exact linear algebra (oracles) and logarithm sums."""
import itertools
from fractions import Fraction as F
from . import term as tm
from .term import ZERO, ONE


def det(A):
    n = len(A)
    if n == 0:
        return ONE
    if n == 1:
        return A[0][0]
    s = ZERO
    for j in range(n):
        s = s + tm.scale(A[0][j] * det([r[:j] + r[j + 1:] for r in A[1:]]), (-1) ** j)
    return s


def adj(A):
    n = len(A)
    return [[tm.scale(det([r[:i] + r[i + 1:] for k, r in enumerate(A) if k != j]), (-1) ** (i + j)) for j in range(n)] for i in range(n)]


def matmul(A, B):
    return [[sum((A[i][k] * B[k][j] for k in range(len(B))), ZERO) for j in range(len(B[0]))] for i in range(len(A))]


def transpose(A):
    return [list(r) for r in zip(*A)]


def spd(name, n):
    """All symmetric positive definite matrices: L D L^T with D > 0.  Returns (matrix, constraints, names of free vars)."""
    D = [tm.var("%s_d%d" % (name, i)) for i in range(n)]
    L = [[ONE if i == j else (tm.var("%s_l%d%d" % (name, i, j)) if j < i else ZERO) for j in range(n)] for i in range(n)]
    A = [[sum((L[i][k] * D[k] * L[j][k] for k in range(min(i, j) + 1)), ZERO) for j in range(n)] for i in range(n)]
    return A, [tm.gt(d, ZERO) for d in D], D


def logsum(t):
    """t = rest + sum k_i log(x_i): (rest, [(k_i, x_i)]); None when a logarithm occurs elsewhere."""
    parts, c = tm._lin_parts(t)
    rest, logs = tm.const(c), []
    for b, k in parts:
        if b.op == "fn" and b.val == "log":
            logs.append((k, b.args[0]))
        else:
            if any(x.op == "fn" and x.val == "log" for x in tm.topo([b])):
                return None
            rest = rest + tm.scale(b, k)
    return rest, logs


def logprod(logs, unit):
    """prod x_i^(k_i/unit), or None when an exponent is not an integer"""
    r = ONE
    for k, x in logs:
        e = F(k) / F(unit)
        if e.denominator != 1:
            return None
        r = r * tm.powi(x, int(e))
    return r
