""" algebra of finite sums, used by the arguments on estimates

Library facts (true of every finite sum; recorded as assumptions): linearity, exchange of two sums.
Extensionality is proved element by element each time.
"""
from .base import *


def S(n, fn):
    return V.xnum(A.sum_red(n, fn))


def xeq(a, b):
    a, b = V.xnum(a), V.xnum(b)
    return And(zreal(a.re) == zreal(b.re), zreal(a.im) == zreal(b.im))


def ext(v, label, n, f, g, hint=None):
    " f(k) = g(k) for all k (proved), hence the sums are equal; returns the sum "
    ok = []

    def one(k):
        if hint:
            hint(k)
        a, b = f(k), g(k)
        ok.append(C.prove(label, xeq(a, b)))
        return True
    v.forall(label, n, one)
    a, b = S(n, f), S(n, g)
    if all(ok):
        C.assume(xeq(a, b))
    return b


def linear(n, f, g):
    " sum(f - g) = sum(f) - sum(g) "
    C.assumptions.add('finite sums: sum(f - g) = sum(f) - sum(g)')
    C.assume(xeq(S(n, lambda k: sub(f(k), g(k))), sub(S(n, f), S(n, g))))


def scale(n, c, f):
    " sum(c f) = c sum(f) "
    C.assumptions.add('finite sums: sum(c f) = c sum(f)')
    C.assume(xeq(S(n, lambda k: mul(c, f(k))), mul(c, S(n, f))))


def swap(n, m, f):
    " sum over n of sum over m = sum over m of sum over n "
    C.assumptions.add('finite sums: order of summation can be exchanged')
    C.assume(xeq(S(n, lambda k: S(m, lambda p: f(k, p))), S(m, lambda p: S(n, lambda k: f(k, p)))))


def solved(q):
    " instance q of the library contract of the solves met so far: sum over p of a[q, p] r[p] = b[q] "
    C.assumptions.add('linalg.solve(a, b) returns r such that a.dot(r) = b, or raises')
    for op, a, b, r in I.the().solves:
        if op == 'solve' and b.ndim == 1:
            C.assume(xeq(S(a.shape[1], lambda p: mul(a.get(q, p), r.get(p))), b.get(q)))


def unique(v, label, solve, t, hint=None):
    """ library contract: the system solved is not singular, so t is its solution when a.dot(t) = b

    solve: (op, a, b, r); proves a.dot(t) = b and returns a function giving r[q] = t[q] """
    C.assumptions.add('linalg.solve(a, b) returns the only r such that a.dot(r) = b, or raises')
    op, a, b, r = solve
    ok = []

    def row(q):
        if hint:
            hint(q)
        ok.append(C.prove(label, xeq(S(a.shape[1], lambda p: mul(a.get(q, p), t(p))), b.get(q))))
        return True
    v.forall(label, a.shape[0], row)

    def instance(q):
        if all(ok):
            C.assume(xeq(r.get(q), t(q)))
    return instance
