" mestimator.transfer_error: C21 "
from .base import *


def terr(v, cplx, kind):
    P, Q, N = v.int('P', 1), v.int('Q', 1), v.int('N', 1)
    d = C16 if cplx else F8
    out, inp = v.array('out', (P, N), d), v.array('inp', (Q, N), d)
    tr = v.array('T', (P, Q), d)
    cnt = z3.Function('cnt', INT, INT)
    idx = z3.Function('idx', INT, INT, INT)
    ii = z3.Int('ii')
    C.assume(z3.ForAll([ii], Implies(And(0 <= ii, ii < P), And(cnt(ii) >= 0, cnt(ii) < N)), patterns=[cnt(ii)]))
    C.assume(N > Q)

    def iv(i):
        C.assume(And(cnt(zint(i)) >= 0, cnt(zint(i)) < N))
        if kind == 'arrays':
            a = Arr((cnt(zint(i)),), lambda k: idx(zint(i), zint(k)), I8)
        else:
            a = SeqV(cnt(zint(i)), lambda k: idx(zint(i), zint(k)))
            return a
        a.birth, a.inp = 0, True
        return a
    ivs = SeqV(P, iv)
    st, r = v.attempt('mestimator.transfer_error', out, inp, tr, ivs)
    if st == 'raise':
        v.prove('rejected only when the inputs are linearly dependent', z3.BoolVal(r == 'LinAlgError'))
        return
    r = A.asarray(r)
    v.prove('one error per output and input', And(z3.BoolVal(r.ndim == 2), zint(r.shape[0]) == P, zint(r.shape[1]) == Q))
    gram = Arr((Q, Q), lambda a, b: A.sum_red(N, lambda k: mul(inp.get(a, k), lib.conj(inp.get(b, k)))), d)
    try:
        inv = lib.linear_op('inv', gram, None)
    except PyRaise:
        raise PathEnd()

    def elem(i, j):
        def res(k):
            x = V.xnum(sub(out.get(i, k), A.sum_red(Q, lambda q: mul(tr.get(i, q), inp.get(q, k)))))
            return add(mul(x.re, x.re), mul(x.im, x.im))
        norm = V.sqrt(A.sum_red(N, res))
        dj = inv.get(j, j)
        n, p = z3.ToReal(N), z3.ToReal(Q)
        got = V.xnum(r.get(i, j))
        C.assume(z3.ToReal(N - cnt(i)) >= 1)
        want = mul(div(mul(norm, n), V.sqrt(n - p), False), V.sqrt(V.absv(dj)))
        want = div(want, n - z3.ToReal(cnt(i)), False)
        v.prove('a real number', And(zreal(got.im) == 0, bnot(got.nan)))
        C.assume(zreal(V.sqrt(n - p)) > 0)
        v.prove('error = |residual| n / sqrt(n - p) / kept * sqrt(diagonal)', zreal(got.re) == zreal(want))
        return True
    v.forall2('error', P, Q, elem)
    v.frame()
    v.reached()


for cplx in (True, False):
    for kind in ('arrays', 'tuples'):
        case('C21', 'mestimator.transfer_error', '%s, rejected indices as %s' % ('complex' if cplx else 'real', kind))(
            lambda v, cplx=cplx, kind=kind: terr(v, cplx, kind))
