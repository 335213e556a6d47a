" C22: the coherence prefilter (prefilters.py) "
from .base import *
from .sums import *

conj = lib.conj


def make(v, **kw):
    " the filter, through its constructor "
    cls = v.func('prefilters.CoefficientOfDeterminationFilter')
    o = v.interp.call(cls, [], kw)
    return o


def coherence(K, x, y, L, Q):
    " contract of coeff_determination: a value for each block, depending on the samples of the block "
    def fn(k):
        # x(k, l), y(k, l, q)
        k = zint(k)
        r, = A.uf_op('coherence', [((L,), lambda l: x(k, l)), ((L, Q), lambda l, q: y(k, l, q))], [])
        return r
    return fn


def blocks(v, size=None):
    N, Q = v.int('N', 1), v.int('Q', 1)
    S_ = v.int('size', 1) if size is None else size
    lo, hi = v.real('lo'), v.real('hi')
    E, B = v.array('e', (N,), C16), v.array('b', (N, Q), C16)
    o = make(v, cod_min=lo, cod_max=hi, size=S_)
    M = v.int('blocks', 0)
    C.assume(And(zint(S_) * M <= N, N < zint(S_) * M + zint(S_), M == N / zint(S_)))
    C.assume(And(M <= N))
    C.assume(If(M >= 1, zint(S_) * (M - 1) >= 0, True))
    calls = []

    def contract(it, fn, args, kwargs):
        d = bound(fn, args, kwargs)
        x, y = A.asarray(d['x']), A.asarray(d['y'])
        calls.append((x, y))
        v.prove('as many blocks of the output and of the inputs', And(zint(x.shape[0]) == zint(y.shape[0]), zint(x.shape[1]) == zint(y.shape[1])))
        f = coherence(x.shape[0], x.get, y.get, x.shape[1], y.shape[2])
        return Arr((x.shape[0],), f, F8)
    v.interp.contracts['prefilters.CoefficientOfDeterminationFilter.coeff_determination'] = contract
    st, r = v.attempt(v.attr(o, 'value'), E, B)
    if st == 'raise':
        v.prove('no error', z3.BoolVal(False))
        return
    r = A.asarray(r)
    v.prove('one value per sample', And(z3.BoolVal(r.ndim == 1), zint(r.shape[0]) == N))
    last = zint(S_) * If(M >= 1, M - 1, 0)          # start of the last block

    def value(n):
        n = zint(n)
        if C.branch(n < last):
            k = n / zint(S_)
            first, length = k * zint(S_), S_
        else:
            first, length = last, N - last
        c, = A.uf_op('coherence', [((length,), lambda l: E.get(first + zint(l))),
                                   ((length, Q), lambda l, q: B.get(first + zint(l), q))], [])
        return zreal(r.get(n)) == zreal(c)
    v.forall('value of the block of the sample', N, value)
    v.frame()
    v.reached()


case('C22 C10', 'prefilters.CoefficientOfDeterminationFilter.value', 'blocks')(blocks)
for s in (1, 2, 3):
    case('C22 C10', 'prefilters.CoefficientOfDeterminationFilter.value', 'blocks of %d' % s)(lambda v, s=s: blocks(v, s))


def sq(x):
    x = V.xnum(x)
    return add(mul(x.re, x.re), mul(x.im, x.im))


def power(v, label, n, f):
    " sum of the square modulus, equal to the sum of abs()**2 (element by element) "
    return zreal(ext(v, label, n, lambda l: mul(V.absv(f(l)), V.absv(f(l))), lambda l: sq(f(l))).re)


def coefficient(v):
    from .mest import orthogonal
    K, L, Q = v.int('K', 0), v.int('L', 1), v.int('Q', 1)
    X, Y = v.array('x', (K, L), C16), v.array('y', (K, L, Q), C16)
    o = make(v, cod_min=v.real('lo'))
    C.assume(K > 0)

    def pow_out(k):
        return S(L, lambda l: sq(X.get(k, l))).re
    st, r = v.attempt(v.attr(o, 'coeff_determination'), X, Y)
    if st == 'raise':
        v.prove('only singular systems are rejected', z3.BoolVal(r == 'LinAlgError'))
        return
    r = A.asarray(r)
    v.prove('one value per block', And(z3.BoolVal(r.ndim == 1), zint(r.shape[0]) == K))
    b = [s for s in I.the().solves if s[0] == 'batch']
    v.expect('one system per block', len(b) == 1)
    _, a3, b2, z2 = b[0]

    def block(k):
        k = zint(k)
        x, y, z = (lambda l: X.get(k, l)), (lambda l, q: Y.get(k, l, q)), (lambda q: z2.get(k, q))
        I.the().solves[:] = [('solve', Arr((Q, Q), lambda i, j: a3.get(k, i, j), C16), Arr((Q,), lambda i: b2.get(k, i), C16),
                              Arr((Q,), z, C16))]
        orthogonal(v, x, y, None, z, L, Q, tag='least squares fit of the block: ')
        res = lambda l: sub(S(Q, lambda q: mul(y(l, q), z(q))), x(l))
        p1, p2 = power(v, 'power of the residual', L, res), power(v, 'power of the output', L, x)
        C.assume(p2 > 0)
        q = 1 - p1 / p2
        C.assume(p1 >= 0)
        return zreal(r.get(k)) == zreal(V.sqrt(If(q >= 0, q, 0)))
    v.forall('coherence of the block', K, block)
    v.frame()
    v.reached()


case('C22 C10', 'prefilters.CoefficientOfDeterminationFilter.coeff_determination', 'coherence')(coefficient)


def rejects(v):
    N, Q = v.int('N', 1), v.int('Q', 1)
    lo, hi = v.real('lo'), v.real('hi')
    E, B = v.array('e', (N,), C16), v.array('b', (N, Q), C16)
    o = make(v, cod_min=lo, cod_max=hi, size=v.int('size', 1))
    cod = z3.Function('cod', INT, REAL)
    calls = []

    def contract(it, fn, args, kwargs):
        d = bound(fn, args, kwargs)
        calls.append(d)
        v.prove('values of the given samples', lambda: And(same(d['e'], E), same(d['b'], B)))
        return Arr((N,), lambda n: cod(zint(n)), F8)
    v.interp.contracts['prefilters.CoefficientOfDeterminationFilter.value'] = contract
    st, r = v.attempt(o, E, B)
    if st == 'raise':
        v.prove('no error', z3.BoolVal(False))
        return
    r = A.asarray(r)
    k, n = C.fresh('k', INT), C.fresh('n', INT)
    v.prove('sample numbers', z3.BoolVal(r.ndim == 1))
    v.forall('a rejected sample is out of the range', r.shape[0], lambda k: And(
        zint(r.get(k)) >= 0, zint(r.get(k)) < N, Or(cod(zint(r.get(k))) < lo, cod(zint(r.get(k))) > hi)))
    v.forall('sorted, once', sub(r.shape[0], 1), lambda k: zint(r.get(k)) < zint(r.get(add(k, 1))))
    inside = lambda n: V.as_formula(lambda: V.seq_contains(r.iter_seq(), n))
    v.forall('every sample out of the range is rejected', N, lambda n: Implies(
        Or(cod(zint(n)) < lo, cod(zint(n)) > hi), asz(inside(n))))
    v.frame()
    v.reached()


case('C22 C10', 'prefilters.CoefficientOfDeterminationFilter.__call__', 'rejected samples')(rejects)


def scaling(v, which):
    " the coherence does not depend on the units of the output / the inputs "
    K, L, Q = 1, v.int('L', 1), v.int('Q', 1)
    X, Y = v.array('x', (K, L), C16), v.array('y', (K, L, Q), C16)
    c = V.XNum(v.real('c.re'), v.real('c.im'))
    c2 = sq(c)
    C.assume(c2 > 0)
    X2, Y2 = X, Y
    if which == 'output':
        X2 = Arr((K, L), lambda k, l: mul(c, X.get(k, l)), C16)
    else:
        Y2 = Arr((K, L, Q), lambda k, l, q: mul(c, Y.get(k, l, q)), C16)
    o = make(v, cod_min=v.real('lo'))
    got = []
    for x, y in ((X, Y), (X2, Y2)):
        st, r = v.attempt(v.attr(o, 'coeff_determination'), x, y)
        if st == 'raise':
            v.prove('only singular systems are rejected', z3.BoolVal(r == 'LinAlgError'))
            return
        got.append(A.asarray(r))
    (_, a1, b1, z1), (_, a2, b2, z2) = [s for s in I.the().solves if s[0] == 'batch']
    x, y, z = (lambda l: X.get(0, l)), (lambda l, q: Y.get(0, l, q)), (lambda q: z1.get(0, q))
    A_ = lambda a: Arr((Q, Q), lambda i, j: a.get(0, i, j), C16)
    B_ = lambda b: Arr((Q,), lambda i: b.get(0, i), C16)
    Z_ = lambda s: Arr((Q,), lambda i: s.get(0, i), C16)
    I.the().solves[:] = [('solve', A_(a1), B_(b1), Z_(z1))]
    inv = V.XNum(zreal(c.re) / c2, -zreal(c.im) / c2)
    t = (lambda q: mul(c, z(q))) if which == 'output' else (lambda q: mul(inv, z(q)))
    gram = lambda q, p: lambda l: mul(conj(y(l, q)), y(l, p))
    rhs = lambda q: lambda l: mul(conj(y(l, q)), x(l))
    # a2 = c2 a1 or a1, b2 = c b1 or conj(c) b1
    f = c if which == 'output' else conj(c)

    def row(q):
        solved(q)
        if which == 'inputs':
            hint = lambda p: (scale(L, c2, gram(q, p)),
                              ext(v, 'scaled matrix', L, lambda l: mul(conj(mul(c, y(l, q))), mul(c, y(l, p))), lambda l: mul(c2, gram(q, p)(l))),
                              v.lemma('matrix', xeq(a2.get(0, q, p), mul(c2, a1.get(0, q, p)))),
                              lemma_inv(a2.get(0, q, p), a1.get(0, q, p), z(p)))
        else:
            hint = lambda p: v.lemma('matrix', xeq(a2.get(0, q, p), a1.get(0, q, p)))
        ext(v, 'system at the scaled solution', Q, lambda p: mul(a2.get(0, q, p), t(p)), lambda p: mul(f, mul(a1.get(0, q, p), z(p))), hint)
        scale(Q, f, lambda p: mul(a1.get(0, q, p), z(p)))
        scale(L, f, rhs(q))
        ext(v, 'scaled right hand side', L, (lambda l: mul(conj(y(l, q)), mul(c, x(l)))) if which == 'output' else
            (lambda l: mul(conj(mul(c, y(l, q))), x(l))), lambda l: mul(f, rhs(q)(l)))
        v.lemma('right hand side', xeq(b2.get(0, q), mul(f, b1.get(0, q))))

    def lemma_inv(a2, a, zz):
        " (c2 a) (z conj(c) / c2) = conj(c) a z "
        def f(A1, A2, a1, a2, x, y, p, q):
            n = p * p + q * q
            return Implies(And(n > 0, A1 == n * a1, A2 == n * a2), ceq(
                cm((A1, A2), cm((p / n, -q / n), (x, y))), cm((p, -q), cm((a1, a2), (x, y)))))
        v.pure('factors', f, 'rrrrrrrr')(*parts(a2, a, zz, c))
    inst = unique(v, 'the scaled solution solves the scaled system', (None, A_(a2), B_(b2), Z_(z2)), t, row)
    fit = lambda l: S(Q, lambda q: mul(y(l, q), z(q)))
    res1 = lambda l: sub(fit(l), x(l))
    fit2 = lambda l: S(Q, lambda q: mul(Y2.get(0, l, q), z2.get(0, q)))
    res2 = lambda l: sub(fit2(l), X2.get(0, l))
    g = c if which == 'output' else 1

    def same_fit(l):
        ext(v, 'terms of the fit', Q, lambda q: mul(Y2.get(0, l, q), z2.get(0, q)), lambda q: mul(g, mul(y(l, q), z(q))), lambda q: (
            inst(q), lemma_fit(y(l, q), z2.get(0, q), z(q))))
        scale(Q, g, lambda q: mul(y(l, q), z(q)))
        lemma_res(fit2(l), fit(l), x(l))

    def lemma_fit(yy, z2, zz):
        if which == 'output':
            return
        def f(y1, y2, Z1, Z2, x, y, p, q):
            n = p * p + q * q
            return Implies(And(n > 0, ceq((Z1, Z2), cm((p / n, -q / n), (x, y)))), ceq(
                cm(cm((p, q), (y1, y2)), (Z1, Z2)), cm((y1, y2), (x, y))))
        v.pure('factors of the fit', f, 'rrrrrrrr')(*parts(yy, z2, zz, c))

    def lemma_res(F2, F, x):
        if which == 'inputs':
            return
        def f(F1, F2, f1, f2, x, y, p, q):
            s2 = lambda a: a[0] * a[0] + a[1] * a[1]
            d = lambda a, b: (a[0] - b[0], a[1] - b[1])
            return Implies(ceq((F1, F2), cm((p, q), (f1, f2))),
                           s2(d((F1, F2), cm((p, q), (x, y)))) == (p * p + q * q) * s2(d((f1, f2), (x, y))))
        v.pure('modulus of the residual', f, 'rrrrrrrr')(*parts(F2, F, x, c))
    k2 = c2 if which == 'output' else z3.RealVal(1)

    def powers(label, f2, f1, hint=None):
        p2 = power(v, label, L, f2)
        p1 = power(v, label, L, f1)
        e = ext(v, label + ': scaled', L, lambda l: sq(f2(l)), lambda l: mul(k2, sq(f1(l))), hint)
        scale(L, k2, lambda l: sq(f1(l)))
        v.lemma(label + ' is scaled', p2 == k2 * p1)
        return p1, p2
    r1, r2 = powers('power of the residual', res2, res1, lambda l: same_fit(l))
    o1, o2 = powers('power of the output', lambda l: X2.get(0, l), x)
    C.assume(And(o1 > 0, r1 >= 0))
    v.pure('ratio', lambda r, o, k: Implies(And(k > 0, o > 0), (k * r) / (k * o) == r / o), 'rrr')(r1, o1, zreal(k2))
    v.lemma('same ratio', r2 / o2 == r1 / o1)
    v.prove('same coherence', zreal(got[0].get(0)) == zreal(got[1].get(0)))
    v.reached()


def parts(*xs):
    return [zreal(u) for x in xs for u in (V.xnum(x).re, V.xnum(x).im)]


def ceq(a, b):
    return And(a[0] == b[0], a[1] == b[1])


def cm(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


for which in ('output', 'inputs'):
    case('C22', 'prefilters.CoefficientOfDeterminationFilter.coeff_determination', 'scaling of the %s' % which)(
        lambda v, which=which: scaling(v, which))
