" mestimator.py: C13 (estimates), C14 (rejected indices) "
from .base import *
from .sums import *


def conj(x):
    return lib.conj(x)


def orthogonal(v, e, b, w, z, N, Q, tag=''):
    """ the residual e - b.z, weighted by w (None: 1), is orthogonal to every column of b

    e, b, w, z: element functions
    """
    one = (lambda n: 1) if w is None else w

    def column(q):
        cw = lambda n: mul(conj(b(n, q)), one(n))
        solved(q)
        rhs = S(N, lambda n: mul(cw(n), e(n)))
        term = lambda n, p: mul(mul(cw(n), b(n, p)), z(p))
        gram = lambda p: S(N, lambda n: mul(cw(n), b(n, p)))
        # sum over p of gram[q, p] z[p] = rhs[q]
        normal = S(Q, lambda p: mul(gram(p), z(p)))
        v.lemma(tag + 'normal equations', xeq(normal, rhs))
        # rewritten as a sum over the samples
        ext(v, tag + 'gram times solution', Q, lambda p: mul(gram(p), z(p)), lambda p: S(N, lambda n: term(n, p)),
            lambda p: (scale(N, z(p), lambda n: mul(cw(n), b(n, p))),
                       ext(v, tag + 'factor', N, lambda n: mul(z(p), mul(cw(n), b(n, p))), lambda n: term(n, p))))
        swap(N, Q, term)
        res = lambda n: mul(cw(n), sub(e(n), S(Q, lambda p: mul(b(n, p), z(p)))))
        ext(v, tag + 'weighted residual', N, res, lambda n: sub(mul(cw(n), e(n)), S(Q, lambda p: term(n, p))),
            lambda n: (scale(Q, cw(n), lambda p: mul(b(n, p), z(p))),
                       ext(v, tag + 'factor of the residual', Q, lambda p: mul(cw(n), mul(b(n, p), z(p))), lambda p: term(n, p))))
        linear(N, lambda n: mul(cw(n), e(n)), lambda n: S(Q, lambda p: term(n, p)))
        return xeq(S(N, res), V.XNum(0, 0))
    v.forall(tag + 'weighted residual orthogonal to every input', Q, column)


def wlse(v, weighted):
    N, Q = v.int('N', 1), v.int('Q', 1)
    x, y = v.array('x', (N,), C16), v.array('y', (N, Q), C16)
    w = v.array('w', (N,), F8) if weighted else None
    st, z = v.attempt('mestimator.wlse', x, y, *[w] if weighted else [])
    if st == 'raise':
        v.prove('only singular systems are rejected', z3.BoolVal(z == 'LinAlgError'))
        return
    z = A.asarray(z)
    v.prove('one coefficient per input', And(z3.BoolVal(z.ndim == 1), zint(z.shape[0]) == Q))
    orthogonal(v, x.get, y.get, w.get if weighted else None, z.get, N, Q)
    v.frame()
    v.reached()


for weighted in (False, True):
    case('C13 C10', 'mestimator.wlse', 'weighted' if weighted else 'no weight')(lambda v, weighted=weighted: wlse(v, weighted))


def index_array(v, name, n, m=None):
    " positions in [0, n) "
    m = v.int(name + '.len', 0) if m is None else m
    f = z3.Function(name, INT, INT)
    C.forall_fact(zint(m), lambda k: And(f(k) >= 0, f(k) < zint(n)))

    def get(k):
        k = zint(k)
        C.assume(Implies(And(k >= 0, k < zint(m)), And(f(k) >= 0, f(k) < zint(n))))
        return f(k)
    a = Arr((m,), get, I8)
    a.birth, a.inp = 0, True
    return a


def least_squares(v, excluded):
    N, Q = v.int('N', 1), v.int('Q', 1)
    e, b = v.array('e', (N,), C16), v.array('b', (N, Q), C16)
    ii = index_array(v, 'ii', N) if excluded else None
    z0 = v.array('z0', (Q,), C16)
    st, r = v.attempt('mestimator.m_estimate', e, b, z0, None, ii)
    if st == 'raise':
        v.prove('only singular systems are rejected', z3.BoolVal(r == 'LinAlgError'))
        return
    z, out = seq_of(r).list()
    z = A.asarray(z)
    w = None
    if excluded:
        inside = A.membership(ii.shape[0], ii.get)
        # the specification: 1 for the samples which are not excluded
        w = lambda n: If(inside(n), z3.RealVal(0), z3.RealVal(1))
    v.prove('one coefficient per input', And(z3.BoolVal(z.ndim == 1), zint(z.shape[0]) == Q))
    if excluded and C.branch(zint(ii.shape[0]) == 0):
        w = None
    orthogonal(v, e.get, b.get, w, z.get, N, Q)
    out = A.asarray(out)
    v.prove('rejected: the excluded ones (number)', zint(out.shape[0]) == (zint(ii.shape[0]) if excluded else 0))
    if excluded:
        v.forall('rejected: the excluded ones', ii.shape[0], lambda k: zint(out.get(k)) == zint(ii.get(k)))
    v.frame()
    v.reached()


for x in (False, True):
    case('C13 C10', 'mestimator.m_estimate', 'least squares, %s' % ('excluded samples' if x else 'all samples'))(
        lambda v, x=x: least_squares(v, x))


def weighted_step(v, kind):
    N, Q = v.int('N', 1), v.int('Q', 1)
    e, b = v.array('e', (N,), C16), v.array('b', (N, Q), C16)
    ii = index_array(v, 'ii', N)
    z0 = v.array('z0', (Q,), C16)
    tol, eps, maxit = v.real('tol'), v.real('eps'), v.int('maxit', 0)
    C.assume(And(eps >= 0, tol > 0))
    calls = []
    v.interp.numpy_scalars = True

    def weight_func(it, r, e_, b_, iv):
        r, iv = A.asarray(r), A.asarray(iv)
        n = len(calls)
        inside = A.membership(iv.shape[0], iv.get)
        W = z3.Function(C._name('W'), INT, REAL)
        calls.append((it, Arr(r.shape, r.fn, r.dtype), iv, inside, W))
        v.prove('the weight function gets the data of the step', And(same(e_, e), same(b_, b)))
        if kind == 'none':
            return None
        return Arr((N,), lambda i: W(zint(i)), F8)

    def fit(z):
        return lambda n: sub(e.get(n), S(Q, lambda p: mul(b.get(n, p), z.get(p))))

    def power(res, w):
        " absolute weighted residual square sum "
        one = (lambda n: 1) if w is None else w
        return V.absv(S(N, lambda n: mul(conj(res(n)), mul(one(n), res(n)))))

    def weights():
        " those of the last call (0 for the samples already rejected) "
        it, res, iv, inside, W = calls[-1]
        return None if kind == 'none' else lambda n: If(inside(n), z3.RealVal(0), W(zint(n)))

    def fresh_state(env, k, before):
        if not {'residual', 'invalid_idx', 'z', 'wresid'} <= set(before):
            raise Unsupported('loop of m_estimate with other variables')
        nm = C._name('it')
        z = v.array(nm + '.z', (Q,), C16)
        z.birth, z.inp = C.tick(), False
        f = fit(z)
        env.vars['z'] = z
        env.vars['residual'] = Arr((N,), f, C16, scoped=True)
        iv = env.vars['invalid_idx'] = index_array(v, nm + '.ii', N)
        iv.birth, iv.inp = C.tick(), False
        if C.branch(zint(k) > 0):
            Wp = z3.Function(nm + '.W', INT, REAL)
            w = power(f, (lambda n: Wp(zint(n))) if kind != 'none' else None)
            env.vars['wresid'] = w
            v.ghost = w
        else:
            env.vars['wresid'] = None
            v.ghost = None

    def inv(env, k):
        z, r, iv = A.asarray(env.vars['z']), A.asarray(env.vars['residual']), A.asarray(env.vars['invalid_idx'])
        yield 'one coefficient per input', And(z3.BoolVal(z.ndim == 1), zint(z.shape[0]) == Q)
        yield 'one residual per sample', And(z3.BoolVal(r.ndim == 1), zint(r.shape[0]) == N)
        j = C.fresh('n', INT)
        C.assume(And(j >= 0, j < N))
        yield 'residual = e - b.z', xeq(r.get(j), fit(z)(j))
        m = C.fresh('m', INT)
        C.assume(And(m >= 0, m < zint(iv.shape[0])))
        yield 'rejected indices in range', And(zint(iv.get(m)) >= 0, zint(iv.get(m)) < N)
        w = env.vars['wresid']
        if w is None:
            yield 'no previous weighted residual at the first iteration', asz(cmp('==', k, 0))
        else:
            w = V.xnum(A.asarray(w).get() if isinstance(w, Arr) else w)
            yield 'weighted residual square sum of the last iteration', xeq(w, power(fit(z), weights()))
    invariant(v, 'mestimator.m_estimate', 0, fresh_state, inv)
    st, r = v.attempt('mestimator.m_estimate', e, b, z0, I.Builtin('weight_func', weight_func), ii, tol, maxit, eps)
    if st == 'raise':
        v.prove('rejected when not converged or singular', z3.BoolVal(r in ('LinAlgError', 'NonConvergence')))
        if r == 'NonConvergence':
            v.reached('no convergence')
        return
    z, out = seq_of(r).list()
    z, out = A.asarray(z), A.asarray(out)
    if len(calls) != 1:
        # a result without any call in the last iteration
        v.prove('the weights come from the last call of the weight function', z3.BoolVal(False))
        return
    it, res, iv, inside, W = calls[0]
    v.prove('one coefficient per input', And(z3.BoolVal(z.ndim == 1), zint(z.shape[0]) == Q))
    w = weights()
    last = zreal(V.xnum(power(fit(z), w)).re)
    v.prove('not returned before two iterations', z3.BoolVal(v.ghost is not None))
    if v.ghost is None:
        return
    prev = zreal(V.xnum(v.ghost).re)
    v.lemma('the previous weighted residual is not zero', prev > 0)
    q = (last - prev) / prev
    v.pure('relative change', lambda l, p, q, t: Implies(And(p > 0, q == (l - p) / p, q < t, -q < t),
                                                         And(l - p < t * p, p - l < t * p)), 'rrrr')(last, prev, q, tol)
    v.prove('returned only when the relative change is below the tolerance', And(last - prev < tol * prev, prev - last < tol * prev))
    orthogonal(v, e.get, b.get, w, z.get, N, Q)
    if kind != 'none':
        # rejected: the samples of zero weight, in order
        n1 = C.fresh('n', INT)
        C.assume(And(n1 >= 0, n1 < N))
        zero = lambda n: And(w(n) <= eps, -w(n) <= eps)
        j, k = C.fresh('j', INT), C.fresh('k', INT)
        C.assume(And(0 <= j, j < zint(out.shape[0])))
        v.prove('every rejected index has a zero weight', And(zint(out.get(j)) >= 0, zint(out.get(j)) < N, zero(zint(out.get(j)))))
        C.assume(And(j < k, k < zint(out.shape[0])))
        v.prove('sorted, without repetition', zint(out.get(j)) < zint(out.get(k)))
        sel = A.membership(out.shape[0], out.get)
        v.prove('every zero weight is rejected', Implies(zero(n1), sel(n1)))
    v.frame()
    v.reached()


for kind in ('weights', 'none'):
    case('C13 C14 C10', 'mestimator.m_estimate', 'weight function (%s)' % kind, reach=('normal end', 'no convergence'))(
        lambda v, kind=kind: weighted_step(v, kind))


# ---------------------------------------------------------------------------
# chain of steps
# ---------------------------------------------------------------------------
def kept(N, ii):
    " positions of the samples which are not in ii, in increasing order "
    if ii is None or A.dim_eq(A.asarray(ii).shape[0], 0):
        return N, lambda j: zint(j)
    ii = A.asarray(ii)
    inside = A.membership(ii.shape[0], ii.get)
    s = V.seq_filter(SeqV(N, lambda k: k), lambda k: Not(inside(k)))
    return s.n, lambda j: zint(s.get(j))


def fail(it):
    " a failure of m_estimate "
    if C.branch(C.fresh('diverges', BOOL)):
        raise PyRaise(it.call(it.resolve('errors.NonConvergence'), ['not converged'], {}))
    V.py_raise('LinAlgError', 'singular matrix')


def chain(v, first):
    N, Q, m = v.int('N', 1), v.int('Q', 1), v.int('steps', 0)
    e, b = v.array('e', (N,), C16), v.array('b', (N, Q), C16)
    z0 = v.array('z0', (Q,), C16)
    i0 = {'none': lambda: None, 'empty': lambda: (), 'array': lambda: index_array(v, 'ii', N)}[first]()
    WFS = z3.Function('wf', INT, INT)
    wfs = SeqV(m, lambda k: UFn(WFS(zint(k)), None))
    calls = []
    cur = []

    def m_estimate(it, f, args, kwargs):
        " contract of m_estimate: some z, and rejected indices in increasing order "
        d = bound(f, args, kwargs)
        e_, b_ = A.asarray(d['e']), A.asarray(d['b'])
        n = e_.shape[0]
        if C.branch(C.fresh('fails', BOOL)):
            fail(it)
        nm = C._name('call')
        z = v.array(nm + '.z', (Q,), C16)
        ii = index_array(v, nm + '.ii', n)
        for a in (z, ii):
            a.birth, a.inp = C.tick(), False
        calls.append((d, z, ii))
        return (z, ii)
    v.interp.contracts['mestimator.m_estimate'] = m_estimate

    def fresh_state(env, k, before):
        if not {'e', 'b', 'z', 'ii'} <= set(before) | set(env.vars):
            raise Unsupported('loop of chain_m_estimate with other variables')
        nm = C._name('st')
        n = v.int(nm + '.n', 0)
        P = z3.Function(nm + '.P', INT, INT)

        def pos(j):
            j = zint(j)
            C.assume(Implies(And(j >= 0, j < n), And(P(j) >= 0, P(j) < N)))
            return P(j)
        C.assume(n <= N)
        C.forall_fact(n, lambda j: And(P(j) >= 0, P(j) < N))
        if C.branch(zint(k) == 0):
            n, pos = N, lambda j: zint(j)
            ii, z = i0, z0
        else:
            ii, z = index_array(v, nm + '.ii', n), v.array(nm + '.z', (Q,), C16)
            for a in (z, ii):
                a.birth, a.inp = C.tick(), False
        cur[:] = [n, pos, ii, z, k]
        env.vars['e'] = Arr((n,), lambda j: e.get(pos(j)), C16)
        env.vars['b'] = Arr((n, Q), lambda j, q: b.get(pos(j), q), C16)
        env.vars['z'], env.vars['ii'] = z, ii
        y = env.yields
        y.loop_state = True

    def inv(env, k):
        e_, b_ = A.asarray(env.vars['e']), A.asarray(env.vars['b'])
        z, ii = env.vars['z'], env.vars['ii']
        if not cur:
            yield 'the data of the caller', And(same(e_, e), same(b_, b), same(z, z0), same(ii, i0))
            return
        n, pos, ii0, _, k0 = cur
        n2, keep = kept(n, ii0)
        pos2 = lambda j: pos(keep(j))
        yield 'one call of m_estimate per step', z3.BoolVal(len(calls) == 1)
        if len(calls) != 1:
            return
        d, zc, ic = calls[0]
        yield 'the estimate of the step', And(same(z, zc), same(ii, ic))
        yield 'as many samples as not removed', And(zint(e_.shape[0]) == zint(n2), zint(b_.shape[0]) == zint(n2), zint(b_.shape[1]) == Q)
        j, q = C.fresh('j', INT), C.fresh('q', INT)
        C.assume(And(j >= 0, j < zint(n2), q >= 0, q < Q))
        yield 'samples not removed, in order', And(xeq(e_.get(j), e.get(pos2(j))), xeq(b_.get(j, q), b.get(pos2(j), q)))
        # the arguments of the step
        yield 'the step works on these samples', And(same(d['e'], e_), same(d['b'], b_))
        yield 'starting from the previous estimate', same(d.get('z0'), cur[3])
        wf = d.get('weight_func')
        yield 'the weight function of the step', z3.BoolVal(False) if wf is None else wf.term == WFS(zint(k0))
        no = d.get('invalid_idx')
        yield 'nothing else excluded', z3.BoolVal(no is None) if no is None else zint(A.asarray(no).shape[0]) == 0
        o = dict(d, **d['**'])
        yield 'the options', And(*[z3.BoolVal(False) if o.get(x) is None else same(o[x], y) for x, y in
                                   (('tol', tol), ('maxit', maxit))])
        yield 'some sample', zint(e_.shape[0]) > 0
        last = env.yields.seq
        x = seq_of(last.get(sub(last.n, 1))).list()
        yield 'the step is reported', And(z3.BoolVal(len(x) == 2), *[same(p, q) for p, q in zip(x, (z, ii))])
    tol, maxit = v.real('tol'), v.int('maxit', 0)
    invariant(v, 'mestimator.chain_m_estimate', 0, fresh_state, inv)
    st, r = v.attempt('mestimator.chain_m_estimate', e, b, wfs, z0, i0, tol=tol, maxit=maxit)
    if st == 'raise':
        if r == 'ValueError':
            n, pos, ii0, _, k0 = cur
            n2, keep = kept(n, ii0)
            v.prove('ValueError only when every sample is removed before a step', zint(n2) == 0)
            v.reached('nothing left')
        else:
            v.prove('the failure of the step', z3.BoolVal(r in ('NonConvergence', 'LinAlgError')))
        return
    x = seq_of(r.get(0)).list()
    v.prove('the starting point is reported first', And(z3.BoolVal(len(x) == 2), same(x[0], z0), same(x[1], i0)))
    v.frame()
    v.reached()


for first in ('none', 'empty', 'array'):
    case('C13 C14 C10', 'mestimator.chain_m_estimate', 'excluded first: %s' % first,
         reach=('normal end', 'nothing left'))(lambda v, first=first: chain(v, first))


# ---------------------------------------------------------------------------
# transfer_function: every output on its own
# ---------------------------------------------------------------------------
ZV = [z3.Function('chain.z.' + c, INT, INT, INT, REAL) for c in ('re', 'im')]
IVL, IVV = z3.Function('chain.nrej', INT, INT, INT), z3.Function('chain.rej', INT, INT, INT, INT)
MLEN, MVAL = z3.Function('merge.n', INT, INT), z3.Function('merge.at', INT, INT, INT)


def arg_of(x):
    " operand of an uninterpreted operation "
    if x is None:
        return []
    a = A.asarray(x)
    return [(a.shape, a.fn)]


def abstract_chain(steps, weights, opts, v):
    " contract of chain_m_estimate: a function of the data of the output "
    def f(it, fn, args, kwargs):
        d = bound(fn, args, kwargs)
        z0, ii = d.get('z0'), d.get('invalid_idx')
        e, b = A.asarray(d['e']), A.asarray(d['b'])
        v.prove('the weight functions and options are passed on', And(
            same(d.get('weightings'), weights), z3.BoolVal(set(d['**']) == set(opts)),
            *[same(d['**'][k], opts[k]) for k in opts if k in d['**']]))
        if C.branch(C.fresh('fails', BOOL)):
            fail(it)
        tok = spec_chain(e, b, z0, ii)
        out = [(z0, ii)]
        for s in range(1, steps + 1):
            out.append((zres(tok, s, b.shape[1]), rejected(tok, s)))
        return V.seq_of(out)
    return f


def spec_chain(e, b, z0, ii):
    name = 'chain%s%s' % ('' if z0 is None else '_init', '' if ii is None else '_excl')
    tok, = A.uf_op(name, arg_of(e) + arg_of(b) + arg_of(z0) + arg_of(ii), [], ['tok'], [INT])
    return tok


def zres(tok, s, Q):
    return Arr((Q,), lambda q: V.XNum(*[f(tok, s, zint(q)) for f in ZV]), C16)


def rejected(tok, s):
    C.assume(IVL(tok, s) >= 0)
    return Arr((IVL(tok, s),), lambda k: IVV(tok, s, zint(k)), I8)


def abstract_merge(it, fn, args, kwargs):
    return spec_merge(seq_of(args[0]).list())


def spec_merge(parts):
    ops = [x for p in parts for x in arg_of(p)]
    tok, = A.uf_op('merge%d' % len(parts), ops, [], ['tok'], [INT])
    C.assume(MLEN(tok) >= 0)
    return Arr((MLEN(tok),), lambda k: MVAL(tok, zint(k)), I8)


def tf(v, steps, excl, init):
    P, Q, N = v.int('P', 1), v.int('Q', 1), v.int('N', 1)
    out, inp = v.array('out', (P, N), C16), v.array('inp', (Q, N), C16)
    weights = V.MList([UFn(z3.Int('w%d' % i), None) for i in range(steps)])
    tol = v.real('tol')
    opts = dict(tol=tol)
    v.interp.contracts['mestimator.chain_m_estimate'] = abstract_chain(steps, weights, opts, v)
    v.interp.contracts['mestimator.merge_invalid_indices'] = abstract_merge
    kw = {}
    ii_of = lambda i: ()
    if excl == 'common':
        ii = index_array(v, 'ii', N)
        kw['invalid_idx'] = ii
        ii_of = lambda i: ii
    elif excl == 'each':
        cnt, at = z3.Function('cnt', INT, INT), z3.Function('at', INT, INT, INT)

        def ii_of(i):
            C.assume(cnt(zint(i)) >= 0)
            a = Arr((cnt(zint(i)),), lambda k: at(zint(i), zint(k)), I8)
            a.birth, a.inp = 0, True
            return a
        kw['invalid_idx'] = SeqV(P, ii_of)
    elif excl == 'empty':
        kw['invalid_idx'] = V.MList([])
    z_of = lambda i: None
    if init:
        z0 = v.array('z0', (P, Q), C16)
        kw['init'] = z0
        z_of = lambda i: Arr((Q,), lambda q: z0.get(i, q), C16)
    st, r = v.attempt('mestimator.transfer_function', out, inp, weights, **kw, **opts)
    if st == 'raise':
        v.prove('only failures of the estimation', z3.BoolVal(r in ('LinAlgError', 'NonConvergence')))
        return
    tr, ivs = seq_of(r).list()
    tr, ivs = A.asarray(tr), V.seq_of(ivs)
    v.prove('one rejected list per output', zint(ivs.n) == P)
    if steps:
        v.prove('one row per output, one column per input', And(z3.BoolVal(tr.ndim == 2), zint(tr.shape[0]) == P, zint(tr.shape[1]) == Q))

    def one(i):
        b = Arr((N, Q), lambda n, q: inp.get(q, n), C16)
        e = Arr((N,), lambda n: out.get(i, n), C16)
        ii = ii_of(i)
        if excl == 'common' and C.branch(zint(ii.shape[0]) == 0):
            ii = ()
        tok = spec_chain(e, b, z_of(i), ii)
        if steps:
            z = zres(tok, steps, Q)
            q = C.fresh('q', INT)
            C.assume(And(q >= 0, q < Q))
            v.prove('row i is the last estimate of output i alone', xeq(tr.get(i, q), z.get(q)))
        m = spec_merge([ii] + [rejected(tok, s) for s in range(1, steps + 1)])
        got = A.asarray(ivs.get(i))
        v.prove('rejected: those of output i alone (number)', zint(got.shape[0]) == zint(m.shape[0]))
        k = C.fresh('k', INT)
        C.assume(And(k >= 0, k < zint(m.shape[0])))
        v.prove('rejected: those of output i alone', zint(got.get(k)) == zint(m.get(k)))
        return True
    v.forall('output', P, one)
    v.frame()
    v.reached()


for steps in (0, 1, 2, 3):
    for excl in ('none', 'empty', 'common', 'each'):
        for init in (False, True):
            if steps == 0 and init:
                continue
            case('C13 C14 C10', 'mestimator.transfer_function', '%d steps, excluded: %s%s' % (
                steps, excl, ', initial guess' if init else ''))(
                lambda v, steps=steps, excl=excl, init=init: tf(v, steps, excl, init))


def gram_of(b, w, N):
    return lambda q, p: S(N, lambda n: mul(mul(conj(b(n, q)), w(n)), b(n, p)))


def recover(v, how):
    " a noise free linear relation is recovered, whatever the values of the excluded samples "
    N, Q = v.int('N', 1), v.int('Q', 1)
    b, t = v.array('b', (N, Q), C16), v.array('t', (Q,), C16)
    noise = v.array('noise', (N,), C16)
    w = lambda n: z3.RealVal(1)
    ii = None
    exact = lambda n: S(Q, lambda p: mul(b.get(n, p), t.get(p)))
    val = exact
    if how == 'excluded':
        ii = index_array(v, 'ii', N)
        C.assume(zint(ii.shape[0]) > 0)
        inside = A.membership(ii.shape[0], ii.get)
        w = lambda n: If(inside(n), z3.RealVal(0), z3.RealVal(1))

        def val(n):
            x, y = exact(n), V.xnum(noise.get(n))
            return V.XNum(If(inside(zint(n)), zreal(y.re), zreal(x.re)), If(inside(zint(n)), zreal(y.im), zreal(x.im)))
    elif how == 'weights':
        W = v.array('w', (N,), F8)
        w = W.get
    e = Arr((N,), val, C16, scoped=True)
    e.birth, e.inp = 0, True
    if how == 'weights':
        st, r = v.attempt('mestimator.wlse', e, b, W)
        z = r
    else:
        st, r = v.attempt('mestimator.m_estimate', e, b, None, None, ii)
        z = None if st == 'raise' else seq_of(r).get(0)
    if st == 'raise':
        v.prove('only singular systems are rejected', z3.BoolVal(r == 'LinAlgError'))
        return
    z = A.asarray(z)
    if not v.interp.solves:
        raise Unsupported('no linear system solved')
    op, a, rhs, sol = v.interp.solves[-1]
    cw = lambda q: lambda n: mul(conj(b.get(n, q)), w(n))
    term = lambda q: lambda n, p: mul(mul(cw(q)(n), b.get(n, p)), t.get(p))

    def row(q):
        # gram[q, p] t[p] summed over p, as a sum over the samples
        ext(v, 'gram times truth', Q, lambda p: mul(a.get(q, p), t.get(p)), lambda p: S(N, lambda n: term(q)(n, p)),
            lambda p: (ext(v, 'gram matrix', N, lambda n: mul(mul(conj(b.get(n, q)), w(n)), b.get(n, p)),
                           lambda n: mul(cw(q)(n), b.get(n, p))),
                       v.lemma('gram matrix element', xeq(a.get(q, p), S(N, lambda n: mul(cw(q)(n), b.get(n, p))))),
                       scale(N, t.get(p), lambda n: mul(cw(q)(n), b.get(n, p))),
                       ext(v, 'factor', N, lambda n: mul(t.get(p), mul(cw(q)(n), b.get(n, p))), lambda n: term(q)(n, p))))
        swap(N, Q, term(q))
        ext(v, 'weighted outputs', N, lambda n: mul(cw(q)(n), val(n)), lambda n: S(Q, lambda p: term(q)(n, p)),
            lambda n: (scale(Q, cw(q)(n), lambda p: mul(b.get(n, p), t.get(p))),
                       ext(v, 'factor of the outputs', Q, lambda p: mul(cw(q)(n), mul(b.get(n, p), t.get(p))),
                           lambda p: term(q)(n, p)),
                       excluded_term(n, q)))
        v.lemma('right hand side', xeq(rhs.get(q), S(N, lambda n: mul(cw(q)(n), val(n)))))

    def excluded_term(n, q):
        if how != 'excluded':
            return
        zero = ext(v, 'excluded sample', Q, lambda p: If3(inside(zint(n)), term(q)(n, p)), lambda p: If3(inside(zint(n)), 0))
        scale(Q, 0, lambda p: term(q)(n, p))
        ext(v, 'excluded sample: every term is zero', Q, lambda p: If3(inside(zint(n)), term(q)(n, p), mul(0, term(q)(n, p))),
            lambda p: mul(0, term(q)(n, p)))
    inst = unique(v, 'the truth solves the system', (op, a, rhs, sol), t.get, row)
    q = C.fresh('q', INT)
    C.assume(And(q >= 0, q < Q))
    inst(q)
    v.prove('the exact relation is recovered', xeq(z.get(q), t.get(q)))
    v.reached()


def If3(c, x, y=0):
    x, y = V.xnum(x), V.xnum(y)
    return V.XNum(If(c, zreal(x.re), zreal(y.re)), If(c, zreal(x.im), zreal(y.im)))


for how in ('all', 'weights', 'excluded'):
    case('C13', 'mestimator.wlse' if how == 'weights' else 'mestimator.m_estimate', 'noise-free relation, %s' % how)(
        lambda v, how=how: recover(v, how))


@case('C13', 'mestimator.m_estimate', 'least squares: excluded samples have no influence')
def _(v):
    N, Q = v.int('N', 1), v.int('Q', 1)
    e1, b1, e2, b2 = [v.array(nm, sh, C16) for nm, sh in (('e', (N,)), ('b', (N, Q)), ('other.e', (N,)), ('other.b', (N, Q)))]
    ii = index_array(v, 'ii', N)
    C.assume(zint(ii.shape[0]) > 0)
    inside = A.membership(ii.shape[0], ii.get)
    pick = lambda x, y: lambda n, *q: If3(inside(zint(n)), y.get(n, *q), x.get(n, *q))
    e = Arr((N,), pick(e1, e2), C16)
    b = Arr((N, Q), pick(b1, b2), C16)
    res = []
    for x, y in ((e1, b1), (e, b)):
        st, r = v.attempt('mestimator.m_estimate', x, y, None, None, ii)
        if st == 'raise':
            raise PathEnd()
        res.append(A.asarray(seq_of(r).get(0)))
    if len(v.interp.solves) < 2:
        raise Unsupported('linear systems')
    (_, a1, r1, s1), (_, a2, r2, s2) = v.interp.solves[-2:]
    w = lambda n: If(inside(n), z3.RealVal(0), z3.RealVal(1))
    g = lambda bb: lambda q, p: lambda n: mul(mul(conj(bb.get(n, q)), w(zint(n))), bb.get(n, p))
    h = lambda bb, ee: lambda q: lambda n: mul(mul(conj(bb.get(n, q)), w(zint(n))), ee.get(n))

    def row(q):
        solved(q)
        ext(v, 'same systems', Q, lambda p: mul(a2.get(q, p), s1.get(p)), lambda p: mul(a1.get(q, p), s1.get(p)), lambda p: (
            ext(v, 'same terms', N, g(b)(q, p), g(b1)(q, p)),
            v.lemma('matrix', xeq(a1.get(q, p), S(N, g(b1)(q, p)))),
            v.lemma('other matrix', xeq(a2.get(q, p), S(N, g(b)(q, p))))))
        ext(v, 'same right hand sides', N, h(b, e)(q), h(b1, e1)(q))
        v.lemma('right hand side', xeq(r1.get(q), S(N, h(b1, e1)(q))))
        v.lemma('other right hand side', xeq(r2.get(q), S(N, h(b, e)(q))))
    inst = unique(v, 'the first estimate solves the second system', (None, a2, r2, s2), s1.get, row)
    q = C.fresh('q', INT)
    C.assume(And(q >= 0, q < Q))
    inst(q)
    v.prove('the same estimate', xeq(res[0].get(q), res[1].get(q)))
    v.reached()


# ---------------------------------------------------------------------------
# C14: positions in the original samples
# ---------------------------------------------------------------------------
def filters_of(pred):
    " the filters (n, count, SEL, RANK) met with this predicate "
    k0 = z3.Int('filter.k')
    want = z3.simplify(pred(k0))
    out = []
    for n, k, phi, (m, SEL, RANK), _ in C.filters:
        p = z3.simplify(z3.substitute(phi, (k, k0)))
        if p.eq(want) or C.valid(p == want, 1000):
            out.append((n, m, SEL, RANK, lambda x, phi=phi, k=k: z3.substitute(phi, (k, x))))
    return out


def induction(v, label, P, hint=None):
    " for all d >= 0: P(d), by (strong) induction; returns whether it was proved "
    d, x = C.fresh('d', INT), z3.Int('ind.x')
    ok = []

    def step():
        C.assume(d >= 0)
        C.assume(z3.ForAll([x], Implies(And(0 <= x, x < d), P(x))))
        C.assume(Implies(d >= 1, P(d - 1)))         # instance of the previous one
        if hint:
            hint(d)
        ok.append(C.prove('%s: induction step' % label, P(d)))
    C.explore(step)
    if all(ok):
        return True
    return False


def prefix(v, f, g):
    " two enumerations in increasing order of the same set, up to different bounds, agree "
    n1, m1, S1, R1, _ = f
    n2, m2, S2, R2, _ = g
    if m1 is m2 or (z3.is_expr(m1) and z3.is_expr(m2) and m1.eq(m2)):
        return
    s1, s2 = S1(z3.Int('pre.j')), S2(z3.Int('pre.j'))
    f1, f2 = s1.decl(), s2.decl()
    a1, a2 = [c for c in s1.children()][:-1], [c for c in s2.children()][:-1]
    P = lambda j: Implies(And(j >= 0, j < m1, j < m2), f1(*a1, j) == f2(*a2, j))
    if induction(v, 'positions do not depend on the number of samples', P,
                 lambda d: (S1(d), S2(d), R2(S1(d)), R1(S2(d)), S1(R2(S1(d))), S2(R1(S2(d))), S2(R2(S1(d))), S1(R1(S2(d))))):
        j = z3.Int('pre.j')
        C.assume(z3.ForAll([j], P(j), patterns=[f1(*a1, j)]))
        C.assume(z3.ForAll([j], P(j), patterns=[f2(*a2, j)]))


def nothing_removed(v, g):
    " the enumeration of all positions is the identity "
    n, m, SEL, RANK, phi = g
    if phi is None:
        return
    s = SEL(z3.Int('pre.j'))
    f, a = s.decl(), list(s.children())[:-1]
    P = lambda j: Implies(And(j >= 0, j < zint(n)), And(j < zint(m), f(*a, j) == j))
    if induction(v, 'every position is kept', P, lambda d: (SEL(d), RANK(d), SEL(RANK(d)), RANK(SEL(d)))):
        j = z3.Int('pre.j')
        C.assume(z3.ForAll([j], P(j), patterns=[f(*a, j)]))


def tail(v, f, M):
    " at least n - M positions are kept when all those from M on are "
    n, m, SEL, RANK, phi = f
    r = RANK(z3.Int('tail.d'))
    g, a = r.decl(), list(r.children())[:-1]
    P = lambda d: Implies(And(d >= 0, M + d < zint(n)), g(*a, M + d) >= d)
    if induction(v, 'positions beyond the rejected ones are kept', P,
                 lambda d: (RANK(M + d), RANK(M + d - 1), SEL(RANK(M + d)), SEL(RANK(M + d - 1)))):
        C.assume(P(zint(n) - 1 - M))
        RANK(zint(n) - 1)
        v.lemma('number of positions kept', Implies(And(zint(n) > M), m >= zint(n) - M))


def bounded_index(v, name, n):
    " positions in [0, n), with a ghost bound: 1 + the largest one (0 when there is none) "
    a = index_array(v, name, n)
    m, M, w = zint(a.shape[0]), v.int(name + '.bound', 0), v.int(name + '.last')
    C.forall_fact(m, lambda k: zint(a.get(k)) < M)
    C.assume(If(m == 0, M == 0, And(w >= 0, w < m, zint(a.get(w)) == M - 1)))
    return a, M


def entry_of(sel):
    " the filter behind a selection "
    for n, k, phi, (m, SEL, RANK), _ in reversed(C.filters):
        if z3.is_expr(sel.n) and z3.is_expr(m) and sel.n.eq(m):
            return n, m, SEL, RANK, lambda x, phi=phi, k=k: z3.substitute(phi, (k, zint(x)))
    return None


def merge(v, L):
    N = v.int('N', 1)
    n, pos = N, lambda j: zint(j)
    lists, maps, spec = [], [], []
    for k in range(L):
        l, M = bounded_index(v, 'l%d' % k, n)
        inside = A.membership(l.shape[0], l.get)
        s = V.seq_filter(SeqV(n, lambda k: k), lambda k: Not(inside(k)))
        lists.append((l, M, inside))
        maps.append(pos)
        e = entry_of(s) or (n, n, lambda j: zint(j), lambda j: zint(j), None)
        spec.append(e)
        n, pos = s.n, (lambda pos, s: lambda j: pos(zint(s.get(j))))(pos, s)
    code, final = {}, []

    def hook(a, ia, sel):
        if not any(ia is l for l, _, _ in lists):
            final[:] = [A.membership(ia.shape[0], ia.get), ia]
        for k, (l, M, inside) in enumerate(lists):
            if ia is l and k not in code:
                f = entry_of(sel)
                if f is not None:
                    code[k] = f
                    tail(v, f, M)
                    prefix(v, f, spec[k])
    v.interp.delete_hook = hook
    st, r = v.attempt('mestimator.merge_invalid_indices', V.MList([l for l, _, _ in lists]))
    if st == 'raise':
        v.prove('no error', z3.BoolVal(False))
        return
    for k, (l, M, inside) in enumerate(lists):
        if k not in code:
            if not C.valid(zint(l.shape[0]) == 0):
                raise Unsupported('removal without numpy.delete')
            nothing_removed(v, spec[k])
    R = A.asarray(r)
    cnt = zint(R.shape[0])

    def sorted_():
        j, k = C.fresh('j', INT), C.fresh('k', INT)
        C.assume(And(0 <= j, j < k, k < cnt))
        return zint(R.get(j)) < zint(R.get(k))
    v.prove('sorted, without repetition', sorted_)
    ident = (None, None, lambda j: zint(j), lambda j: zint(j), None)

    def every():
        j = C.fresh('j', INT)
        C.assume(And(0 <= j, j < cnt))
        x = y = zint(R.get(j))
        chain = []
        for k, (l, M, inside) in enumerate(lists):
            # y: the rank of x among the samples left before step k
            if C.branch(inside(y)):
                for i, (yy, y2, f, g) in enumerate(chain):
                    v.lemma('same position', g[2](y2) == yy)
                return maps[k](y) == x
            f, g = code.get(k, ident), spec[k]
            y2 = f[3](y)
            v.lemma('kept before step %d' % (k + 1), And(f[2](y2) == y, y2 >= 0))
            g[2](y2)
            chain.append((y, y2, f, g))
            y = y2
        if final:
            final[0].at(y)
            v.lemma('kept by all the steps', zint(final[1].get(y)) == x)
        return z3.BoolVal(False)
    v.prove('every reported index is the original position of a rejected sample', every)
    for k, (l, M, inside) in enumerate(lists):
        def reported():
            t = C.fresh('t', INT)
            C.assume(And(0 <= t, t < zint(l.shape[0])))
            y = zint(l.get(t))
            p = maps[k](y)
            for i in range(k - 1, -1, -1):
                f, g = code.get(i, ident), spec[i]
                y = g[2](y)
                f[2](y), f[3](y), g[3](y)
            sel = A.membership(cnt, R.get)
            if final:
                final[0](p)
            e = next((e for e in [entry_of(SeqV(R.shape[0], None))] if e), None)
            if e:
                sel.at(e[3](p)), e[2](e[3](p))
            return sel(p)
        v.prove('every sample rejected at step %d is reported' % k, reported)
    v.reached()


for L in (1, 2, 3):
    case('C14', 'mestimator.merge_invalid_indices', '%d lists' % L, budget=60 if L < 3 else 240)(lambda v, L=L: merge(v, L))
