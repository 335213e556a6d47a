" C20: the real-valued formulation (utils.transfer_function_real_prob) "
from .base import *
from .sums import *
from .mest import index_array, fail
from .imp import prefilter


def formulation(v, P=None, excluded=None, ncoef=None):
    P = v.int('P', 1) if P is None else P
    Q, N = v.int('Q', 1), v.int('N', 1)
    OUT, IN = v.array('out', (P, N), C16), v.array('inp', (Q, N), C16)
    kw, given = {}, None
    if excluded == 'common':
        ii = index_array(v, 'ii', N)
        C.assume(zint(ii.shape[0]) > 0)
        kw['invalid_idx'], given = ii, lambda i: ii
    elif excluded == 'each':
        cnt, at = z3.Function('cnt', INT, INT), z3.Function('at', INT, INT, INT)

        def given(i):
            C.assume(cnt(zint(i)) >= 0)

            def get(k):
                x = at(zint(i), zint(k))
                C.assume(Implies(And(zint(k) >= 0, zint(k) < cnt(zint(i))), And(x >= 0, x < N)))
                return x
            a = Arr((cnt(zint(i)),), get, I8)
            a.birth, a.inp = 0, True
            return a
        kw['invalid_idx'] = SeqV(P, given)
    calls = []

    def contract(it, fn, args, kwargs):
        d = bound(fn, args, kwargs)
        calls.append(d)
        if C.branch(z3.Bool('fails')):
            fail(it)
        zf = z3.Function('real.z', INT, INT, REAL)
        z = Arr((P, 2 * Q), lambda i, j: zf(zint(i), zint(j)), F8)
        rn, rat = z3.Function('rej.n', INT, INT), z3.Function('rej.at', INT, INT, INT)

        def rej(i):
            C.assume(rn(zint(i)) >= 0)

            def get(k):
                x = rat(zint(i), zint(k))
                C.assume(Implies(And(zint(k) >= 0, zint(k) < rn(zint(i))), And(x >= 0, x < 2 * N)))
                return x
            return Arr((rn(zint(i)),), get, I8)
        contract.z, contract.iv = z, rej
        return (z, SeqV(P, rej) if not isinstance(P, int) else seq_of([rej(i) for i in range(P)]))
    v.interp.contracts['mestimator.transfer_function'] = contract
    w = (UFn(z3.Int('w'), None),)
    opt = v.real('option')
    st, r = v.attempt('utils.transfer_function_real_prob', OUT, IN, w, option=opt, **kw)
    if st == 'raise':
        v.prove('only failures of the estimation', z3.Bool('fails'))
        return
    v.expect('one estimation', len(calls) == 1)
    d = calls[0]
    v.prove('weights passed', z3.BoolVal(same_weights(d['weights'], w)))
    v.prove('options passed', z3.BoolVal('option' in d['**'] and z3.is_true(z3.simplify(zreal(d['**']['option']) == opt))
                                         and len(d['**']) == 1))
    A_, B_ = A.asarray(d['inputs']), seq_of(d['outputs'])
    v.prove('real inputs', z3.BoolVal(A_.dtype.kind != 'complex'))
    v.prove('two real inputs per input, two real samples per sample', And(zint(A_.shape[0]) == 2 * Q, zint(A_.shape[1]) == 2 * N))
    v.prove('one real output per output', cmp('==', B_.n, P))
    z, iv = A.asarray(r[0]), seq_of(r[1])
    v.prove('one coefficient per output and input', And(zint(z.shape[0]) == zint(P), zint(z.shape[1]) == Q))
    v.prove('one list of rejected samples per output', cmp('==', iv.n, P))

    def one(i):
        row = A.asarray(B_.get(i))
        v.prove('two samples of an output per sample', zint(row.shape[0]) == 2 * N)

        def sample(n):
            n = zint(n)
            o = V.xnum(OUT.get(i, n))
            return And(zreal(row.get(2 * n)) == o.re, zreal(row.get(2 * n + 1)) == o.im)
        v.forall('the real samples are the parts of the output', N, sample)

        def fit(q):
            # contribution of an input to the fit of the two real samples: that of the complex fit
            def f(n):
                n, qq = zint(n), zint(q)
                zq, x = V.xnum(z.get(i, qq)), V.xnum(IN.get(qq, n))
                nz = contract.z
                c = [zreal(nz.get(i, 2 * qq)) * zreal(A_.get(2 * qq, 2 * n + s))
                     + zreal(nz.get(i, 2 * qq + 1)) * zreal(A_.get(2 * qq + 1, 2 * n + s)) for s in (0, 1)]
                return And(c[0] == zq.re * x.re - zq.im * x.im, c[1] == zq.re * x.im + zq.im * x.re)
            v.forall('contribution of an input to the two samples: product by the complex transfer function', N, f)
            return True
        v.forall('input', Q, fit)

        # indices
        if given is not None:
            g, e = given(i), A.asarray(seq_of(d['invalid_idx']).get(i))
            k = C.fresh('k', INT)
            in_g = lambda x: V.as_formula(lambda: V.seq_contains(A.asarray(g).iter_seq(), x))
            v.prove('two excluded positions per excluded sample', zint(e.shape[0]) == 2 * zint(g.shape[0]))
            v.forall('positions of the pair of each excluded sample', g.shape[0], lambda k: And(
                zint(e.get(2 * zint(k))) == 2 * zint(g.get(k)), zint(e.get(2 * zint(k) + 1)) == 2 * zint(g.get(k)) + 1))
        else:
            x = d['invalid_idx']
            if x is not None:
                v.prove('nothing excluded', lambda: Or(cmp('==', seq_of(x).n, 0), cmp('==', A.asarray(seq_of(x).get(i)).shape[0], 0)))
        w_, t = contract.iv(i), A.asarray(iv.get(i))
        half = SeqV(w_.shape[0], lambda k: V.floordiv(w_.get(k), 2))
        u = V.sorted_distinct(half)
        v.prove('each sample with a rejected part is listed once', zint(t.shape[0]) == zint(u.n))
        v.forall('rejected samples, in order', u.n, lambda k: zint(t.get(k)) == zint(u.get(k)))
        return True
    v.forall('output', P, one)
    v.frame()
    v.reached()


def same_weights(a, b):
    a = tuple(seq_of(a).list()) if not isinstance(a, tuple) else a
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


for ex in (None, 'common', 'each'):
    case('C20 C10', 'utils.transfer_function_real_prob', 'formulation%s' % (', excluded: %s' % ex if ex else ''))(
        lambda v, ex=ex: formulation(v, excluded=ex))
