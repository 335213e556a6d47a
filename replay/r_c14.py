" C14: rejected indices refer to the original samples "
import numpy as np
from .core import scenario, Skip, expect_raise
from .tfgen import cplx, problem, invalid
from razorback.mestimator import transfer_function, merge_invalid_indices
from razorback.errors import NonConvergence


class Script:
    """ weight function removing scripted samples, recognised by their original position

    the original position of each sample is its (real) first input
    """
    def __init__(self, reject, eps, g, late=False):
        self.reject, self.eps, self.g, self.late = reject, eps, g, late
        self.seen = None

    def __call__(self, it, residual, e, b, invalid_idx):
        pos = np.round(b[:, 0].real).astype(int)
        self.seen = pos
        w = np.ones(len(e))
        bad = np.isin(pos, sorted(self.reject))
        if self.late and it == 0:
            return w
        w[bad] = self.g.choice([0., self.eps / 2], size=bad.sum())
        return w


@scenario('C14', 'any sequence of steps', 300)
def steps(t):
    r, g = t.rng, t.np
    n, q = r.randint(12, 60), r.randint(1, 3)
    b = np.vstack([np.arange(n) + 0j, cplx(g, n)])
    e = cplx(g, q, n)
    eps = r.choice([1e-14, 1e-3])
    p = 2
    arg, iv = invalid(r, n, q, p)
    nsteps = r.randint(1, 4)
    rej = [set(r.sample(range(n), r.randint(0, 3))) for _ in range(nsteps)]
    if max(len(v) for v in iv) + sum(map(len, rej)) > n - 6:
        raise Skip
    kinds = [r.random() < .75 for _ in range(nsteps)]
    late = r.random() < .5
    w = [Script(x, eps, g, late) if k else None for x, k in zip(rej, kinds)]
    if not kinds[0]:
        pass
    else:
        w = [None] + w
    t.note((n, q, repr(arg)[:80], rej, kinds))
    inp = dict(n=n, invalid_idx=arg, rejected=rej, kinds=kinds, eps=eps)
    z, ids = transfer_function(e, b, w, invalid_idx=arg, eps=eps)
    t.check(len(ids) == q and z.shape == (q, p), 'shape of the result', **inp)
    for i in range(q):
        exp = set(map(int, iv[i]))
        for x, k in zip(rej, kinds):
            if k:
                exp |= x
        got = np.asarray(ids[i])
        t.check(got.ndim == 1 and list(got) == sorted(exp), 'rejected indices of output %d' % i, got=got, expected=sorted(exp), **inp)
    # samples used by each step: those of the last output are seen
    prev = set(map(int, iv[-1]))
    for f in w:
        if f is None:
            continue
        t.check(list(f.seen) == sorted(set(range(n)) - prev), 'samples used by a step', got=f.seen, removed=prev, **inp)
        prev |= f.reject
    # the estimate of the last step over the samples not removed before
    last = w[-1]
    for i in range(q):
        removed = set(map(int, iv[i]))
        for x, k in list(zip(rej, kinds)):
            if k:
                removed |= x
        keep = np.array(sorted(set(range(n)) - removed))
        ex = np.linalg.lstsq(b.T[keep], e[i][keep], rcond=None)[0]
        t.check(np.allclose(z[i], ex, rtol=1e-4, atol=1e-2 * (eps > 1e-9) + 1e-7 * np.abs(ex).max()), 'estimate of output %d' % i, got=z[i], expected=ex, **inp)


@scenario('C14', 'merging the indices of successive steps', 300)
def merge(t):
    r = t.rng
    n = r.randint(1, 40)
    left = list(range(n))
    l_iv, removed = [], set()
    for _ in range(r.randint(0, 5)):
        k = r.randint(0, min(len(left), r.choice([0, 2, 10])))
        pos = sorted(r.sample(range(len(left)), k))
        removed |= {left[x] for x in pos}
        left = [x for j, x in enumerate(left) if j not in pos]
        l_iv.append(np.array(pos, int) if r.random() < .8 else list(pos))
    t.note((n, [list(x) for x in l_iv]))
    got = merge_invalid_indices(l_iv)
    t.check(list(got) == sorted(removed), 'merged indices', steps=l_iv, got=got, expected=sorted(removed))


@scenario('C14', 'every sample removed', 60)
def none_left(t):
    r, g = t.rng, t.np
    n, q = r.randint(3, 20), r.randint(1, 2)
    b = np.vstack([np.arange(n) + 0j, cplx(g, n)])
    e = cplx(g, q, n)
    allidx = list(range(n))
    k = r.choice(['given', 'given per output', 'later', 'partial'])
    t.note((n, q, k))
    if k == 'given':
        f = lambda: transfer_function(e, b, (None,), invalid_idx=np.array(allidx))
    elif k == 'given per output':
        iv = [np.empty(0, int)] * q
        iv[r.randrange(q)] = np.array(allidx)
        f = lambda: transfer_function(e, b, (None,), invalid_idx=iv)
    else:
        ones = lambda it, res, e, b, ii: np.zeros(len(e)) if it else np.ones(len(e))

        class Zero:
            def __call__(self, it, res, e, b, ii):
                return np.full(len(e), 1e-3)
        # all weights below eps: every sample is rejected after this step
        f = lambda: transfer_function(e, b, [None, Zero(), None], eps=1e-2)
    t.check(expect_raise(f, ValueError), 'no ValueError when every sample is removed', kind=k)


@scenario('C14', 'one list or one per output', 80)
def forms(t):
    r, g = t.rng, t.np
    e, b, z = problem(r, g, q=r.randint(1, 3))
    n, q, p = e.shape[1], e.shape[0], b.shape[0]
    v = np.array(sorted(r.sample(range(n), r.randint(1, 4))))
    t.note((n, q, list(v)))
    ref = transfer_function(e, b, (None,), invalid_idx=[v] * q)
    for arg in (v, list(map(int, v)), tuple(map(int, v)), [list(v)] * q):
        got = transfer_function(e, b, (None,), invalid_idx=arg)
        t.check(np.array_equal(got[0], ref[0]) and all(list(x) == list(v) for x in got[1]), 'invalid indices given once or per output differ', arg=arg)
    t.check(expect_raise(lambda: transfer_function(e, b, (None,), invalid_idx=[v] * (q + 1))), 'wrong number of lists accepted')
