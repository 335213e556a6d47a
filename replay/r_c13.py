" C13: estimates solve the weighted normal equations "
import numpy as np
from .core import scenario, Skip, expect_raise
from .tfgen import cplx, problem, invalid
from razorback.mestimator import transfer_function, m_estimate, wlse, chain_m_estimate
from razorback.errors import NonConvergence
from razorback.weights import Huber, Thomson, mest_weights, bi_weights


class Spy:
    " records the weights given by a weight function "
    def __init__(self, f):
        self.f, self.log = f, []

    def __call__(self, it, residual, e, b, invalid_idx):
        w = self.f(it, residual, e, b, invalid_idx)
        self.log.append((it, len(e), None if w is None else w))     # the array itself: as used
        self.e, self.b = e, b
        return w


def orth(b, w, e, z):
    " size of B^H w residual relative to its terms "
    x = b.conj().T @ (w * (e - b @ z))
    ref = np.abs(b).T @ (w * (np.abs(e) + np.abs(b) @ np.abs(z))) + 1e-300
    return np.max(np.abs(x) / ref) if len(x) else 0.


def close(a, b, tol=1e-6):
    return np.shape(a) == np.shape(b) and np.all(np.abs(np.asarray(a) - b) <= tol * (1e-300 + np.max(np.abs(b))))


@scenario('C13', 'weighted least squares', 150)
def ls(t):
    r, g = t.rng, t.np
    e, b, z = problem(r, g)
    n = b.shape[1]
    w = r.choice([None, np.abs(g.normal(size=n)), (g.uniform(size=n) > .3) * 1.])
    if w is not None and (w > 0).sum() <= b.shape[0] + 1:
        raise Skip
    t.note((b.shape, e.shape, w is None))
    x = e[0] if r.random() < .7 else e.T
    got = wlse(x, b.T, w)
    ww = np.ones(n) if w is None else w
    exp = np.linalg.lstsq(np.sqrt(ww)[:, None] * b.T, (np.sqrt(ww) * x.T).T, rcond=None)[0]
    t.check(close(got, exp), 'wlse is not the weighted least squares solution', got=got, expected=exp)
    got = transfer_function(e, b, (None,))[0]
    exp = np.linalg.lstsq(b.T, e.T, rcond=None)[0].T
    t.check(close(got, exp), 'transfer_function is not the least squares solution', got=got, expected=exp)


@scenario('C13', 'excluded samples have no influence', 150)
def excluded(t):
    r, g = t.rng, t.np
    w = r.choice([(None,), [None, Huber()], mest_weights])
    e, b, z = problem(r, g, noise=None if len(w) == 1 else r.choice([.01, .3, 2.]))
    q, n = e.shape
    p = b.shape[0]
    arg, iv = invalid(r, n, q, p)
    t.note((n, p, q, repr(arg)[:60]))
    try:
        got = transfer_function(e, b, w, invalid_idx=arg)[0]
    except NonConvergence:
        raise Skip
    for i in range(q):
        keep = np.ones(n, bool)
        keep[iv[i]] = False
        exp = transfer_function(e[i:i + 1, keep], b[:, keep], w)[0][0]
        t.check(close(got[i], exp), 'output %d: excluded samples matter, or outputs are not independent' % i, invalid_idx=arg, got=got[i], expected=exp)
        if len(w) == 1:
            exp = np.linalg.lstsq(b.T[keep], e[i][keep], rcond=None)[0]
            t.check(close(got[i], exp), 'output %d is not the least squares solution over the samples kept' % i, invalid_idx=arg)
    e2, b2 = e.copy(), b.copy()
    for i in range(q):
        e2[i, iv[i]] = 1e3 * cplx(g, len(iv[i]))
    common = sorted(set.intersection(*[set(v.tolist()) for v in iv]))
    b2[:, common] = 1e3 * cplx(g, p, len(common))
    got2 = transfer_function(e2, b2, w, invalid_idx=arg)[0]
    t.check(close(got2, got, 1e-8), 'values of excluded samples change the result', invalid_idx=arg)


@scenario('C13', 'm_estimate with excluded samples', 80)
def mest(t):
    r, g = t.rng, t.np
    e, b, z = problem(r, g, q=1)
    n, p = b.shape[1], b.shape[0]
    iv = sorted(r.sample(range(n), r.randint(1, 5)))
    keep = np.ones(n, bool)
    keep[iv] = False
    t.note((n, p, iv))
    zz, ii = m_estimate(e[0], b.T, None, None, iv)
    exp = np.linalg.lstsq(b.T[keep], e[0][keep], rcond=None)[0]
    t.check(close(zz, exp), 'm_estimate(None) with excluded samples', got=zz, expected=exp)
    t.check(list(ii) == iv, 'm_estimate(None): indices', got=ii, invalid_idx=iv)


@scenario('C13', 'residual orthogonal under the last weights', 150)
def orthogonal(t):
    r, g = t.rng, t.np
    e, b, z = problem(r, g, noise=r.choice([.05, .3, 1.]))
    q, n = e.shape
    p = b.shape[0]
    arg, iv = invalid(r, n, q, p)
    kind = r.choice(['huber', 'thomson', 'chain', 'bi', 'custom', 'none'])
    f = {'huber': [None, Huber()], 'thomson': [None, Thomson()], 'chain': [None, Huber(), Thomson()],
         'bi': list(bi_weights(.1, 2, p)), 'custom': [None, lambda it, res, e, b, ii: 1 / (1 + np.abs(res))],
         'none': [None, lambda it, res, e, b, ii: None]}[kind]
    t.note((n, p, q, kind, repr(arg)[:60]))
    for i in range(q):
        spies = [x if x is None else Spy(x) for x in f]
        keep = np.ones(n, bool)
        keep[iv[i]] = False
        try:
            zz, ids = transfer_function(e[i:i + 1], b, spies, invalid_idx=iv[i] if len(iv[i]) else None)
        except (NonConvergence, ValueError, np.linalg.LinAlgError):
            continue
        last = spies[-1]
        w = last.log[-1][2]
        ee, bb = last.e, last.b
        w = np.ones(len(ee)) if w is None else w
        t.check(len(w) == len(ee) == len(bb), 'weights of the wrong length', kind=kind)
        ok = np.isfinite(w)
        t.check(ok.all(), 'weights not finite', kind=kind)
        o = orth(bb, w, ee, zz[0])
        t.check(o < 1e-8, 'residual not orthogonal to the inputs', kind=kind, value=o)


@scenario('C13', 'independent outputs, exact relations', 120)
def indep(t):
    r, g = t.rng, t.np
    w = r.choice([(None,), [None, Huber()], mest_weights])
    e, b, z = problem(r, g, q=r.randint(2, 3), noise=None if len(w) == 1 else r.choice([.01, .3, 2.]))
    t.note((e.shape, b.shape))
    try:
        full = transfer_function(e, b, w)
    except NonConvergence:
        raise Skip
    e2 = e.copy()
    e2[1:] = cplx(g, *e2[1:].shape)
    try:
        other = transfer_function(e2, b, w)
        t.check(np.array_equal(full[0][0], other[0][0]) and np.array_equal(full[1][0], other[1][0]), 'an output depends on another one')
    except NonConvergence:
        pass
    perm = list(range(e.shape[0]))
    r.shuffle(perm)
    got = transfer_function(e[perm], b, w)[0]
    t.check(close(got, full[0][perm], 1e-12), 'outputs not independent of their order')
    e0, b0, z0 = problem(r, g, noise=0., outliers=0)
    arg, iv = invalid(r, e0.shape[1], e0.shape[0], b0.shape[0])
    got = transfer_function(e0, b0, (None,), invalid_idx=arg)[0]
    t.check(close(got, z0, 1e-9), 'noise-free relation not recovered', got=got, expected=z0)


@scenario('C13', 'non convergence', 60)
def conv(t):
    r, g = t.rng, t.np
    e, b, z = problem(r, g, q=1, noise=.3)
    k = [0]
    period = r.choice([2, 3])

    def osc(it, res, e, b, ii):
        " never converges "
        k[0] += 1
        w = np.ones(len(e)) * (1. + 5 * (it % period))
        return w
    maxit = r.randint(1, 30)
    t.note((b.shape, maxit, period))
    t.check(expect_raise(lambda: transfer_function(e, b, [None, osc], maxit=maxit), NonConvergence), 'no NonConvergence', maxit=maxit)
    t.check(k[0] <= maxit, 'more than maxit iterations', maxit=maxit, done=k[0])
    # an estimate is returned only after the change of the last iteration is below tol
    tol = r.choice([1e-2, 1e-4, .3])
    spy = Spy(Huber())
    try:
        zz, _ = transfer_function(e, b, [None, spy], tol=tol, maxit=50)
    except NonConvergence:
        return
    t.check(len(spy.log) >= 2, 'returned without comparing two iterations')
    w1, w0 = spy.log[-1][2], spy.log[-2][2]
    B, x = b.T, e[0]
    q = []
    for w in (w0, w1):
        zz_ = np.linalg.lstsq(np.sqrt(w)[:, None] * B, np.sqrt(w) * x, rcond=None)[0]
        q.append(np.sum(w * np.abs(x - B @ zz_) ** 2))
    t.check(abs(q[1] - q[0]) <= tol * abs(q[0]) * (1 + 1e-6), 'returned before convergence', change=abs(q[1] - q[0]) / q[0], tol=tol)
