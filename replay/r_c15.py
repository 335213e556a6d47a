" C15: robust weights "
import numpy as np
from .core import scenario, Skip, expect_raise
from .tfgen import cplx
from razorback.weights import Huber, Thomson, BoundedInfluenceStep, bi_weights, mest_weights, least_square

SIGMA = 0.44845


def scale(res, excluded=()):
    " robust scale, written from its definition "
    x = np.abs(np.delete(res, list(excluded)))
    med = np.median(x)
    return np.median(np.abs(x - med)) / SIGMA


def residuals(r, g):
    n = r.randint(5, 60)
    kind = r.choice(['normal', 'cauchy', 'complex', 'outliers', 'zeros'])
    if kind == 'normal':
        x = g.normal(size=n)
    elif kind == 'cauchy':
        x = g.standard_cauchy(size=n) + 1j * g.standard_cauchy(size=n)
    else:
        x = cplx(g, n)
    if kind == 'outliers':
        x[::3] *= 1e4
    if kind == 'zeros':
        x[r.randrange(n)] = 0
    x = x * r.choice([1., 1e-6, 1e8, 1e-14, 1e-40, 1e-140, 1e60, 1e140])
    iv = sorted(r.sample(range(n), r.randint(0, n // 4))) if r.random() < .5 else []
    return x, iv, kind


def call(w, res, iv, it=0, e=None, b=None):
    x = res.copy()
    x[iv] = np.nan
    n = len(x)
    with np.errstate(all='ignore'):
        return w(it, x, np.zeros(n) if e is None else e, np.ones((n, 1)) if b is None else b, np.array(iv, int))


def keepers(n, iv):
    k = np.ones(n, bool)
    k[iv] = False
    return k


@scenario('C15', 'Huber', 250)
def huber(t):
    r, g = t.rng, t.np
    x, iv, kind = residuals(r, g)
    alpha = r.choice([1.5, 1., .5, 3., r.uniform(.1, 5)])
    w = Huber() if alpha == 1.5 and r.random() < .5 else Huber(alpha)
    t.note((len(x), iv, kind, alpha, float(np.abs(x).sum())))
    inp = dict(residual=x, excluded=iv, alpha=alpha)
    s = scale(x, iv)
    if not s > 0:
        raise Skip
    got = call(w, x, iv)
    k = keepers(len(x), iv)
    a = np.abs(x)
    with np.errstate(all='ignore'):
        exp = np.where(a <= alpha * s, 1., alpha * s / a)
    t.check(got.shape == x.shape, 'shape', **inp)
    t.check(np.all(np.isfinite(got[k])) and np.all(got[k] >= 0) and np.all(got[k] <= 1), 'weights not in [0, 1]', got=got, **inp)
    t.check(np.allclose(got[k], exp[k], rtol=1e-9, atol=0), 'Huber weights', got=got[k], expected=exp[k], **inp)


@scenario('C15', 'Thomson', 250)
def thomson(t):
    r, g = t.rng, t.np
    x, iv, kind = residuals(r, g)
    xi = r.choice([None, None, 2., 4., r.uniform(.5, 6)])
    w = Thomson(xi)
    t.note((len(x), iv, kind, xi, float(np.abs(x).sum())))
    inp = dict(residual=x, excluded=iv, xi=xi)
    s = scale(x, iv)
    if not s > 0:
        raise Skip
    got = call(w, x, iv)
    k = keepers(len(x), iv)
    c = xi if xi is not None else np.sqrt(2 * np.log(2 * len(x)))
    u = np.abs(x) / s
    with np.errstate(all='ignore'):
        exp = np.exp(np.exp(-c ** 2) - np.exp(c * (u - c)))
    t.check(got.shape == x.shape, 'shape', **inp)
    t.check(np.all(np.isfinite(got[k])) and np.all(got[k] >= 0) and np.all(got[k] <= 1 + 1e-12), 'weights not in [0, 1]', got=got, **inp)
    t.check(np.allclose(got[k], exp[k], rtol=1e-7, atol=1e-300), 'Thomson weights', got=got[k], expected=exp[k], **inp)
    o = np.argsort(np.abs(x[k]))
    t.check(np.all(np.diff(got[k][o]) <= 1e-12), 'weights not decreasing', got=got, **inp)
    z = np.abs(x[k]) == 0
    t.check(np.allclose(got[k][z], 1., rtol=1e-9), 'weight of a zero residual', got=got, **inp)


def design(r, g):
    n, p = r.randint(12, 60), r.randint(1, 3)
    b = cplx(g, n, p)
    if r.random() < .5:
        b[:3] *= 3
    return n, p, b


@scenario('C15', 'scale free', 200)
def scalefree(t):
    r, g = t.rng, t.np
    n, p, b = design(r, g)
    x = cplx(g, n)
    x[:2] *= 20
    iv = sorted(r.sample(range(n), r.randint(0, 3)))
    c = r.choice([2., -1., 1j, 1e5, 1e-7, complex(3, -4), 1e-15j, 1e-17, 1e-80, 1e80])
    w = r.choice([Huber(), Thomson(), Thomson(3.), Huber(.7), BoundedInfluenceStep(Huber(), .05, 3.), BoundedInfluenceStep(Thomson(), .05, 3.)])
    t.note((n, p, str(w), repr(c), iv))
    k = keepers(n, iv)
    w0 = call(w, x, iv, 0, b=b)
    if (w0[k] > 1e-3).sum() < 2 * p + 3:
        raise Skip
    a0 = call(w, x, iv, 0, b=b)
    try:
        a1 = call(w, .5 * x, iv, 1, b=b)
    except np.linalg.LinAlgError:
        raise Skip
    b0 = call(w, c * x, iv, 0, b=b)
    b1 = call(w, .5 * c * x, iv, 1, b=b)
    inp = dict(weight=str(w), factor=c, excluded=iv)
    t.check(np.allclose(a0[k], b0[k], rtol=1e-6, atol=1e-12), 'weights change with the scale of the residuals', **inp)
    t.check(np.allclose(a1[k], b1[k], rtol=1e-6, atol=1e-12), 'weights of the second iteration change with the scale of the residuals', **inp)
    ph = np.exp(1j * g.uniform(0, 7, n))
    c0 = call(w, x * ph, iv, 0, b=b)
    t.check(np.allclose(a0[k], c0[k], rtol=1e-6, atol=1e-12), 'weights depend on the phase of the residuals', **inp)


@scenario('C15', 'bounded influence', 200)
def bounded(t):
    r, g = t.rng, t.np
    n, p, b = design(r, g)
    iv = sorted(r.sample(range(n), r.randint(0, 4)))
    lower, khi = r.uniform(.01, .2), r.uniform(2, 6)
    inner = r.choice([Huber(), Thomson()])
    w = BoundedInfluenceStep(inner, lower, khi)
    ref = r.choice([Huber(), None]) if isinstance(inner, Huber) else Thomson()
    t.note((n, p, iv, lower, khi, str(inner)))
    inp = dict(n=n, p=p, excluded=iv, lower=lower, khi=khi, inner=str(inner))
    k = keepers(n, iv)
    expexp = lambda x, a: np.exp(np.exp(-a ** 2) - np.exp(a * (x - a)))
    prev_w, trace, hat = np.ones(n), n, np.ones(n)
    mine = Huber() if isinstance(inner, Huber) else Thomson()
    for it in range(3):
        x = cplx(g, n) * (1 + 5 * (g.uniform(size=n) > .9))
        if it and (prev_w > 1e-3).sum() < 2 * p + 3:
            break
        got = call(w, x, iv, it, b=b)
        rw = call(mine, x, iv, it, b=b)
        rw[iv] = 0
        A = b.conj().T @ (prev_w[:, None] * b)
        h = prev_w * np.sum(np.linalg.solve(A, b.conj().T) * b.T, axis=0).real
        y = trace * h / p
        with np.errstate(all='ignore'):
            hat = hat * expexp(y, khi) * expexp(np.log(y), np.log(lower))
        exp = rw * hat
        t.check(np.all(got[iv] == 0), 'excluded samples have a weight', it=it, got=got, **inp)
        t.check(np.all(np.isfinite(got[k])) and np.all(got[k] >= 0), 'weights not finite or negative', it=it, got=got, **inp)
        t.check(np.allclose(got, exp, rtol=1e-6, atol=1e-9), 'bounded influence weights', it=it, got=got, expected=exp, **inp)
        prev_w, trace = exp, exp.sum()


@scenario('C15', 'sequences of weights', 30)
def sequences(t):
    r = t.rng
    from scipy.special import gammaincinv
    prob, n, dim = r.choice([.01, .05, .1, .2]), r.randint(0, 4), r.choice([1, 2, 3])
    t.note((prob, n, dim))
    w = bi_weights(prob, n, dim)
    lower, upper = gammaincinv(dim, .5 * prob) / dim, gammaincinv(dim, 1 - .5 * prob) / dim
    t.check(len(w) == n + 2 and w[0] is None, 'number of steps', prob=prob, n=n)
    exp = [BoundedInfluenceStep(Huber(), lower / 2 ** i, upper * 2 ** i) for i in reversed(range(n))] + [BoundedInfluenceStep(Thomson(), lower, upper)]
    t.check([str(x) for x in list(w)[1:]] == [str(x) for x in exp], 'steps', got=list(map(str, w)), expected=list(map(str, exp)))
    t.check(len(mest_weights) == 3 and mest_weights[0] is None and list(least_square) == [None], 'predefined sequences')
