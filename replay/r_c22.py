" C22: coherence prefilter "
import numpy as np
from .core import scenario, Skip, expect_raise
from .tfgen import cplx, problem
from razorback.prefilters import cod_filter


def coherence(e, b):
    z = np.linalg.lstsq(b, e, rcond=None)[0]
    return np.sqrt(max(0., 1 - np.sum(np.abs(e - b @ z) ** 2) / np.sum(np.abs(e) ** 2)))


def blocks(n, size):
    m = n // size
    if m == 0:
        return [(0, n)]
    return [(k * size, (k + 1) * size) for k in range(m - 1)] + [((m - 1) * size, n)]


def gen(r, g):
    p = r.randint(1, 3)
    size = r.randint(p + 1, 12)
    n = r.choice([r.randint(p + 2, 90), size * r.randint(1, 6), size * r.randint(1, 6) + size - 1, size + 1])
    n = max(n, p + 2)
    b = cplx(g, n, p)
    e = b @ cplx(g, p) + r.choice([.1, .5, 1., 3.]) * cplx(g, n)
    noisy = g.uniform(size=n) > .6
    e[noisy] += 3 * cplx(g, noisy.sum())
    if r.random() < .2:
        e, b = e.real.copy(), b.real.copy()
    return e, b, size


@scenario('C22', 'values and rejections', 300)
def values(t):
    r, g = t.rng, t.np
    e, b, size = gen(r, g)
    n = len(e)
    exp = np.empty(n)
    for i, j in blocks(n, size):
        exp[i:j] = coherence(e[i:j], b[i:j])
    lo, hi = sorted([r.uniform(0, 1), r.choice([1., r.uniform(.3, 1)])])
    t.note((n, size, b.shape[1], lo, hi))
    inp = dict(n=n, size=size, inputs=b.shape[1], cod_min=lo, cod_max=hi)
    f = cod_filter(lo, hi, size)
    got = f.value(e, b)
    t.check(np.shape(got) == (n,), 'one value per sample', **inp)
    t.check(np.allclose(got, exp, rtol=1e-6, atol=1e-5), 'coherence of the blocks', got=got, expected=exp, **inp)
    near = (np.abs(exp - lo) < 1e-4) | (np.abs(exp - hi) < 1e-4)
    rej = np.zeros(n, bool)
    ids = f(e, b)
    t.check(np.ndim(ids) == 1, 'indices', **inp)
    rej[ids] = True
    want = (exp < lo) | (exp > hi)
    t.check(np.array_equal(rej[~near], want[~near]) and list(ids) == sorted(set(map(int, ids))), 'rejected samples', got=ids, expected=np.nonzero(want)[0], **inp)
    v = f.value(e, b)
    t.check(np.array_equal(v, got), 'not reproducible', **inp)
    # samples on the limits are kept
    for a in (float(got[0]), float(got[-1])):
        k = cod_filter(a, 1.1, size)(e, b)
        t.check(list(k) == list(np.nonzero(got < a)[0]), 'sample equal to the minimum', **inp)
        k = cod_filter(-1., a, size)(e, b)
        t.check(list(k) == list(np.nonzero(got > a)[0]), 'sample equal to the maximum', **inp)


@scenario('C22', 'scaling and default size', 150)
def scaling(t):
    r, g = t.rng, t.np
    e, b, size = gen(r, g)
    f = cod_filter(.5, size=size)
    c = r.choice([1e-6, 1e5, -2., complex(0, 3)])
    t.note((len(e), size, b.shape[1], repr(c)))
    v = f.value(e, b)
    inp = dict(n=len(e), size=size, factor=c)
    t.check(np.allclose(f.value(c * e, b), v, rtol=1e-6, atol=1e-5), 'scale of the output', **inp)
    t.check(np.allclose(f.value(e, c * b), v, rtol=1e-6, atol=1e-5), 'scale of the inputs', **inp)
    s = np.array([r.choice([1., 1e3, -.1]) for _ in range(b.shape[1])])
    t.check(np.allclose(f.value(e, s * b), v, rtol=1e-6, atol=1e-5), 'scale of one input', **inp)
    if len(e) > 14:
        a, d = cod_filter(.5), cod_filter(.5, 1., 10)
        t.check(np.array_equal(a.value(e, b), d.value(e, b)) and np.array_equal(a(e, b), d(e, b)), 'default size is 10 and default maximum 1', **inp)
    # a block has no influence on the others
    bl = blocks(len(e), size)
    i, j = r.choice(bl)
    e2 = e.copy()
    e2[i:j] = e2[i:j] + 5 * g.normal(size=j - i)
    o = np.ones(len(e), bool)
    o[i:j] = False
    t.check(np.allclose(f.value(e2, b)[o], v[o], rtol=1e-9), 'a block changes the value of another one', **inp)
