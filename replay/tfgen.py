" generators for the estimation "
import numpy as np


def cplx(g, *s):
    return g.normal(size=s) + 1j * g.normal(size=s)


def problem(r, g, noise=None, outliers=None, n=None, p=None, q=None):
    " outputs, inputs, transfer "
    n = n or r.randint(15, 80)
    p = p or r.randint(1, 3)
    q = q or r.randint(1, 3)
    b = cplx(g, p, n) * r.choice([1., 10., 1e-3])
    z = cplx(g, q, p)
    e = z @ b
    noise = r.choice([0., .01, .3, 2.]) if noise is None else noise
    if noise:
        e = e + noise * np.abs(b).mean() * cplx(g, q, n)
    if outliers is None:
        outliers = r.choice([0, 0, 2, 5])
    for _ in range(outliers):
        k = r.randrange(n)
        e[r.randrange(q), k] += 50 * np.abs(b).mean() * complex(g.normal(), g.normal())
        if r.random() < .4:
            b[:, k] *= 20
    return e, b, z


def invalid(r, n, q, p):
    " (argument, list of arrays per output) "
    k = r.random()
    m = max(0, min(6, n - 3 * p - 4))
    one = lambda: np.array(sorted(r.sample(range(n), r.randint(0, m))), int)
    if k < .3:
        return None, [np.empty(0, int)] * q
    if k < .55:
        v = one()
        if len(v) == 0:
            return None, [v] * q
        return r.choice([v, list(map(int, v))]), [v] * q
    v = [one() for _ in range(q)]
    return r.choice([v, tuple(v)]), v
