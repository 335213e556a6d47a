" C21: error estimates "
import numpy as np
from .core import scenario, Skip, expect_raise
from .tfgen import cplx, problem, invalid
from razorback.mestimator import transfer_error, transfer_function


def formula(e, b, z, iv):
    p, n = b.shape
    C = np.linalg.inv(b @ b.conj().T)
    return np.array([[np.linalg.norm(e[i] - z[i] @ b) * n / np.sqrt(n - p) / (n - len(iv[i])) * np.sqrt(abs(C[j, j])) for j in range(p)] for i in range(len(e))])


@scenario('C21', 'formula', 250)
def form(t):
    r, g = t.rng, t.np
    e, b, z = problem(r, g)
    q, n = e.shape
    p = b.shape[0]
    if r.random() < .5:
        b = b * np.array([10. ** r.randint(-3, 3) for _ in range(p)])[:, None]
    z = r.choice([z, cplx(g, q, p), transfer_function(e, b)[0]])
    iv = [np.array(sorted(r.sample(range(n), r.randint(0, n // 2))), int) for _ in range(q)]
    t.note((n, p, q, [len(x) for x in iv]))
    inp = dict(n=n, p=p, q=q, rejected=[len(x) for x in iv])
    conv = r.choice([np.array, list])
    got = transfer_error(conv(e), conv(b), z, iv)
    exp = formula(e, b, z, iv)
    t.check(np.shape(got) == (q, p), 'shape', got=np.shape(got), **inp)
    t.check(np.allclose(got, exp, rtol=1e-6, atol=1e-12 * np.abs(exp).max()), 'error differs from the formula', got=got, expected=exp, **inp)


@scenario('C21', 'scaling', 150)
def scaling(t):
    r, g = t.rng, t.np
    e, b, z0 = problem(r, g, noise=r.choice([.1, 1.]))
    q, n = e.shape
    p = b.shape[0]
    iv = [np.array(sorted(r.sample(range(n), r.randint(0, n // 3))), int) for _ in range(q)]
    z = transfer_function(e, b)[0]
    c = r.choice([2., -3., 1e4, 1e-5, complex(1, 2)])
    t.note((n, p, q, repr(c)))
    inp = dict(n=n, p=p, q=q, factor=c)
    e0 = transfer_error(e, b, z, iv)
    t.check(np.all(e0 > 0), 'error not positive', got=e0, **inp)
    t.check(np.allclose(transfer_error(c * e, b, c * z, iv), abs(c) * e0, rtol=1e-6), 'not proportional to the outputs', **inp)
    t.check(np.allclose(transfer_error(e, c * b, z / c, iv), e0 / abs(c), rtol=1e-6), 'not inversely proportional to the inputs', **inp)
    i = r.randrange(q)
    left = sorted(set(range(n)) - set(map(int, iv[i])))
    more = list(iv)
    more[i] = np.array(sorted(list(map(int, iv[i])) + [r.choice(left)]), int)
    e1 = transfer_error(e, b, z, more)
    t.check(np.all(e1[i] > e0[i]), 'not larger when more samples are rejected', **inp)
    t.check(np.allclose(np.delete(e1, i, 0), np.delete(e0, i, 0), rtol=1e-12), 'rejections of an output change the error of another one', **inp)
    ex = z @ b
    t.check(np.all(transfer_error(ex, b, z, iv) <= 1e-10 * e0.max() + 1e-12 * np.abs(ex).max()), 'error of an exact fit', **inp)
    t.check(expect_raise(lambda: transfer_error(e, b, z, iv + [iv[0]])) and expect_raise(lambda: transfer_error(e[:, :-1], b, z, iv)), 'inconsistent sizes accepted', **inp)
