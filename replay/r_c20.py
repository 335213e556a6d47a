" C20: real-valued formulation "
import numpy as np
from .core import scenario, Skip, expect_raise
from .tfgen import cplx, problem, invalid
from razorback.mestimator import transfer_function
from razorback.utils import transfer_function_real_prob
from razorback.weights import Huber, Thomson, mest_weights


def close(a, b, tol=1e-7):
    return np.shape(a) == np.shape(b) and np.all(np.abs(np.asarray(a) - b) <= tol * max(1e-300, np.max(np.abs(b))))


@scenario('C20', 'least squares', 200)
def ls(t):
    r, g = t.rng, t.np
    e, b, z = problem(r, g)
    q, n = e.shape
    p = b.shape[0]
    arg, iv = invalid(r, n, q, p)
    t.note((n, p, q, repr(arg)[:80]))
    form = r.choice([np.array, list])
    a, ia = transfer_function(e, b, (None,), invalid_idx=arg)
    c, ic = transfer_function_real_prob(form(e), form(b), (None,), invalid_idx=arg)
    t.check(close(c, a), 'real-valued least squares differs', got=c, expected=a, invalid_idx=arg)
    t.check(len(ic) == q and all(list(x) == list(map(int, v)) for x, v in zip(ic, iv)), 'rejected indices', got=ic, invalid_idx=arg)


@scenario('C20', 'weights and exclusions', 150)
def weights(t):
    r, g = t.rng, t.np
    e, b, z = problem(r, g, noise=0., outliers=0)
    q, n = e.shape
    p = b.shape[0]
    # large errors on few samples, that the weights reject
    bad = sorted(r.sample(range(n), r.randint(0, max(1, min(3, (n - 3 * p) // 4)))))
    arg, iv = invalid(r, n, q, p)
    e = e + 1e-6 * np.abs(e).mean() * cplx(g, q, n)
    base = np.abs(e).mean()
    for k in bad:
        # one half only, sometimes
        e[:, k] += base * r.choice([100 + 50j, 100, -80j])

    def cut(it, res, e_, b_, ii):
        " rejects the samples of large residuals of the final fit: both halves of a sample "
        a = np.abs(res).reshape(-1, 2).max(axis=1) if len(res) % 2 == 0 else np.abs(res)
        return np.repeat((a < np.partition(a, -len(bad) - 1)[-len(bad) - 1] + 1e-300) * 1. + 1e-3, 2)
    w = r.choice([(None,), 'drop'])
    t.note((n, p, q, bad, repr(arg)[:80], w == 'drop'))
    inp = dict(invalid_idx=arg, bad=bad, n=n)
    if w == 'drop':
        # weight function recognising the bad samples: rejects one half of each
        half = [r.choice([0, 1]) for _ in range(n)]

        def drop(it, res, e_, b_, ii):
            wt = np.ones(len(e_))
            big = np.abs(e_ - e0(b_)) > base
            wt[big] = 0
            return wt
        zr = {}

        def e0(b_):
            return b_ @ zr['z']
        ids_all = []
        for i in range(q):
            zz = np.empty(2 * p)
            zz[0::2], zz[1::2] = z[i].real, z[i].imag
            zr['z'] = zz
            out, ids = transfer_function_real_prob(e[i:i + 1], b, [None, drop, None], invalid_idx=iv[i] if len(iv[i]) else None)
            exp = sorted(set(map(int, iv[i])) | set(bad))
            t.check(list(ids[0]) == exp, 'rejected indices of output %d do not number the complex samples' % i, got=ids[0], expected=exp, **inp)
            t.check(close(out[0], z[i], 1e-3), 'transfer function', got=out, expected=z[i], **inp)
    else:
        keep = np.ones((q, n), bool)
        for i in range(q):
            keep[i, iv[i]] = False
        out, ids = transfer_function_real_prob(e, b, w, invalid_idx=arg)
        for i in range(q):
            exp = np.linalg.lstsq(b.T[keep[i]], e[i][keep[i]], rcond=None)[0]
            t.check(close(out[i], exp, 1e-6), 'estimate over the samples kept', got=out[i], expected=exp, **inp)


@scenario('C20', 'robust weights recover the relation', 80)
def robust(t):
    r, g = t.rng, t.np
    e, b, z = problem(r, g, noise=0., outliers=0, n=r.randint(60, 120), p=2)
    q, n = e.shape
    e = e + 1e-3 * np.abs(e).mean() * cplx(g, q, n)
    bad = r.sample(range(n), 4)
    e[:, bad] *= 5
    w = r.choice([mest_weights, [None, Huber()]])
    arg, iv = invalid(r, n, q, 2)
    t.note((n, q, len(w), repr(arg)[:60]))
    out, ids = transfer_function_real_prob(e, b, w, invalid_idx=arg)
    t.check(close(out, z, .05), 'the returned transfer function does not map the inputs to the outputs', got=out, expected=z)
    for i in range(q):
        got = list(ids[i])
        t.check(got == sorted(set(got)) and all(0 <= k < n for k in got), 'rejected indices out of range', got=got, n=n)
        t.check(set(map(int, iv[i])) <= set(got), 'excluded samples not reported', got=got, invalid_idx=arg)
