" signal sets for impedance() and an independent reference of the processing "
import contextlib
import io
import numpy as np
from razorback.signalset import SignalSet, SyncSignal
from razorback.weights import mest_weights, bi_weights, Huber, Thomson
from razorback.prefilters import cod_filter
import razorback.utils as utils
from razorback.mestimator import transfer_function, transfer_error


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
        return fn(*a, **k)


def impedance(*a, **k):
    return quiet(utils.impedance, *a, **k)


def gen_data(r, g, ne=None, nb=None, nr=None, nruns=None, noise=None, rates=(1.,), sizes=(150, 400), holes=False):
    " signal set with tags E, B, R in any channel order, linear relation + noise "
    ne, nb = ne or r.randint(1, 3), nb or r.randint(1, 2)
    nr = nr or r.randint(nb, 3)
    noise = r.choice([.05, .3, 1.]) if noise is None else noise
    n = ne + nb + nr
    perm = list(range(n))
    r.shuffle(perm)
    tags = {'E': tuple(perm[:ne]), 'B': tuple(perm[ne:ne + nb]), 'R': tuple(perm[ne + nb:])}
    Z, T = g.normal(size=(ne, nb)), g.normal(size=(nb, nr))
    sigs, t = [], r.choice([0., 1000., -50., 1.6e9])
    for k in range(nruns or r.randint(1, 3)):
        rate = r.choice(rates)
        size = r.randint(*sizes)
        rr = g.normal(size=(nr, size))
        bb = T @ rr + .3 * noise * g.normal(size=(nb, size))
        ee = Z @ bb + noise * g.normal(size=(ne, size))
        for _ in range(r.choice([0, 0, 2])):
            i = r.randrange(size - 10)
            ee[:, i:i + 5] += 30 * g.normal()
        rows = np.vstack([ee, bb, rr])
        data = [None] * n
        for j, c in enumerate(perm):
            data[c] = rows[j].copy()
        sigs.append(SyncSignal(data, rate, t, [1. + .1 * c for c in range(n)]))
        t = sigs[-1].stop + r.choice([1 / rate, 33.5, 1e4])
    return SignalSet(tags, *sigs)


WEIGHTS = {
    'ls': lambda: (None,), 'mest': lambda: mest_weights, 'bi': lambda: bi_weights(.1, 2),
    'huber': lambda: [None, Huber()], 'thomson': lambda: [None, Thomson(3.)],
}


def eq(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def close(a, b, tol=1e-7):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol * (np.nanmax(np.abs(b)) if b.size and not np.isnan(b).all() else 1), equal_nan=True)
