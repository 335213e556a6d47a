" C19: invalid times "
import numpy as np
from .core import scenario, Skip, expect_raise
from .impgen import *


class Reject:
    " prefilter rejecting scripted coefficients per output (recognised by its rank) "
    def __init__(self, rej):
        self.rej, self.k = rej, 0

    def __call__(self, e, b):
        i = self.k % len(self.rej)
        self.k += 1
        return np.array(sorted(self.rej[i]), int)


@scenario('C19', 'rejected by the prefilter', 120)
def pre(t):
    r, g = t.rng, t.np
    s = gen_data(r, g, rates=r.choice([(1.,), (2., 1.), (1., .7, 3.)]), nruns=r.randint(1, 4), sizes=(120, 400))
    fo = dict(Nper=r.choice([2, 3, 4.5]), overlap=r.choice([0, .5, .3, .71]), window=None)
    f = r.choice([.05, .1, .17])
    try:
        co, (Nw, Lw, sh) = s.fourier_coefficients(f, **fo)
    except Exception:
        raise Skip
    tot = sum(Nw)
    if tot < 12:
        raise Skip
    ne = len(s.tags.E)
    rej = []
    for _ in range(ne):
        k = r.choice(['some', 'many', 'none', 'ends'])
        if k == 'some':
            v = set(r.sample(range(tot), r.randint(1, 4)))
        elif k == 'many':
            v = set(r.sample(range(tot), tot // 2))
        elif k == 'none':
            v = set()
        else:
            ends = np.cumsum(Nw)
            v = {0, tot - 1} | {int(x) - 1 for x in ends} | {int(x) for x in ends[:-1]}
            v = set(sorted(v)[:tot - 8])
        rej.append(v)
    t.note((s.sizes.tolist(), s.sampling_rates.tolist(), f, repr(fo), [sorted(x) for x in rej]))
    inp = dict(freq=f, fourier_opts=fo, sizes=s.sizes, rates=s.sampling_rates, starts=s.starts, rejected=rej)
    real = r.random() < .25
    res = impedance(s, [f], (None,), Reject(rej), fo, keep_invalid_times=True, real_pb=real, silent_fail=False)
    times = []
    for x, n, L, d in zip(s.signals, Nw, Lw, sh):
        times += [x.start + (d * w + .5 * L) / x.sampling_rate for w in range(n)]
    iv = res.invalid_time[0]
    t.check(len(iv) == ne, 'one list per output', **inp)
    for i in range(ne):
        exp = np.array([times[k] for k in sorted(rej[i])])
        got = np.asarray(iv[i])
        t.check(got.shape == exp.shape, 'number of invalid times of output %d' % i, got=len(got), expected=len(exp), **inp)
        t.check(np.all(np.abs(got - exp) <= 16 * np.spacing(np.max(np.abs(times)))), 'invalid times of output %d' % i, got=got, expected=exp, **inp)
    res = impedance(s, [f], (None,), Reject(rej), fo, keep_invalid_times=False)
    t.check(len(res.invalid_time[0]) == ne and all(len(x) == 0 for x in res.invalid_time[0]), 'invalid times although not kept', **inp)


@scenario('C19', 'rejected by the estimation', 40)
def est(t):
    r, g = t.rng, t.np
    s = gen_data(r, g, rates=(1., 2.), nruns=r.randint(2, 3), noise=.3, ne=r.randint(1, 2), nb=1)
    fo = dict(Nper=3, overlap=.5, window=np.hanning)
    f = .1
    co, (Nw, Lw, sh) = s.fourier_coefficients(f, **fo)
    eps = .2
    w = [None, Huber(.8)]
    remote = r.choice([None, 'R'])
    t.note((s.sizes.tolist(), s.sampling_rates.tolist(), remote))
    e, b = [co[i] for i in s.tags.E], [co[i] for i in s.tags.B]
    iv = None
    if remote:
        br = [co[i] for i in s.tags.R]
        try:
            T, ivT = quiet(transfer_function, b, br, w, eps=eps)
        except Exception:
            raise Skip
        iv = [np.unique(np.concatenate(ivT)).astype(int)] * len(e)
        b = T.dot(br)
    try:
        _, ids = quiet(transfer_function, e, b, w, invalid_idx=iv, eps=eps)
    except Exception:
        raise Skip
    res = impedance(s, [f], w, None, fo, remote, keep_invalid_times=True, mest_opts=dict(eps=eps))
    times = []
    for x, n, L, d in zip(s.signals, Nw, Lw, sh):
        times += [x.start + (d * k + .5 * L) / x.sampling_rate for k in range(n)]
    times = np.array(times)
    for i in range(len(e)):
        got = np.asarray(res.invalid_time[0][i])
        exp = times[ids[i]]
        t.check(got.shape == exp.shape and np.all(np.abs(got - exp) <= 16 * np.spacing(np.max(np.abs(times)))), 'invalid times of output %d' % i, got=got, expected=exp, sizes=s.sizes, remote=remote)
