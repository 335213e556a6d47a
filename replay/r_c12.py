" C12: Fourier coefficients "
import numpy as np
from .core import scenario, Skip, expect_raise
from .gen import spec_coeff
from razorback.fourier_transform import time_to_freq, slepian_window
from razorback.signalset import SyncSignal, SignalSet


def params(r):
    rate = r.choice([1., 512., 100., r.uniform(1, 50)])
    freq = rate / r.uniform(2, 15)
    nper = r.uniform(1, 5)
    overlap = r.choice([0, .5, .71, r.uniform(0, .8)])
    L = int(np.ceil(nper * rate / freq))
    return rate, freq, nper, overlap, L


WIN = {
    'none': (lambda N: None),
    'hanning': np.hanning,
    'ramp': (lambda N: 1. + np.arange(N)),
    'slepian': slepian_window(4),
}


@scenario('C12', 'coefficients of one run', 150)
def one(t):
    r, g = t.rng, t.np
    rate, freq, nper, overlap, L = params(r)
    size = int(L * r.uniform(2.2, 7)) + r.randint(0, 3)
    nch = r.randint(1, 3)
    kind = r.choice(sorted(WIN) if L > 9 else ['none', 'hanning', 'ramp'])
    data = [g.normal(size=size) + r.choice([0, 5, 1e3]) for _ in range(nch)]
    cals = [r.choice([None, 2., 1 - 3j, (lambda f: 3 + 1j * f)]) for _ in range(nch)]
    t.note((rate, freq, nper, overlap, size, nch, kind))
    inp = dict(rate=rate, freq=freq, Nper=nper, overlap=overlap, size=size, window=kind)
    win = WIN[kind]
    arg = None if kind == 'none' else r.choice([win, win(L)])
    if r.random() < .5:
        res, (Nw, Lw, sh) = time_to_freq(data, rate, freq, nper, overlap, arg)
        cal = [1] * nch
    else:
        cc = [1. if c is None else c for c in cals]
        sig = SyncSignal(data, rate, 3., cc)
        res, (Nw, Lw, sh) = sig.fourier_coefficients(freq, nper, overlap, arg)
        cal = [c(freq) if callable(c) else c for c in cc]
    t.check(len(res) == nch, 'one result per channel', **inp)
    for c in range(nch):
        exp = spec_coeff(data[c], rate, freq, Lw, sh, Nw, win(Lw)) / cal[c]
        got = np.asarray(res[c])
        t.check(got.shape == exp.shape, 'shape of the coefficients', **inp)
        t.check(np.allclose(got, exp, rtol=1e-7, atol=1e-9 * (1 + np.abs(data[c]).max())),
                'coefficients of channel %d differ from the sum' % c, **inp)


@scenario('C12', 'signal set: runs concatenated in order', 80)
def sset(t):
    r, g = t.rng, t.np
    nch, nrun = r.randint(1, 3), r.randint(1, 4)
    freq = r.uniform(.5, 2)
    nper, overlap = r.uniform(1, 3), r.choice([0, .5, .71])
    start, sigs, infos = 0., [], []
    cals = [r.choice([1., 2j, (lambda f: 1 + 2j * f)]) for _ in range(nch)]
    for i in range(nrun):
        rate = freq * r.choice([4, 6, 10., r.uniform(3, 9)])
        L = int(np.ceil(nper * rate / freq))
        size = int(L * r.uniform(2.2, 5)) + 2
        data = [g.normal(size=size) for _ in range(nch)]
        sigs.append(SyncSignal(data, rate, start, cals))
        start += size / rate + r.uniform(.5, 20)
    order = list(range(nrun))
    r.shuffle(order)
    s = SignalSet({'c%d' % i: i for i in range(nch)}, *[sigs[i] for i in order])
    t.note((nch, nrun, freq, nper, overlap, [len(x.data[0]) for x in sigs]))
    inp = dict(freq=freq, Nper=nper, overlap=overlap, nruns=nrun)
    res, (Nw, Lw, sh) = s.fourier_coefficients(freq, nper, overlap, np.hanning)
    t.check(len(Nw) == len(Lw) == len(sh) == nrun and len(res) == nch, 'lengths per run', **inp)
    for c in range(nch):
        exp = []
        for i, x in enumerate(sigs):
            cal = cals[c](freq) if callable(cals[c]) else cals[c]
            exp.append(spec_coeff(x.data[c], x.sampling_rate, freq, Lw[i], sh[i], Nw[i], np.hanning(Lw[i])) / cal)
        exp = np.concatenate(exp)
        t.check(np.shape(res[c]) == exp.shape and np.allclose(res[c], exp, atol=1e-9),
                'coefficients of the set differ from those of the runs', **inp)


@scenario('C12', 'independence and rejections', 80)
def indep(t):
    r, g = t.rng, t.np
    rate, freq, nper, overlap, L = params(r)
    size = int(L * 3) + 3
    a, b, b2 = g.normal(size=size), g.normal(size=size), g.normal(size=size) * 100
    t.note((rate, freq, nper, overlap, size))
    inp = dict(rate=rate, freq=freq, Nper=nper, overlap=overlap, size=size)
    r1, _ = time_to_freq([a, b], rate, freq, nper, overlap, np.hanning)
    r2, _ = time_to_freq([a, b2], rate, freq, nper, overlap, np.hanning)
    t.check(np.array_equal(r1[0], r2[0]), 'a channel depends on another one', **inp)
    t.check(expect_raise(lambda: time_to_freq([a, b[:-1]], rate, freq, nper, overlap, None)),
            'channels of different lengths accepted', **inp)
    n = r.choice([1, -1, L])
    t.check(expect_raise(lambda: time_to_freq([a], rate, freq, nper, overlap, np.ones(L + n))),
            'window of the wrong length accepted', **inp)
    s = SyncSignal([a, b], rate, 0., [1., lambda f: None])
    t.check(expect_raise(lambda: s.fourier_coefficients(freq, nper, overlap, None)),
            'calibration without value accepted', **inp)
