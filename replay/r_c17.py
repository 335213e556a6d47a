" C17: one frequency never affects another "
import numpy as np
from .core import scenario, Skip, expect_raise
from .impgen import *

FO = dict(Nper=4, overlap=.5, window=np.hanning)


def options(r):
    o = dict(weights=WEIGHTS[r.choice(sorted(WEIGHTS))](), fourier_opts=FO)
    if r.random() < .4:
        o['prefilter'] = cod_filter(r.choice([.05, .2]), size=r.choice([5, 8]))
    if r.random() < .5:
        o['remote'] = 'R'
        if r.random() < .5:
            o['remote_weights'] = WEIGHTS[r.choice(sorted(WEIGHTS))]()
    if r.random() < .3:
        o['real_pb'] = True
    if r.random() < .6:
        o['keep_invalid_times'] = True
    if r.random() < .3:
        o['mest_opts'] = dict(maxit=r.choice([2, 3, 5, 40]), tol=1e-3)
    return o


def freqs(r):
    # too low (no window), above Nyquist, usable
    pool = [.002, .001, .03, .05, .08, .11, .2, .3, .45, .7, 2.]
    fs = [r.choice(pool) for _ in range(r.randint(1, 5))]
    return fs


def check_same(t, a, i, b, what, **inp):
    " entry i of a is the only entry of b "
    t.check(eq(a.impedance[i], b.impedance[0]), what + ': impedance', **inp)
    t.check(eq(a.error[i], b.error[0]), what + ': error', **inp)
    t.check(eq(a.transfer_mag[i], b.transfer_mag[0]), what + ': remote transfer', **inp)
    x, y = a.invalid_time[i], b.invalid_time[0]
    t.check(len(x) == len(y) and all(eq(p, q) for p, q in zip(x, y)), what + ': invalid times', **inp)


@scenario('C17', 'list of frequencies and single frequencies', 60)
def lists(t):
    r, g = t.rng, t.np
    s = gen_data(r, g)
    fs = freqs(r)
    o = options(r)
    t.note((s.nb_channels, s.sizes.tolist(), fs, sorted(o)))
    inp = dict(l_freq=fs, options=o, sizes=s.sizes, tags=s.tags)
    res = impedance(s, fs, **o)
    ne, nb = len(s.tags.E), len(s.tags.B)
    t.check(res.impedance.shape == (len(fs), ne, nb) and res.error.shape == (len(fs), ne, nb), 'shape of the result', **inp)
    t.check(len(res.invalid_time) == len(fs) == len(res.transfer_mag), 'lengths of the result', **inp)
    nr = len(s.tags.R) if o.get('remote') else 0
    t.check(res.transfer_mag.shape == (len(fs), nb, nr), 'shape of the remote transfer', got=res.transfer_mag.shape, **inp)
    for i, f in enumerate(fs):
        one = impedance(s, [f], **o)
        check_same(t, res, i, one, 'frequency %g alone differs' % f, **inp)
        if f < .01 or f > .5:
            t.check(np.isnan(res.impedance[i]).all() and np.isnan(res.error[i]).all() and len(res.invalid_time[i]) == 0, 'unusable frequency: NaN expected', freq=f, **inp)
    perm = list(range(len(fs)))
    r.shuffle(perm)
    again = impedance(s, [fs[p] for p in perm], **o)
    for i, p in enumerate(perm):
        t.check(eq(again.impedance[i], res.impedance[p]) and eq(again.error[i], res.error[p]), 'order of the frequencies matters', perm=perm, **inp)


class Fragile:
    " weight function or prefilter failing for some numbers of windows "
    def __init__(self, bad, kind):
        self.bad, self.kind = bad, kind

    def __call__(self, *a):
        if self.kind == 'prefilter':
            e, b = a
            if len(e) in self.bad:
                raise ZeroDivisionError('fails')
            return np.array([0, 2])
        it, residual, e, b, iv = a
        if len(e) in self.bad:
            raise ZeroDivisionError('fails')
        return np.ones(len(e))


@scenario('C17', 'frequencies failing during the estimation', 60)
def failing(t):
    r, g = t.rng, t.np
    s = gen_data(r, g, nruns=1)
    fs = r.sample([.08, .1, .13, .17, .2, .3], r.randint(2, 4))
    try:
        sizes = {f: s.fourier_coefficients(f, **FO)[1][0][0] for f in fs}
    except Exception:
        raise Skip
    if min(sizes.values()) < 5 or len(set(sizes.values())) < len(fs):
        raise Skip
    bad = set(r.sample(fs, r.randint(1, len(fs) - 1)))
    nbad = {sizes[f] for f in bad}
    kind = r.choice(['prefilter', 'weight', 'remote prefilter', 'remote weight'])
    fr = Fragile(nbad, 'prefilter' if 'prefilter' in kind else 'weight')
    o = dict(fourier_opts=FO, keep_invalid_times=r.random() < .5, real_pb=False)
    if kind == 'prefilter':
        o['prefilter'] = fr
    elif kind == 'weight':
        o['weights'] = [None, fr]
    elif kind == 'remote prefilter':
        o.update(remote='R', remote_prefilter=fr)
    else:
        o.update(remote='R', remote_weights=[None, fr])
    if r.random() < .5:
        o['remote'] = 'R'
    t.note((kind, fs, sorted(bad), s.sizes.tolist()))
    inp = dict(kind=kind, l_freq=fs, failing=sorted(bad), options=o)
    res = impedance(s, fs, **o)
    ne, nb = len(s.tags.E), len(s.tags.B)
    nr = len(s.tags.R) if o.get('remote') else 0
    t.check(res.impedance.shape == (len(fs), ne, nb) == res.error.shape, 'shape', **inp)
    t.check(res.transfer_mag.shape == (len(fs), nb, nr), 'shape of the remote transfer', got=res.transfer_mag.shape, **inp)
    for i, f in enumerate(fs):
        if sizes[f] in nbad:
            t.check(np.isnan(res.impedance[i]).all() and np.isnan(res.error[i]).all() and len(res.invalid_time[i]) == 0, 'failing frequency: NaN expected', freq=f, **inp)
            t.check(expect_raise(lambda: impedance(s, fs, silent_fail=False, **o), ZeroDivisionError), 'silent_fail=False does not raise', **inp)
        else:
            t.check(not np.isnan(res.impedance[i]).any(), 'frequency lost', freq=f, **inp)
            check_same(t, res, i, impedance(s, [f], **o), 'frequency %g alone differs' % f, **inp)
    good = [f for f in fs if sizes[f] not in nbad]
    if good:
        quietres = impedance(s, good, silent_fail=False, **o)
        t.check(eq(quietres.impedance, res.impedance[[i for i, f in enumerate(fs) if f in good]]), 'silent_fail changes the result', **inp)


@scenario('C17', 'no frequency', 3, 6)
def nofreq(t):
    s = gen_data(t.rng, t.np)
    t.note(s.nb_channels)
    res = impedance(s, [], fourier_opts=FO)
    t.check(len(res.impedance) == len(res.error) == len(res.invalid_time) == 0, 'no frequency')
