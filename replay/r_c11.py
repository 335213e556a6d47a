" C11: sliding windows tile each run "
import math
from fractions import Fraction as Fr
import numpy as np
from .core import scenario, Skip, expect_raise
from razorback.fourier_transform import time_to_freq
from razorback.signalset import SyncSignal


def near(x, eps=1e-9):
    " integers a floor / ceil of x may give up to rounding "
    r = round(x)
    return abs(x - r) <= eps * max(1, abs(x))


def sizes(rate, freq, nper, overlap):
    " sets of the admissible (length, shift) "
    x = Fr(nper) * Fr(rate) / Fr(freq)
    Ls = {math.ceil(x)}
    if near(x):
        Ls |= {round(x), round(x) + 1}
    res = set()
    for L in Ls:
        y = L * (1 - Fr(overlap))
        S = {math.floor(y)}
        if near(y):
            S |= {round(y), round(y) - 1}
        res |= {(L, s) for s in S}
    return {(L, s) for L, s in res if L > 0 and s >= 0}


def numbers(t):
    r = t.rng
    if t.hint:
        h = t.hint
        f = lambda k, d: (h[k][0] / h[k][1] if isinstance(h.get(k), list) else h.get(k, d))
        rate = f('rate', 1.)
        freq = f('freq', f('nf', .1) * rate)
        size = int(f('size', 10))
        if not (0 < size < 10 ** 6):
            raise Skip()
        return size, rate, freq, f('Nper', 1.), f('overlap', .5)
    rate = r.choice([1., 2., 512., 1024., 24000., r.uniform(.1, 5000), 15., 1 / 3])
    freq = r.choice([rate / r.uniform(2, 40), rate / r.randint(2, 30), rate / 2, rate * r.uniform(.3, .7)])
    nper = r.choice([1, 2, 8, r.randint(1, 12), r.uniform(.5, 9), 2.5])
    overlap = r.choice([0, .5, .71, .1, .9, r.uniform(0, 1), r.uniform(0, .99), .75, 1 / 3])
    L = nper * rate / freq
    size = r.choice([int(L * r.uniform(0, 3)), int(L) + int(L * (1 - overlap)) + r.randint(-2, 2),
                     int(L * r.uniform(1, 12)) + r.randint(0, 3), r.randint(0, 400)])
    return max(0, min(size, 5000)), rate, freq, nper, overlap


@scenario('C11', 'window tiling', 400)
def tiling(t):
    size, rate, freq, nper, overlap = numbers(t)
    nch = t.rng.randint(1, 2)
    mode = t.rng.choice(['none', 'ones', 'fun'])
    data = [np.arange(size, dtype=float) + 1000. * c for c in range(nch)]
    win = None
    if mode == 'fun':
        win = lambda N: np.hanning(N + 2)[1:-1]
    ok = sizes(rate, freq, nper, overlap)
    if not ok:
        raise Skip()
    t.note((size, rate, freq, nper, overlap, mode, nch))
    inp = dict(size=size, rate=rate, freq=freq, Nper=nper, overlap=overlap, window=mode)
    use_sig = t.rng.random() < .3 and size > 0
    try:
        if use_sig:
            c, (Nw, Lw, sh) = SyncSignal(data, rate).fourier_coefficients(freq, nper, overlap, win)
        else:
            c, (Nw, Lw, sh) = time_to_freq(data, rate, freq, nper, overlap, win)
    except Exception as e:
        must = any(size >= L + s and s >= 1 for L, s in ok) and all(size >= L + s and s >= 1 for L, s in ok)
        nf = freq / rate
        t.check(not (must and 1e-12 < nf <= .5 and 0 <= overlap <= 1), 'valid parameters rejected: %r' % e, **inp)
        return
    nf = Fr(freq) / Fr(rate)
    t.check(0 < nf <= Fr(1, 2) * (1 + Fr(1, 10 ** 12)), 'frequency out of (0, Nyquist] accepted', **inp)
    t.check(0 <= overlap <= 1, 'overlap accepted', **inp)
    t.check((Lw, sh) in ok, 'wrong length or shift %s, expected %s' % ((Lw, sh), sorted(ok)), **inp)
    t.check(size >= Lw + sh, 'run too short accepted', **inp)
    t.check(all(len(e) == Nw for e in c), 'number of windows differs from the number of coefficients', **inp)
    t.check((Nw - 1) * sh + Lw <= size, 'window overruns the run', **inp)
    t.check(Nw * sh + Lw > size, 'a further window would fit', **inp)
    # which samples each window covers: perturb one sample outside and inside
    w = t.rng.randrange(Nw)
    lo, hi = w * sh, w * sh + Lw
    if mode != 'fun' and size <= 2000:
        for pos in {lo - 1, lo, hi - 1, hi, t.rng.randrange(size)}:
            if not 0 <= pos < size:
                continue
            d2 = [data[0].copy()]
            d2[0][pos] += 1e6
            c2, _ = time_to_freq(d2, rate, freq, nper, overlap, None)
            c1, _ = time_to_freq(data[:1], rate, freq, nper, overlap, None)
            moved = abs(c2[0][w] - c1[0][w]) > 1
            t.check(moved == (lo <= pos < hi), 'window %d uses sample %d: %s' % (w, pos, moved), **inp)


@scenario('C11', 'rejections', 150)
def rejections(t):
    r = t.rng
    rate = r.choice([1., 512., 100.])
    kind = r.choice(['nyquist', 'zero', 'neg', 'ov-', 'ov+', 'short'])
    freq, overlap, nper, size = rate / r.uniform(2.1, 9), r.uniform(0, .8), r.uniform(1, 6), 3000
    if kind == 'nyquist':
        freq = rate * r.uniform(.5001, 3)
    elif kind == 'zero':
        freq = 0.
    elif kind == 'neg':
        freq = -freq
    elif kind == 'ov-':
        overlap = -r.uniform(.01, 1)
    elif kind == 'ov+':
        overlap = 1 + r.uniform(.01, 1)
    else:
        L, s = min(sizes(rate, freq, nper, overlap))
        size = r.choice([L + s - 1 - r.randint(0, 3), r.randint(0, L), L - 1, L])
        if size < 0 or s < 1:
            raise Skip()
    t.note((kind, rate, freq, nper, overlap, size))
    x = np.ones(size)
    t.check(expect_raise(lambda: time_to_freq([x], rate, freq, nper, overlap, None)),
            'invalid parameters accepted (%s)' % kind, size=size, rate=rate, freq=freq, Nper=nper, overlap=overlap)
