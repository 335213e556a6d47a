""" plain model of signal sets, written independently of the code, and generators

Every sample value is unique and encodes where it comes from:
    value = ((op * 64 + run) * 32 + channel) * 8192 + index
Every calibration value is unique as well: seen through its values at two frequencies.
"""
import numpy as np
from fractions import Fraction as Fr
from razorback.signalset import SignalSet, SyncSignal, Inventory, Tags

F1, F2 = 1.5, 7.25
NAMES = ['Ex', 'Ey', 'Hx', 'Hy', 'Hz', 'E', 'B', 'H', 'rx', 'ry', 'site1_Ex', 'Bremote', 'a', 'Zz_1']


def origin(x):
    " (op, run, channel, index) of a sample value "
    x = int(x)
    x, i = divmod(x, 8192)
    x, c = divmod(x, 32)
    op, run = divmod(x, 64)
    return op, run, c, i


def samples(op, run, chan, size):
    return (((op * 64 + run) * 32 + chan) * 8192 + np.arange(size)).astype(float)


def calval(op, run, chan):
    k = 1. + ((op * 64 + run) * 32 + chan)
    return complex(k, -k / 3)


def mkcal(r, op, run, chan):
    " a calibration (number or function); its values at F1 and F2 "
    k = calval(op, run, chan)
    if r.random() < .4:
        return k, (k, k)
    f = lambda f: k * (1 + 1j * f)
    return f, (f(F1), f(F2))


def tol(*ts):
    return 16 * np.spacing(max([abs(t) for t in ts if np.isfinite(t)] + [0.]))


class Run:
    def __init__(self, rate, start, data, cals):
        self.rate, self.start, self.data, self.cals = float(rate), float(start), data, cals

    @property
    def size(self):
        return len(self.data[0])

    def time(self, i):
        return self.start + i / self.rate

    @property
    def stop(self):
        return self.time(self.size - 1)

    def key(self):
        return (self.rate, self.start, self.size)

    def __repr__(self):
        return 'Run(rate=%r, start=%r, size=%d, nch=%d)' % (self.rate, self.start, self.size, len(self.data))


class Set:
    " tags: dict name -> tuple; n: channels; runs: list of Run "
    def __init__(self, tags, n, runs):
        self.tags, self.n, self.runs = dict(tags), n, list(runs)

    def __repr__(self):
        return 'Set(%r, n=%d, %r)' % (self.tags, self.n, self.runs)


def view_run(s):
    data = [np.asarray(x).copy() for x in s.data]
    cals = [(complex(c(F1)), complex(c(F2))) for c in s.calibrations]
    return Run(s.sampling_rate, s.start, data, cals)


def view(s):
    " model of a real signal set, through its public interface "
    return Set({k: tuple(v) for k, v in s.tags.items()}, s.nb_channels, [view_run(x) for x in s.signals])


def same_run(a, b, start_tol=0.):
    return (a.rate == b.rate and abs(a.start - b.start) <= start_tol and len(a.data) == len(b.data)
            and all(np.array_equal(x, y) for x, y in zip(a.data, b.data))
            and list(a.cals) == list(b.cals))


def same_set(a, b, start_tol=0.):
    return (a.tags == b.tags and a.n == b.n and len(a.runs) == len(b.runs)
            and all(same_run(x, y, start_tol) for x, y in zip(a.runs, b.runs)))


def invariant(t, s, what='', /, **inp):
    " C02 / C03 for a set of the library "
    t.check(isinstance(s, SignalSet), what + ': not a SignalSet', **inp)
    runs = s.signals
    for a, b in zip(runs, runs[1:]):
        t.check(a.start <= b.start and a.stop <= b.start + tol(a.start, a.stop, b.start, b.stop), what + ': runs not sorted or overlapping', **inp)
    for x in runs:
        t.check(len(x.data) == s.nb_channels == len(x.calibrations), what + ': number of channels or calibrations', **inp)
        t.check(all(len(d) == x.size for d in x.data), what + ': sizes of the channels', **inp)
        t.check(all(callable(c) for c in x.calibrations), what + ': calibration not callable', **inp)
    t.check(isinstance(s.tags, Tags), what + ': tags type', **inp)
    n = s.nb_channels
    for k, v in s.tags.items():
        t.check(isinstance(v, tuple) and len(v) > 0 and all(0 <= i < n for i in v), what + ': tag %s=%r out of range' % (k, v), **inp)
    return s


# --------------------------------------------------------------------------- generators
RATES = [1., 2., 4., 10., .1, 3., 7.5, 512., 15.3, 1 / 3.]


def gen_rate(r):
    return r.choice(RATES) if r.random() < .8 else r.uniform(.05, 600)


def gen_origin(r):
    return r.choice([0., 0., 100., -50.25, 1234567.8, 1.6e9, r.uniform(-1e3, 1e5)])


def gen_tags(r, n, k=None, names=None, repeat=False):
    names = list(names or NAMES)
    r.shuffle(names)
    k = r.randint(1, max(1, min(len(names), n + 2))) if k is None else k
    res = {}
    for nm in names[:k]:
        m = r.choice([1, 1, 2, r.randint(1, n)])
        m = min(m, n)
        res[nm] = tuple(r.choice(range(n)) for _ in range(m)) if repeat else tuple(r.sample(range(n), m))
    return res


def gen_spans(r, nruns, rates=None, origin_=None, sizes=(1, 40), gap0=True):
    " (rate, start, size) of disjoint runs "
    t = gen_origin(r) if origin_ is None else origin_
    res = []
    rates = rates or [gen_rate(r) for _ in range(r.randint(1, 2))]
    for _ in range(nruns):
        rate = r.choice(rates)
        size = r.randint(*sizes)
        res.append((rate, t, size))
        stop = t + (size - 1) / rate
        k = r.random()
        if gap0 and k < .15:
            t = stop
        elif k < .4:
            t = stop + 1 / rate
        else:
            t = stop + r.choice([2 / rate, 3.5 / rate, r.uniform(.1, 50) / rate, r.uniform(0, 5)])
    return res


def build_run(r, op, k, nch, rate, start, size):
    data = [samples(op, k, c, size) for c in range(nch)]
    if r.random() < .15:
        sig = SyncSignal(data, rate, start)
        cv = [(1., 1.)] * nch
    else:
        cc = [mkcal(r, op, k, c) for c in range(nch)]
        sig = SyncSignal(data, rate, start, [c for c, _ in cc])
        cv = [v for _, v in cc]
    return sig, Run(rate, start, data, [(complex(a), complex(b)) for a, b in cv])


def gen_set(r, op=0, nch=None, nruns=None, tags=None, spans=None, shuffle=True, **kw):
    " real signal set and its model "
    nch = nch or r.randint(1, 4)
    if spans is None:
        nruns = r.randint(1, 4) if nruns is None else nruns
        spans = gen_spans(r, nruns, **kw)
    tags = gen_tags(r, nch) if tags is None else tags
    pairs = [build_run(r, op, k, nch, *sp) for k, sp in enumerate(spans)]
    order = list(range(len(pairs)))
    if shuffle and all(spans[i][2] > 1 for i in range(len(spans))):
        r.shuffle(order)
    tg = Tags(nch, **tags) if r.random() < .5 or not pairs else dict(tags)
    s = SignalSet(tg, *[pairs[i][0] for i in order])
    return s, Set(tags, nch, [m for _, m in pairs])


# --------------------------------------------------------------------------- reference operations
def bounds_of(run, a, b):
    """ (must, may): sets (as index ranges lo, hi exclusive) of the samples in [a, b]

    must: inside beyond rounding, or on a bound equal to the computed time of the sample
    may: inside up to rounding
    """
    i = np.arange(run.size)
    t = run.start + i / run.rate
    e = tol(run.start, run.stop, a, b)
    must = (t >= a) & (t <= b)
    must &= ((t >= a + e) | (t == a)) & ((t <= b - e) | (t == b))
    may = (t >= a - e) & (t <= b + e)
    return must, may


def check_piece(t, src, got, must, may, what, /, **inp):
    " got: run piece of the run src (run k of the operand op); i0 of its first sample "
    t.check(got.size >= 2, what + ': piece with less than two samples', **inp)
    t.check(len(got.data) == len(src.data), what + ': number of channels', **inp)
    first = got.data[0][0]
    t.check(first in src.data[0], what + ': samples of another run', **inp)
    i0 = int(first - src.data[0][0])
    n = got.size
    for x, y in zip(got.data, src.data):
        t.check(np.array_equal(x, y[i0:i0 + n]) and i0 + n <= src.size, what + ': samples changed or reordered', **inp)
    t.check(got.rate == src.rate, what + ': sampling rate', **inp)
    t.check(abs(got.start - src.time(i0)) <= tol(src.start, src.stop), what + ': times of the samples changed', **inp)
    t.check(list(got.cals) == list(src.cals), what + ': calibrations', **inp)
    kept = np.zeros(src.size, bool)
    kept[i0:i0 + n] = True
    t.check(not np.any(must & ~kept), what + ': a sample inside is lost', source=src, **inp)
    t.check(not np.any(kept & ~may), what + ': a sample outside is kept', source=src, **inp)


def check_pieces(t, m, got, masks, what, /, **inp):
    """ got: model of the result; masks: list of (run number, must, may) in order """
    t.check(got.tags == m.tags and got.n == m.n, what + ': tags changed', **inp)
    g = list(got.runs)
    for k, must, may in masks:
        src = m.runs[k]
        if may.sum() < 2:
            continue
        ok = g and g[0].data[0][0] in src.data[0]
        if ok:
            i0 = int(g[0].data[0][0] - src.data[0][0])
            ok = may[i0]
        if not ok:
            t.check(must.sum() < 2, what + ': run or piece lost', source=src, **inp)
            continue
        check_piece(t, src, g.pop(0), must, may, what, **inp)
    t.check(not g, what + ': additional runs', extra=g, **inp)


def gen_bound(r, m):
    " a time of interest for the set "
    runs = m.runs
    if not runs:
        return r.uniform(-10, 10)
    x = r.choice(runs)
    k = r.random()
    if k < .35:
        return x.time(r.randrange(x.size))
    if k < .5:
        return x.time(r.randrange(x.size)) + r.choice([-1, 1]) * r.choice([.5, .25, .49, .51, .01]) / x.rate
    if k < .6:
        return r.choice([x.start, x.stop])
    a, b = runs[0].start, runs[-1].stop
    return r.uniform(a - 3 / x.rate, b + 3 / x.rate)
