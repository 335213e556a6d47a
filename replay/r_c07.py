" C07: merging channels "
import itertools
import numpy as np
from .core import scenario, Skip, expect_raise
from .model import *


def grid_spans(r, rates, o, shift=0.):
    " runs on the grids of the rates: (rate, start, size) with start = o + k / rate "
    res, t = [], r.uniform(0, 3)
    for _ in range(r.randint(1, 4)):
        rate = r.choice(rates)
        k = int(np.ceil(t * rate)) + r.choice([0, 0, 1, 3])
        size = r.randint(1, 30)
        res.append((rate, o + k / rate + shift / rate, size))
        t = (k + size - 1) / rate + r.choice([1 / rate, 1 / rate, 2 / rate, .7, 3.])
    return res


def operands(r, shift=0., nops=None):
    o = r.choice([0., 0., 100., 1234567.8, 1.6e9])
    nr = r.choice([1, 1, 2])
    rates = r.sample([1., 2., 4., 10., 3., 7.5, 64., 1 / 3.], nr)
    names = list(NAMES)
    r.shuffle(names)
    res = []
    for i in range(nops or r.randint(2, 3)):
        n = r.randint(1, 3)
        k = r.randint(1, 3)
        tags = gen_tags(r, n, k=k, names=names[:k])
        names = names[k:]
        sp = grid_spans(r, rates, o, shift if i else 0.)
        if shift and any(a[1] + (a[2] - 1) / a[0] > b[1] for a, b in zip(sp, sp[1:])):
            raise Skip
        res.append(gen_set(r, op=i, nch=n, tags=tags, spans=sp))
    return res


def expected(ms):
    " list of (per operand (run, i0), size, start): common spans of at least two samples "
    res = []
    for combo in itertools.product(*[m.runs for m in ms]):
        if len({x.rate for x in combo}) > 1:
            continue
        rate = combo[0].rate
        ref = combo[0].start
        k0 = [int(round((x.start - ref) * rate)) for x in combo]
        lo = max(k0)
        hi = min(k + x.size for k, x in zip(k0, combo))
        if hi - lo >= 2:
            res.append(([(x, lo - k) for k, x in zip(k0, combo)], hi - lo))
    return res


def check_merge(t, ms, got, what, /, **inp):
    g = view(invariant(t, got, what, **inp))
    shift = np.cumsum([0] + [m.n for m in ms])
    t.check(g.n == shift[-1], what + ': number of channels', **inp)
    tags = {k: tuple(int(c + i) for i in v) for c, m in zip(shift, ms) for k, v in m.tags.items()}
    t.check(set(g.tags) == set(tags), what + ': tag names', got=g.tags, **inp)
    exp = expected(ms)
    t.check(len(g.runs) == len(exp), what + ': number of common spans', got=g.runs, expected=[e[1] for e in exp], **inp)
    left = list(g.runs)
    for combo, size in exp:
        hit = None
        for y in left:
            ok = y.size == size and y.rate == combo[0][0].rate
            ok = ok and all(abs(y.start - x.time(i0)) <= 2 * tol(x.start, x.stop, y.start) for x, i0 in combo)
            for m, (x, i0) in zip(ms, combo):
                for k, v in m.tags.items():
                    ok = ok and len(g.tags[k]) == len(v) and all(
                        np.array_equal(y.data[p], x.data[c][i0:i0 + size]) and y.cals[p] == x.cals[c]
                        for p, c in zip(g.tags[k], v))
            if ok:
                hit = y
                break
        t.check(hit is not None, what + ': common span lost, shifted or changed', span=combo, size=size, got=g.runs, **inp)
        left.remove(hit)


@scenario('C07', 'common spans', 400)
def common(t):
    r = t.rng
    ops = operands(r)
    ms = [m for _, m in ops]
    t.note(ms)
    ss = [s for s, _ in ops]
    if r.random() < .6:
        got = ss[0].merge(*ss[1:])
    else:
        got = ss[0]
        for s in ss[1:]:
            got = got & s
    check_merge(t, ms, got, 'merge', operands=ms)


@scenario('C07', 'clocks not aligned', 200)
def unaligned(t):
    r = t.rng
    sh = r.choice([.5, .25, .1, -.3, .01, .9])
    ops = operands(r, shift=sh, nops=2)
    ms = [m for _, m in ops]
    t.note((ms, sh))
    shared = False
    for x, y in itertools.product(ms[0].runs, ms[1].runs):
        if x.rate == y.rate and min(x.stop, y.stop) - max(x.start, y.start) > 0:
            shared = True
    if not shared or 1e-3 / max(x.rate for m in ms for x in m.runs) < tol(ms[0].runs[-1].stop):
        raise Skip
    try:
        got = ops[0][0].merge(ops[1][0])
    except Exception:
        return
    g = view(got)
    # nothing may be paired
    t.check(not g.runs, 'channels with different clocks merged', operands=ms, shift=sh, got=g.runs)


@scenario('C07', 'common tags rejected', 80)
def names(t):
    r = t.rng
    ops = operands(r)
    (a, ma), (b, mb) = ops[:2]
    k = r.choice(list(ma.tags))
    tags = dict(mb.tags)
    tags[k] = (0,)
    b2, mb2 = gen_set(r, op=1, nch=mb.n, tags=tags, spans=[(x.rate, x.start, x.size) for x in mb.runs])
    t.note((ma.tags, mb2.tags))
    inp = dict(first=ma.tags, second=tags)
    t.check(expect_raise(lambda: a.merge(b2)), 'common tag accepted', **inp)
    t.check(expect_raise(lambda: b2 & a), 'common tag accepted', **inp)
    t.check(expect_raise(lambda: a & a), 'a set merged with itself', **inp)
    if len(ops) > 2:
        t.check(expect_raise(lambda: ops[2][0].merge(a, b2)), 'common tag accepted', **inp)
    t.check(expect_raise(lambda: a.merge(b.signals[0])), 'SyncSignal merged', **inp)


@scenario('C07', 'sets without runs', 30)
def empty(t):
    r = t.rng
    (a, ma), = operands(r, nops=1)
    b = SignalSet(Tags(2, new=(0, 1)))
    t.note(ma)
    for x, y, c in ((a, b, 0), (b, a, 2)):
        g = x.merge(y)
        t.check(g.nb_runs == 0 and g.nb_channels == ma.n + 2, 'merge without runs', operand=ma)
        exp = {k: tuple(i + c for i in v) for k, v in ma.tags.items()}
        exp['new'] = (ma.n, ma.n + 1) if c == 0 else (0, 1)
        t.check(dict(g.tags) == exp, 'tags', operand=ma, got=g.tags)


@scenario('C07', 'times on both sides of zero', 60)
def zero(t):
    r = t.rng
    rate = r.choice([10., 5., 3., 100.])
    k1 = r.randint(1, 20)
    k0 = -r.randint(1, k1)
    na, nb = k1 - k0 + r.randint(2, 20), r.randint(2, 40)
    a, ma = gen_set(r, op=0, tags={'a': (0,)}, nch=1, spans=[(rate, k0 / rate, na)])
    b, mb = gen_set(r, op=1, tags={'b': (0,)}, nch=1, spans=[(rate, k1 / rate, nb)])
    t.note((rate, k0, k1, na, nb))
    check_merge(t, [ma, mb], a & b, 'merge', operands=[ma, mb])
    check_merge(t, [mb, ma], b & a, 'merge', operands=[mb, ma])
