" C01: extraction of time intervals "
import numpy as np
from .core import scenario, Skip, expect_raise
from .model import *


def pick(r, m):
    a, b = gen_bound(r, m), gen_bound(r, m)
    if a > b:
        a, b = b, a
    k = r.random()
    if k < .1:
        a = -np.inf
    elif k < .2:
        b = np.inf
    return a, b


@scenario('C01', 'signal set', 400)
def sset(t):
    r = t.rng
    s, m = gen_set(r)
    a, b = pick(r, m)
    t.note((m, a, b), '%r -> [%r, %r]' % (m, a, b))
    got = view(invariant(t, s.extract_t(a, b), 'extract_t', start=a, stop=b))
    masks = [(k,) + bounds_of(x, a, b) for k, x in enumerate(m.runs)]
    check_pieces(t, m, got, masks, 'extract_t', start=a, stop=b)


@scenario('C01', 'signal set, interval excluded', 300)
def excl(t):
    r = t.rng
    s, m = gen_set(r)
    a, b = pick(r, m)
    # samples on both sides of an empty exclusion would be kept twice: not an exclusion
    e = 4 * tol(a, b, *[x.stop for x in m.runs])
    if np.isfinite(a) and np.isfinite(b) and b - a <= e:
        raise Skip
    t.note((m, a, b), '%r -> exclude [%r, %r]' % (m, a, b))
    got = view(invariant(t, s.extract_t(a, b, exclude=True), 'extract_t exclude', start=a, stop=b))
    masks = []
    for k, x in enumerate(m.runs):
        masks.append((k,) + bounds_of(x, -np.inf, a))
        masks.append((k,) + bounds_of(x, b, np.inf))
    masks.sort(key=lambda e: e[0])
    check_pieces(t, m, got, masks, 'extract_t(exclude=True)', start=a, stop=b)


@scenario('C01', 'one signal', 300)
def sync(t):
    r = t.rng
    s, m = gen_set(r, nruns=1)
    x = m.runs[0]
    a, b = pick(r, m)
    must, may = bounds_of(x, a, b)
    if a > x.stop or b < x.start:
        raise Skip
    t.note((m, a, b), '%r -> [%r, %r]' % (m, a, b))
    strict = np.isfinite(a) and np.isfinite(b) and r.random() < .5
    inp = dict(start=a, stop=b, strict=strict, run=x)
    if strict and not (x.start <= a <= x.stop and x.start <= b <= x.stop):
        t.check(expect_raise(lambda: s.signals[0].extract_t(a, b, strict=True)), 'strict: outside accepted', **inp)
        return
    try:
        res = s.signals[0].extract_t(a, b, strict=strict)
    except AssertionError:
        t.check(strict and must.sum() == 0, 'interval rejected', **inp)
        return
    got = view_run(res)
    if got.size < 2:
        t.check(must.sum() <= got.size, 'a sample is lost', **inp)
        if got.size:
            i0 = int(got.data[0][0] - x.data[0][0])
            t.check(may[i0] and abs(got.start - x.time(i0)) <= tol(x.start, x.stop), 'wrong sample kept', **inp)
        return
    check_piece(t, x, got, must, may, 'SyncSignal.extract_t', **inp)


@scenario('C01', 'inventory', 120)
def inv(t):
    r = t.rng
    o = gen_origin(r)
    sets = [gen_set(r, op=i, origin_=o + r.uniform(0, 5)) for i in range(r.randint(1, 3))]
    a, b = pick(r, r.choice(sets)[1])
    exclude = r.random() < .3
    if exclude and b - a <= 1e-6:
        raise Skip
    t.note(([m for _, m in sets], a, b, exclude))
    got = list(Inventory([s for s, _ in sets]).extract_t(a, b, exclude))
    exp = [s.extract_t(a, b, exclude) for s, _ in sets]
    exp = [view(e) for e in exp if e.nb_runs]
    t.check(len(got) == len(exp), 'sets of the inventory', start=a, stop=b)
    for g, e in zip(got, exp):
        t.check(same_set(view(g), e), 'set of the inventory differs', start=a, stop=b)


@scenario('C01', 'sets without runs', 20)
def empty(t):
    r = t.rng
    n = r.randint(1, 4)
    tags = gen_tags(r, n)
    s = SignalSet(Tags(n, **tags))
    a = r.uniform(-5, 5)
    t.note((n, tags, a))
    for e in (False, True):
        g = s.extract_t(a, a + 1, exclude=e)
        t.check(g.nb_runs == 0 and dict(g.tags) == tags and g.nb_channels == n, 'empty set changed', exclude=e)
