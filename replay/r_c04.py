" C04: channel selection "
import numpy as np
from .core import scenario, Skip, expect_raise
from .model import *


def check_sel(t, m, got, idx, what, /, **inp):
    " got: real result; idx: sorted channels "
    g = view(invariant(t, got, what, **inp))
    t.check(g.n == len(idx), what + ': number of channels', **inp)
    t.check(len(g.runs) == len(m.runs), what + ': number of runs', **inp)
    for x, y in zip(m.runs, g.runs):
        t.check(x.rate == y.rate and x.start == y.start and x.size == y.size, what + ': times', **inp)
        t.check(all(np.array_equal(y.data[p], x.data[c]) for p, c in enumerate(idx)), what + ': data', **inp)
        t.check(all(y.cals[p] == x.cals[c] for p, c in enumerate(idx)), what + ': calibrations', **inp)
    keep = {k: v for k, v in m.tags.items() if set(v) <= set(idx)}
    t.check(set(g.tags) == set(keep), what + ': tags kept', got=g.tags, **inp)
    for k, v in keep.items():
        t.check([idx[p] for p in g.tags[k]] == list(v), what + ': tag %s on other channels' % k, got=g.tags, **inp)


@scenario('C04', 'selections', 500)
def sel(t):
    r = t.rng
    s, m = gen_set(r, nch=r.randint(1, 6))
    n = m.n
    kind = r.choice(['name', 'index', 'slice', 'names', 'mix', 'attr', 'indices', 'npint'])
    if kind == 'name' or kind == 'attr':
        ident = r.choice(list(m.tags))
        idx = m.tags[ident]
    elif kind == 'index':
        ident = r.randrange(n)
        idx = [ident]
    elif kind == 'npint':
        ident = np.int64(r.randrange(n))
        idx = [int(ident)]
    elif kind == 'slice':
        f = lambda: r.choice([None, r.randint(-n - 1, n + 1)])
        ident = slice(f(), f(), r.choice([None, 1, 2, -1, -2]))
        idx = range(n)[ident]
    else:
        parts, idx = [], []
        for _ in range(r.randint(1, 4)):
            if kind != 'indices' and (kind == 'names' or r.random() < .5):
                k = r.choice(list(m.tags))
                parts.append(k)
                idx += m.tags[k]
            else:
                c = r.randrange(n)
                parts.append(c)
                idx.append(c)
        ident = r.choice([list, tuple])(parts)
        if kind == 'indices' and r.random() < .3:
            ident = set(parts)
    idx = sorted(set(idx))
    if not idx:
        raise Skip
    t.note((m, repr(ident)), '%r [%r]' % (m, ident))
    inp = dict(tags=m.tags, n=n, ident=ident)
    if kind == 'attr':
        if ident in dir(SignalSet):
            raise Skip
        got = getattr(s, ident)
    elif r.random() < .5 or isinstance(ident, tuple):
        got = s.select_channels(ident)
    else:
        got = s[ident] if r.random() < .5 else s[ident, :]
    check_sel(t, m, got, idx, kind, **inp)


@scenario('C04', 'unknown identifiers', 150)
def unknown(t):
    r = t.rng
    s, m = gen_set(r)
    bad = r.choice(['nope', 'ex', '', m.n, -1, m.n + 3, 0.5, 'E*', next(iter(m.tags)) + '_'])
    if bad in m.tags:
        raise Skip
    k = r.random()
    ident = bad
    if k < .5:
        ident = [r.choice(list(m.tags) + list(range(m.n))) for _ in range(r.randint(0, 2))] + [bad]
        r.shuffle(ident)
    t.note((m.tags, repr(ident)))
    t.check(expect_raise(lambda: s.select_channels(ident), ValueError), 'unknown identifier accepted, or another error than ValueError', ident=ident, tags=m.tags, n=m.n)
    t.check(expect_raise(lambda: s[ident] if not isinstance(ident, tuple) else s[ident, :], ValueError), 'unknown identifier accepted by indexing', ident=ident, tags=m.tags)
    t.check(expect_raise(lambda: getattr(s, 'unknown_attribute')), 'unknown attribute accepted')


@scenario('C04', 'successive selections', 150)
def twice(t):
    r = t.rng
    s, m = gen_set(r, nch=r.randint(2, 6))
    a = sorted(r.sample(range(m.n), r.randint(1, m.n)))
    s1 = s.select_channels(a)
    m1 = view(s1)
    b = sorted(r.sample(range(len(a)), r.randint(1, len(a))))
    t.note((m.tags, a, b))
    check_sel(t, m, s.select_channels(a), a, 'first', tags=m.tags, a=a)
    check_sel(t, m1, s1.select_channels(b), b, 'second', tags=m.tags, a=a, b=b)
    check_sel(t, m, s1.select_channels(b), [a[i] for i in b], 'both', a=a, b=b)
