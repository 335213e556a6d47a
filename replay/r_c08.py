" C08: merging consecutive runs "
import numpy as np
from .core import scenario, Skip, expect_raise
from .model import *


def spans(r):
    " (rate, start, size) with the list of the links (True: consecutive to the previous one) "
    t = r.choice([0., 0., 10., -33.25, 1234567.8, 1.6e9])
    rates = r.choice([[1.], [2.], [512.], [.1], [15.3], [1., 2.], [4., 512.], [1 / 3., 3.], [7.5, 10., 1.], [1., 1.000001], [512., 512.0005],
                      [10., 10.01]])
    res, links = [], []
    n = r.randint(1, 8)
    for k in range(n):
        rate = r.choice(rates)
        if k:
            prate, pstart, psize = res[-1]
            stop = pstart + (psize - 1) / prate
            x = r.random()
            if x < .55:
                start = stop + 1 / prate
                link = rate == prate
                if not link and r.random() < .5:
                    start = stop + 1 / rate
            else:
                link = False
                gap = r.choice([2, 1.5, 1.01, .9, 3, 10, .5, 100.])
                start = stop + gap / prate
                if abs(gap - 1) < .05 and .005 / prate < 1e-6 + tol(start):
                    start = stop + 2 / prate
            links.append(link)
        else:
            start = t
        res.append((rate, start, r.randint(1, 12)))
    return res, links


def check_groups(t, m, groups, got, what, /, **inp):
    g = view(invariant(t, got, what, **inp))
    t.check(g.tags == m.tags and g.n == m.n, what + ': tags', **inp)
    t.check(len(g.runs) == len(groups), what + ': groups', got=[x.size for x in g.runs], groups=groups, **inp)
    for y, grp in zip(g.runs, groups):
        xs = [m.runs[k] for k in grp]
        t.check(y.rate == xs[0].rate and y.start == xs[0].start, what + ': start or rate of a merged run', group=grp, **inp)
        t.check(list(y.cals) == list(xs[0].cals), what + ': calibrations', group=grp, **inp)
        for c in range(m.n):
            e = np.concatenate([x.data[c] for x in xs])
            t.check(np.array_equal(y.data[c], e), what + ': samples', group=grp, channel=c, **inp)


@scenario('C08', 'groups', 500)
def groups(t):
    r = t.rng
    sp, links = spans(r)
    s, m = gen_set(r, nch=r.randint(1, 3), spans=sp, shuffle=False)
    grp = [[0]]
    for k, l in enumerate(links, 1):
        if l:
            grp[-1].append(k)
        else:
            grp.append([k])
    t.note((sp, links))
    got = s.merge_consecutive_runs()
    check_groups(t, m, grp, got, 'merge_consecutive_runs', spans=sp, links=links)
    again = got.merge_consecutive_runs()
    t.check(same_set(view(again), view(got)), 'merging again changes the set', spans=sp)


@scenario('C08', 'cut then merged again', 150)
def cut(t):
    r = t.rng
    s, m = gen_set(r, nruns=1, sizes=(8, 60))
    x = m.runs[0]
    pieces, i = [], 0
    while i < x.size:
        n = min(r.randint(1, 12), x.size - i)
        pieces.append((i, n))
        i += n
    sig = s.signals[0]
    parts = [sig.extract_i(i, i + n) for i, n in pieces]
    r.shuffle(parts)
    t.note((m, pieces))
    try:
        c = SignalSet(m.tags, *parts)
    except AssertionError:
        raise Skip
    g = view(c.merge_consecutive_runs())
    t.check(len(g.runs) == 1 and same_run(g.runs[0], x, tol(x.start, x.stop)), 'cutting then merging changes the run', run_=x, pieces=pieces)


@scenario('C08', 'without runs', 10)
def empty(t):
    n = t.rng.randint(1, 4)
    tags = gen_tags(t.rng, n)
    t.note((n, tags))
    g = SignalSet(Tags(n, **tags)).merge_consecutive_runs()
    t.check(g.nb_runs == 0 and dict(g.tags) == tags, 'tags', tags=tags)
