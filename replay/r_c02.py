" C02: ordered, non-overlapping runs of the same channels "
import numpy as np
from .core import scenario, Skip, expect_raise
from .model import *


@scenario('C02', 'building a set', 300)
def build(t):
    r = t.rng
    s, m = gen_set(r)
    t.note(m)
    invariant(t, s, 'SignalSet(...)', model=m)
    t.check(same_set(view(s), m), 'runs or tags changed', model=m)
    t.check(s.nb_runs == len(m.runs), 'nb_runs', model=m)
    for name, f in (('sampling_rates', lambda x: x.rate), ('sizes', lambda x: x.size), ('starts', lambda x: x.start),
                    ('stops', lambda x: x.stop), ('intervals', lambda x: (x.start, x.stop))):
        got = getattr(s, name)
        exp = np.array([f(x) for x in m.runs])
        t.check(np.shape(got) == exp.shape and np.allclose(got, exp, rtol=0, atol=max([tol(x.start, x.stop) for x in m.runs])), name, model=m, got=got)


@scenario('C02', 'overlapping runs rejected', 200)
def overlap(t):
    r = t.rng
    nch = r.randint(1, 3)
    spans = gen_spans(r, r.randint(2, 4), sizes=(2, 40))
    k = r.randrange(len(spans))
    rate, start, size = spans[k]
    stop = start + (size - 1) / rate
    # another run sharing at least half a period with the run k
    rate2 = gen_rate(r)
    kind = r.choice(['after', 'before', 'inside', 'around', 'same'])
    e = .5 * min(1 / rate, (stop - start))
    if kind == 'after':
        sp = (rate2, stop - r.uniform(e, stop - start), r.randint(2, 40))
    elif kind == 'before':
        n2 = r.randint(2, 40)
        sp = (rate2, start + r.uniform(e, stop - start) - (n2 - 1) / rate2, n2)
    elif kind == 'inside':
        n2 = r.randint(2, 9)
        sp = (3 * n2 * rate, start + e * r.random() + e / 4, n2)
    elif kind == 'around':
        d = (stop - start)
        sp = (1 / (3 * d), start - d, 3)
    else:
        sp = spans[k]
    if e < 1e-4 * max(1, abs(start)) * 1e-6:
        raise Skip
    spans = spans + [sp]
    r.shuffle(spans)
    sigs = [build_run(r, 0, i, nch, *x)[0] for i, x in enumerate(spans)]
    tags = gen_tags(r, nch)
    t.note((spans, kind))
    t.check(expect_raise(lambda: SignalSet(tags, *sigs)), 'overlapping runs accepted', spans=spans, kind=kind)


@scenario('C02', 'different numbers of channels rejected', 100)
def channels(t):
    r = t.rng
    spans = gen_spans(r, r.randint(2, 4), gap0=False)
    ns = [r.randint(1, 4) for _ in spans]
    if len(set(ns)) == 1:
        raise Skip
    sigs = [build_run(r, 0, i, n, *x)[0] for i, (n, x) in enumerate(zip(ns, spans))]
    tags = {'Ex': 0}
    t.note((ns, spans))
    t.check(expect_raise(lambda: SignalSet(tags, *sigs)), 'runs with different numbers of channels accepted', n=ns)


@scenario('C02', 'signals: sizes and calibrations', 300)
def sync(t):
    r = t.rng
    n = r.randint(1, 4)
    sizes = [r.randint(1, 30)] * n
    bad = r.random() < .5
    if bad:
        sizes = [s + r.choice([0, 1, -1, 5]) for s in sizes]
        sizes = [max(s, 0) for s in sizes]
    data = [samples(0, 0, c, s) for c, s in enumerate(sizes)]
    rate, start = gen_rate(r), gen_origin(r)
    cc = [mkcal(r, 0, 0, c) for c in range(n)]
    k = r.random()
    cals, exp = [c for c, _ in cc], [v for _, v in cc]
    if k < .3:
        cals, exp = None, [(1., 1.)] * n
    elif k < .5:
        m = r.choice([1, -1, 3])
        cals = (cals + [1., 2., 3.])[:max(n + m, 1)]
    elif k < .6:
        v = r.choice([2, 3.5, 1 - 2j, np.float64(4)])
        cals, exp = [v] * n, [(v, v)] * n
    ok = len(set(sizes)) == 1 and (cals is None or len(cals) == n)
    t.note((sizes, k, rate, start))
    inp = dict(sizes=sizes, calibrations=cals, rate=rate, start=start)
    if not ok:
        t.check(expect_raise(lambda: SyncSignal(data, rate, start, cals)), 'wrong sizes or calibrations accepted', **inp)
        return
    cont = r.choice([tuple, list, iter])
    s = SyncSignal(cont(data), rate, start, cals)
    got = [(c(F1), c(F2)) for c in s.calibrations]
    t.check(got == [tuple(map(complex, e)) for e in exp] or got == exp, 'calibrations', got=got, exp=exp, **inp)
    t.check(s.size == sizes[0] and s.sampling_rate == rate and s.start == start, 'fields', **inp)
    t.check(len(s.data) == n and all(np.array_equal(a, b) for a, b in zip(s.data, data)), 'data', **inp)
    t.check(abs(s.stop - (start + (sizes[0] - 1) / rate)) <= tol(start, s.stop), 'stop', **inp)
    t.check(s.interval == (s.start, s.stop), 'interval', **inp)


@scenario('C02', 'sets built by operations', 250)
def ops(t):
    r = t.rng
    s, m = gen_set(r, nruns=r.randint(1, 4), sizes=(3, 40))
    t.note(m)
    tags = list(m.tags)
    for _ in range(3):
        k = r.choice(['select', 'runs', 'extract', 'exclude', 'consecutive', 'join', 'merge', 'filter', 'pack'])
        if k == 'select':
            s = s[r.choice(list(s.tags) or [0])] if len(s.tags) else s
        elif k == 'runs':
            if s.nb_runs:
                s = s[:, sorted(r.sample(range(s.nb_runs), r.randint(1, s.nb_runs)))]
        elif k in ('extract', 'exclude'):
            a, b = sorted([gen_bound(r, m), gen_bound(r, m)])
            if b - a < 1e-3:
                continue
            s = s.extract_t(a, b, exclude=(k == 'exclude'))
        elif k == 'consecutive':
            s = s.merge_consecutive_runs()
        elif k == 'join':
            if s.nb_runs > 1:
                s = s[:, 1:] | s[:, 0]
        elif k == 'merge':
            o = SignalSet({'new%d' % r.randint(0, 999): 0}, *[SyncSignal([samples(9, i, 0, x.size)], x.sampling_rate, x.start) for i, x in enumerate(s.signals)])
            if o.nb_runs and not set(o.tags) & set(s.tags):
                s = s & o
        elif k == 'filter':
            got = list(Inventory([s]).filter('*'))
            s = got[0] if got else s
        else:
            s = Inventory([s]).pack() if len(s.tags) == s.nb_channels and s.nb_runs else s
        invariant(t, s, k, model=m)
