" C05: run selection "
import numpy as np
from .core import scenario, Skip, expect_raise
from .model import *


def index(r, n):
    k = r.choice(['int', 'neg', 'list', 'slice', 'mask', 'array', 'npint', 'masklist', 'empty', 'where'])
    if k == 'int' or (k in ('neg', 'npint')):
        i = r.randrange(n)
        return {'int': i, 'neg': i - n, 'npint': np.int64(i - n * r.randint(0, 1))}[k]
    if k in ('list', 'array'):
        v = [i - n * r.randint(0, 1) for i in r.sample(range(n), r.randint(1, n))]
        return v if k == 'list' else np.array(v)
    if k == 'slice':
        f = lambda: r.choice([None, r.randint(-n - 1, n + 1)])
        return slice(f(), f(), r.choice([None, None, 1, 2, -1, -2, 3]))
    mask = [r.random() < .5 for _ in range(n)]
    if k == 'mask':
        return np.array(mask)
    if k == 'masklist':
        return mask
    if k == 'where':
        return np.where(mask)
    return r.choice([[], slice(0, 0), np.zeros(n, bool)])


@scenario('C05', 'selections', 500)
def sel(t):
    r = t.rng
    s, m = gen_set(r, nruns=r.randint(1, 7))
    i = index(r, len(m.runs))
    picked = sorted(np.atleast_1d(np.arange(len(m.runs))[i]).tolist())
    t.note((m, repr(i)), '%r runs[%r]' % (m, i))
    inp = dict(index=i, runs=m.runs)
    how = r.random()
    if how < .5:
        got = s.select_runs(i)
    else:
        got = s[:, i]
    g = view(invariant(t, got, 'select_runs', **inp))
    exp = Set(m.tags, m.n, [m.runs[k] for k in picked])
    t.check(len(g.runs) == len(exp.runs), 'number of runs', got=g.runs, **inp)
    t.check(same_set(g, exp), 'runs or tags differ', got=g, **inp)


@scenario('C05', 'channels and runs', 200)
def both(t):
    r = t.rng
    s, m = gen_set(r, nruns=r.randint(1, 5))
    i = index(r, len(m.runs))
    c = r.choice(list(m.tags) + list(range(m.n)) + [list(m.tags), slice(None)])
    t.note((m, repr(i), c))
    inp = dict(channels=c, index=i, tags=m.tags, runs=m.runs)
    a, b = view(s[c, i]), view(s.select_channels(c).select_runs(i))
    t.check(same_set(a, b), 's[c, r] differs from select_channels(c).select_runs(r)', **inp)
    x = view(s.select_runs(i).select_channels(c))
    t.check(same_set(a, x), 's[c, r] differs from select_runs(r).select_channels(c)', **inp)
    picked = sorted(np.atleast_1d(np.arange(len(m.runs))[i]).tolist())
    t.check([y.start for y in a.runs] == [m.runs[k].start for k in picked], 'runs', **inp)


@scenario('C05', 'out of range', 80)
def out(t):
    r = t.rng
    s, m = gen_set(r)
    n = len(m.runs)
    i = r.choice([n, -n - 1, [n], [0, n], n + 5, [-n - 1]])
    t.note((n, repr(i)))
    t.check(expect_raise(lambda: s.select_runs(i), IndexError), 'index out of range accepted', n=n, index=i)
    t.check(expect_raise(lambda: s[:, i], IndexError), 'index out of range accepted', n=n, index=i)
    t.check(expect_raise(lambda: s[0, 0, 0], IndexError), 'too many indices accepted', n=n)
    t.check(expect_raise(lambda: s.select_runs(np.ones(n + 1, bool))), 'mask of the wrong length accepted', n=n)
