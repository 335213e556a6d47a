" C29: selections in an inventory "
import fnmatch
import numpy as np
from .core import scenario, Skip, expect_raise
from .model import *


@scenario('C29', 'filter and selections', 250)
def filt(t):
    r = t.rng
    sets = []
    for i in range(r.randint(0, 4)):
        sets.append(gen_set(r, op=i, nruns=r.randint(1, 3)))
    ms = [m for _, m in sets]
    inv = Inventory([s for s, _ in sets])
    t.note(ms)
    kind = r.choice(['filter', 'select', 'runs', 'extract'])
    if kind in ('filter', 'select'):
        pats = [r.choice(['E*', 'H?', '*', 'nope', 'site*', 'r[xy]', '[!E]*', 'Ex', '*_*']) for _ in range(r.randint(1, 3))]
        alltags = {k for m in ms for k in m.tags}
        if kind == 'filter':
            keys = {k for k in alltags if any(fnmatch.fnmatch(k, p) for p in pats)}
            got = inv.filter(*pats)
        else:
            keys = set(r.sample(sorted(alltags) + ['nope'], min(len(alltags) + 1, r.randint(1, 3))))
            got = inv.select_channels(*keys)
        exp = []
        for s, m in sets:
            idx = sorted({i for k in keys if k in m.tags for i in m.tags[k]})
            if idx:
                exp.append(view(s.select_channels(idx)))
        what = '%s %r' % (kind, pats if kind == 'filter' else keys)
    elif kind == 'runs':
        sel = [np.array([r.random() < .6 for _ in m.runs]) for m in ms]
        got = inv.select_runs(sel)
        exp = [view(s.select_runs(f)) for (s, m), f in zip(sets, sel) if f.any()]
        what = 'select_runs'
        if sets:
            t.check(expect_raise(lambda: inv.select_runs(sel[1:])), 'wrong number of selections accepted', sets=ms)
    else:
        a, b = sorted([gen_bound(r, r.choice(ms)) if ms else 0., 1e3 * r.random()])
        if r.random() < .5:
            exclude = r.random() < .5
            got = inv.extract_t(a, b, exclude=exclude)
        else:
            exclude = False
            got = inv.extract_t(a, b)
        exp = [view(s.extract_t(a, b, exclude=exclude)) for s, _ in sets]
        exp = [e for e in exp if e.runs]
        what = 'extract_t(exclude=%s)' % exclude
    got = [view(invariant(t, g, what)) for g in got]
    t.check(len(got) == len(exp), what + ': number of sets', got=got, expected=exp, sets=ms)
    for g, e in zip(got, exp):
        t.check(same_set(g, e), what + ': set differs', got=g, expected=e, sets=ms)
    t.check(inv.tags == {k for m in ms for k in m.tags}, 'tags of the inventory', sets=ms)


@scenario('C29', 'content', 60)
def content(t):
    r = t.rng
    s, m = gen_set(r)
    s2, m2 = gen_set(r, op=1)
    bad = r.choice([s.signals[0], None, 3, 'x', [s], s.tags, {}])
    t.note((m, repr(bad)[:40]))
    inv = Inventory([s])
    for f in (lambda: inv.append(bad), lambda: inv.extend([bad]), lambda: Inventory([s, bad])):
        t.check(expect_raise(f), 'something else than a signal set accepted', bad=bad)
    t.check(len(inv) == 1 and inv[0] is s, 'content changed by a rejection', bad=bad)
    inv.append(s2)
    inv2 = inv + Inventory([s])
    t.check([x for x in inv] == [s, s2] and [x for x in inv2] == [s, s2, s], 'content or order', m=m)
    t.check(Inventory().pack().nb_runs == 0 and not Inventory(), 'empty inventory')
