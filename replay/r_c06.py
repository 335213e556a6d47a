" C06: joining signal sets "
import numpy as np
from .core import scenario, Skip, expect_raise
from .model import *


def reorder(r, tags, n, extra=0):
    """ the same tags over a permutation of the channels (data of tag k keep their order) """
    perm = list(range(n))
    r.shuffle(perm)
    return {k: tuple(perm[i] for i in v) for k, v in tags.items()}, perm


def operands(r, nch=None):
    " real sets and models with the same tags and disjoint runs "
    n = nch or r.randint(1, 5)
    tags = gen_tags(r, n)
    # every channel must be named for the join of other orders
    for c in range(n):
        if not any(c in v for v in tags.values()):
            tags['ch%d' % c] = (c,)
    nops = r.randint(2, 4)
    spans = gen_spans(r, r.randint(nops, nops + 4), sizes=(2, 30))
    owner = [r.randrange(nops) for _ in spans]
    res = []
    for o in range(nops):
        tg, _ = reorder(r, tags, n) if o and r.random() < .8 else (tags, None)
        items = list(tg.items())
        r.shuffle(items)
        res.append(gen_set(r, op=o, nch=n, tags=dict(items), spans=[sp for sp, w in zip(spans, owner) if w == o]))
    return tags, n, res


def check_join(t, ms, got, what, /, **inp):
    first = ms[0]
    g = view(invariant(t, got, what, **inp))
    t.check(g.tags == first.tags and g.n == first.n, what + ': tags of the first operand', got=g.tags, **inp)
    pool = [(m, x) for m in ms for x in m.runs]
    t.check(len(g.runs) == len(pool), what + ': number of runs', got=g.runs, **inp)
    pool.sort(key=lambda e: (e[1].start, e[1].stop))
    left = list(g.runs)
    for m, x in pool:
        # the run of the result holding the data of x
        hit = None
        for y in left:
            if y.key() == x.key() and all(
                    [list(y.data[i]) for i in g.tags[k]] == [list(x.data[i]) for i in m.tags[k]]
                    and [y.cals[i] for i in g.tags[k]] == [x.cals[i] for i in m.tags[k]]
                    for k in g.tags):
                hit = y
                break
        t.check(hit is not None, what + ': run lost, changed or mislabelled', run_=x, got=g.runs, **inp)
        left.remove(hit)


@scenario('C06', 'same tags, any order of channels', 300)
def join(t):
    r = t.rng
    tags, n, ops = operands(r)
    ms = [m for _, m in ops]
    t.note(ms)
    ss = [s for s, _ in ops]
    k = r.random()
    if k < .4:
        got = ss[0].join(*ss[1:])
    elif k < .7:
        got = ss[0]
        for s in ss[1:]:
            got = got | s
    elif k < .85:
        got = SignalSet(ss[0].tags, *ss)
    else:
        got = SignalSet(dict(ss[0].tags), *ss)
    check_join(t, ms, got, 'join', operands=ms)


@scenario('C06', 'join with a signal', 80)
def sync(t):
    r = t.rng
    n = r.randint(1, 4)
    spans = gen_spans(r, r.randint(2, 4), sizes=(2, 30))
    tags = gen_tags(r, n)
    s, m = gen_set(r, nch=n, tags=tags, spans=spans[:-1])
    sig, x = build_run(r, 3, 0, n, *spans[-1])
    t.note((m, x))
    for got in (s | sig, s.join(sig)):
        check_join(t, [m, Set(tags, n, [x])], got, 'join with a signal', operand=m)
    got = Tags(n, **tags) | sig
    check_join(t, [Set(tags, n, [x])], got, 'tags | signal', operand=x)


@scenario('C06', 'incompatible operands', 200)
def reject(t):
    r = t.rng
    tags, n, ops = operands(r, nch=r.randint(2, 4))
    (a, ma), (b, mb) = ops[:2]
    kind = r.choice(['missing', 'added', 'renamed', 'length', 'overlap'])
    new = dict(mb.tags)
    k = r.choice(list(new))
    if kind == 'missing':
        if len(new) == 1:
            raise Skip
        del new[k]
    elif kind == 'added':
        new['added'] = (0,)
    elif kind == 'renamed':
        new['renamed'] = new.pop(k)
    elif kind == 'length':
        v = new[k]
        new[k] = v + ((v[-1] + 1) % n,) if r.random() < .5 or len(v) == 1 else v[:-1]
    if kind == 'overlap':
        if not ma.runs:
            raise Skip
        x = r.choice(ma.runs)
        b, mb = gen_set(r, op=5, nch=n, tags=mb.tags, spans=[(x.rate, x.time(r.randrange(x.size - 1)), r.randint(2, 9))])
    else:
        b, mb = gen_set(r, op=5, nch=n, tags=new, spans=[x.key() for x in mb.runs])
    t.note((kind, ma.tags, mb.tags))
    inp = dict(kind=kind, first=ma, second=mb)
    t.check(expect_raise(lambda: a.join(b)), 'incompatible sets joined', **inp)
    t.check(expect_raise(lambda: b | a), 'incompatible sets joined (reversed)', **inp)


@scenario('C06', 'ambiguous tags', 60)
def ambiguous(t):
    r = t.rng
    n = r.randint(2, 3)
    # tags of the first operand naming one channel twice, of the second naming two channels
    sp = gen_spans(r, 2, sizes=(2, 20))
    a, ma = gen_set(r, op=0, nch=n, tags={'a': (0,), 'b': (0,)}, spans=sp[:1])
    b, mb = gen_set(r, op=1, nch=n, tags={'a': (0,), 'b': (1,)}, spans=sp[1:])
    t.note((ma, mb))
    # two different channels can not be given by one: joining must not pick one of them
    t.check(expect_raise(lambda: a.join(b)), 'two channels mapped to one', first=ma, second=mb)
