" C03: tags only name existing channels "
import numpy as np
from .core import scenario, Skip, expect_raise
from .model import *


def good(v):
    return v if isinstance(v, tuple) else (v,)


def check_tags(t, tags, ref, n, what, /, **inp):
    got = dict(tags.items())
    t.check(got == ref and len(tags) == len(ref) and set(tags) == set(ref), what + ': tags', got=got, expected=ref, **inp)
    for k, v in got.items():
        t.check(isinstance(v, tuple) and len(v) > 0 and all(0 <= i < n for i in v), what + ': value out of range', tag=(k, v), **inp)
        t.check(tags[k] == v and getattr(tags, k) == v and tags.get(k) == v and k in tags, what + ': access', tag=(k, v), **inp)


def value(r, n):
    " (value, expected tuple or None when it must be rejected) "
    k = r.random()
    if k < .25:
        i = r.randrange(n)
        return i, (i,)
    if k < .6:
        v = tuple(r.randrange(n) for _ in range(r.randint(1, 3)))
        return r.choice([tuple, list, (lambda x: iter(x)), (lambda x: np.array(x))])(v), v
    v = [r.randrange(n) for _ in range(r.randint(0, 2))] + [r.choice([n, -1, n + 5, -n])]
    r.shuffle(v)
    return r.choice([(v[0] if len(v) == 1 else v), tuple(v), (), []]), None


BAD = ['', '1x', '_a', ' a', 3, None, ('a',)]


@scenario('C03', 'sequences of assignments', 300)
def seq(t):
    r = t.rng
    n = r.randint(1, 6)
    ref = gen_tags(r, n, repeat=True)
    if r.random() < .3:
        tags = Tags(**ref)
        n = 1 + max(i for v in ref.values() for i in v)
    else:
        tags = Tags(n, **ref)
    check_tags(t, tags, ref, n, 'Tags(...)')
    log = []
    for _ in range(r.randint(1, 12)):
        names = list(ref) + r.sample(NAMES, 3)
        k = r.choice(['set', 'set', 'attr', 'update', 'del', 'delattr', 'pop', 'bad', 'setdefault', 'copy'])
        nm = r.choice(names)
        v, exp = value(r, n)
        log.append((k, nm, exp))
        inp = dict(n=n, log=log)

        def do():
            if k == 'set':
                tags[nm] = v
            elif k == 'attr':
                setattr(tags, nm, v)
            elif k == 'update':
                tags.update({nm: v})
            elif k == 'setdefault':
                tags.setdefault(nm, v)
        if k in ('set', 'attr', 'update') or (k == 'setdefault' and nm not in ref):
            if exp is None:
                t.check(expect_raise(do), 'wrong value accepted', value=v, **inp)
            else:
                do()
                ref[nm] = exp
        elif k == 'setdefault':
            t.check(tags.setdefault(nm, v) == ref[nm], 'setdefault', **inp)
        elif k in ('del', 'delattr', 'pop'):
            def rm():
                if k == 'del':
                    del tags[nm]
                elif k == 'delattr':
                    delattr(tags, nm)
                else:
                    tags.pop(nm)
            if nm in ref:
                rm()
                del ref[nm]
            else:
                t.check(expect_raise(rm), 'deletion of a missing tag accepted', **inp)
        elif k == 'bad':
            b = r.choice(BAD)
            def do():
                tags[b] = 0
            t.check(expect_raise(do), 'invalid name accepted', name=b, **inp)
        else:
            tags = Tags(n, **tags)
        check_tags(t, tags, ref, n, k, **inp)
    t.note((n, log))


@scenario('C03', 'construction rejected', 100)
def ctor(t):
    r = t.rng
    n = r.randint(1, 5)
    ref = gen_tags(r, n)
    v, exp = value(r, n)
    ref['bad'] = v
    t.note((n, ref if exp is None else exp))
    if exp is None:
        t.check(expect_raise(lambda: Tags(n, **ref)), 'wrong tags accepted', n=n, tags=ref)
    else:
        t.check(Tags(n, **ref)['bad'] == exp, 'value', n=n)


@scenario('C03', 'tags of a signal set', 200)
def sset(t):
    r = t.rng
    s, m = gen_set(r)
    before = dict(m.tags)
    n2 = m.n + r.choice([-1, 0, 0, 1, 3])
    if n2 < 1:
        raise Skip
    new = gen_tags(r, n2)
    tags = Tags(n2, **new)
    t.note((m.tags, m.n, n2, new))
    inp = dict(n=m.n, tags=tags)

    def do():
        s.tags = tags
    if n2 > m.n:
        t.check(expect_raise(do), 'tags over more channels accepted', **inp)
        t.check(dict(s.tags) == before, 'tags changed by a rejected assignment', **inp)
    else:
        do()
        check_tags(t, s.tags, new, m.n, 'signal set', **inp)
        nm = r.choice(list(new))
        tags[nm] = r.randrange(n2)
        tags['added'] = 0
        check_tags(t, s.tags, new, m.n, 'given tags changed afterwards', **inp)
        s.tags['other'] = m.n - 1
        t.check('other' not in tags, 'the given tags are shared', **inp)
        # a channel of the set that the given tags did not have
        t.check(expect_raise(lambda: s.tags.__setitem__('q', m.n)), 'index out of the set accepted', **inp)
    bad = dict(before)
    bad['bad'] = r.choice([m.n, -1, (0, m.n)])
    cur = dict(s.tags)
    t.check(expect_raise(lambda: setattr(s, 'tags', bad)), 'dict with a wrong channel accepted', tags=bad)
    t.check(dict(s.tags) == cur, 'tags changed by a rejected assignment', tags=bad)
    src = Tags(m.n, **before)
    s2 = SignalSet(src, *s.signals)
    src['added'] = 0
    t.check(dict(s2.tags) == before, 'signal set shares the tags given at construction', tags=before)
    t.check(expect_raise(lambda: SignalSet(Tags(m.n + 1, **before), *s.signals)), 'construction with too many channels', **inp)


@scenario('C03', 'signal set without runs', 30)
def noruns(t):
    r = t.rng
    n = r.randint(1, 4)
    tags = gen_tags(r, n)
    s = SignalSet(Tags(n, **tags))
    t.note((n, tags))
    check_tags(t, s.tags, tags, n, 'no runs')
    t.check(s.nb_channels == n and s.nb_runs == 0, 'channels of a set without runs', n=n)
    t.check(expect_raise(lambda: s.tags.__setitem__('q', n)), 'index out of range accepted', n=n)
    k = r.randint(1, n)
    s.tags = Tags(k, a=k - 1)
    t.check(s.nb_channels == n and dict(s.tags) == {'a': (k - 1,)}, 'tags over fewer channels', n=n, k=k)
