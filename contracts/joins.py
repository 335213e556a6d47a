" C06: joining signal sets (signalset.SignalSet.join, __init__, _reorder_data) "
from .sets import *


NAMES = {k: z3.Int('name.' + k) for k in 'abc'}


def user_name(k):
    " one of three different names given by the user "
    isalpha, sl = V.str_pred('isalpha'), V.str_fun('slice_None_1_None')
    C.assume(z3.Distinct(*NAMES.values()))
    C.assume(And(*[n >= 0 for n in NAMES.values()]))
    C.assume(isalpha(sl(NAMES[k])))
    return SymStr(NAMES[k], user=True)


class Named(Sym):
    """ a signal set with N channels (a number) and the tags of a shape {name: number of channels}

    runs: any number; samples, times, channels of the tags: arbitrary """
    def __init__(self, v, name, shape, nch, nruns=None):
        super().__init__(v, name, nruns=nruns, nch=nch)
        self.shape = shape
        self.idx = {k: [z3.Int('%s.tag.%s.%d' % (name, k, j)) for j in range(n)] for k, n in shape.items()}
        for l in self.idx.values():
            for e in l:
                C.assume(And(e >= 0, e < nch))
                C.inputs[str(e)] = e

    def mapping(self):
        return MDict(sym=(seq_of([user_name(k) for k in self.idx]), seq_of([seq_of(list(l)) for l in self.idx.values()])),
                     excluded=EVERY)

    def tags(self):
        if self.tags_obj is None:
            d = self.mapping()
            self.tags_obj = inp(Obj(self.v.interp.resolve('signalset.Tags'), {
                '_tags': inp(d), '_indices': SetV(rng=V.RangeV(0, self.N), frozen=True)}))
        return self.tags_obj


def compatible(A, B):
    " the tags of B designate the same channels as those of A, up to an order of the channels "
    if set(A.shape.items()) != set(B.shape.items()):
        return z3.BoolVal(False)
    pairs = [(p, q) for k in A.shape for p, q in zip(A.idx[k], B.idx[k])]
    one = And(z3.BoolVal(True), *[Implies(p == x, q == y) for p, q in pairs for x, y in pairs])
    return one


def equal_tags(A, B):
    if set(A.shape.items()) != set(B.shape.items()) or A.N != B.N:
        return z3.BoolVal(False)
    return And(z3.BoolVal(True), *[p == q for k in A.shape for p, q in zip(A.idx[k], B.idx[k])])


def all_named(A):
    " every channel of A has a name "
    return And(z3.BoolVal(True), *[Or(z3.BoolVal(False), *[p == c for l in A.idx.values() for p in l]) for c in range(A.N)])


def overlap(A, B):
    " some run of A and some run of B that can't be in the same set "
    a, b = z3.Ints(C._name('a') + ' ' + C._name('b'))
    return z3.Exists([a, b], And(a >= 0, a < zint(A.R), b >= 0, b < zint(B.R), Or(
        invalid_pair(A.N, (A.start(a), A.stop(a)), B.N, (B.start(b), B.stop(b))),
        invalid_pair(B.N, (B.start(b), B.stop(b)), A.N, (A.start(a), A.stop(a))))))


def source(v, o):
    " (set, run) where the samples of a run come from "
    data = v.interp.iter_seq(v.attr(o, 'data'))
    src = getattr(data.get(0), 'src', None)
    v.expect('a run of an operand', src is not None)
    return src[0], src[1]


def unchanged_clock(v, fields, S, k):
    data, cals, rate, start, size = fields
    v.prove('run of an operand: clock', And(
        cmp('==', rate, S.rate(k)), cmp('==', start, S.start(k)), cmp('==', size, S.size(k))))


def join_sets(v, shapes, nch, how='join', nruns=None, order=None):
    tags_contract(v)
    set_contract(v)
    whole = v.interp.contracts['signalset.SignalSet.__init__']

    def only_signals(it, f, args, kwargs):
        " the contract proved for signals: sets given to the constructor go through its code "
        if any(isinstance(s, Obj) and s.cls is it.resolve('signalset.SignalSet') for s in args[2:]):
            return NotImplemented
        return whole(it, f, args, kwargs)
    v.interp.contracts['signalset.SignalSet.__init__'] = only_signals
    ops = [Named(v, n, sh, nc, nruns) for n, sh, nc in zip('stu', shapes, nch)]
    A = ops[0]
    objs = [S.sigset() for S in ops]
    if order is not None:
        C.assume(And(*[equal_tags(A, S) for S in ops[1:]]) if order == 'same' else Not(equal_tags(A, ops[1])))
    if how == 'operator':
        st, r = v.attempt(v.attr(objs[0], '__or__'), *objs[1:])
    elif how == 'constructor':
        d = inp(A.mapping())
        st, r = v.attempt('signalset.SignalSet', d, *objs)
    else:
        st, r = v.attempt(v.attr(objs[0], 'join'), *objs[1:])
    bad = []
    for i, S in enumerate(ops[1:], 1):
        bad += [Not(compatible(A, S)), z3.BoolVal(A.N != S.N), And(Not(equal_tags(A, S)), Not(all_named(A)))]
        bad += [overlap(B, S) for B in ops[:i]]
    if st == 'raise':
        v.prove('only incompatible operands are rejected', Or(*bad))
        v.reached('rejection')
        return
    for S in ops[1:]:
        v.prove('the operands have the same names', compatible(A, S))
    res = v.interp.iter_seq(v.attr(r, 'signals'))
    total = 0
    for S in ops:
        total = add(total, S.R)
    v.prove('as many runs as the operands', cmp('==', res.n, total))
    adjacent(v, res)

    def run(j):
        o = res.get(j)
        S, k = source(v, o)
        v.expect('a run of an operand', S in ops)
        v.prove('a run of an operand', And(zint(k) >= 0, zint(k) < zint(S.R)))
        fields = sync_fields(v, o)
        unchanged_clock(v, fields, S, k)
        data, cals = fields[:2]
        v.prove('all the channels', And(cmp('==', data.n, A.N), cmp('==', cals.n, A.N)))
        for name in A.shape:
            for p, q in zip(A.idx[name], S.idx[name]):
                same_channel(v, data.get(p), cals.get(p), S, k, q)
        if C.branch(equal_tags(A, S)):
            for c in range(A.N):
                same_channel(v, data.get(c), cals.get(c), S, k, c)
        return True
    v.forall('run', res.n, run)

    off = 0
    for S in ops:
        def there(k, S=S, off=off):
            def here(j):
                T, i = source(v, res.get(j))
                return And(z3.BoolVal(T is S), zint(i) == zint(k))
            if res.concrete:
                v.prove('every run of the operands', Or(*[here(j) for j in range(res.n)]))
                return True
            v.some('every run of the operands', res.n, [lambda w=w: w for w in witnesses(v, add(off, k))], here)
            return True
        v.forall('runs of %s' % S.name, S.R, there)
        off = add(off, S.R)
    t = v.attr(r, 'tags')
    d = t.attrs['_tags']
    v.prove('owns its tags', z3.BoolVal(not getattr(t, 'inp', False) and not d.inp))
    v.expect('tags of the first operand', d.keys().concrete)
    v.prove('tags: as many', cmp('==', d.keys().n, len(A.shape)))
    for k in A.shape:
        val = v.interp.getitem(t, user_name(k))
        v.prove('tags: number of channels', cmp('==', seq_of(val).n, A.shape[k]))
        v.prove('tags: channels', And(*[cmp('==', seq_of(val).get(j), e) for j, e in enumerate(A.idx[k])]))
    v.frame()
    v.reached()


def label(shapes):
    return ' | '.join(','.join('%s:%d' % e for e in s.items()) or 'no tag' for s in shapes)


one, two, pair, mix = {'a': 1}, {'a': 1, 'b': 1}, {'a': 2}, {'a': 1, 'b': 2}
BOTH, REJ = ('normal end', 'rejection'), ('rejection',)
for shapes, nch, how, reach in (
        ((one, one), (1, 1), 'join', BOTH),
        ((one, one), (2, 2), 'join', BOTH),
        ((two, two), (2, 2), 'join', BOTH),
        ((two, dict(b=1, a=1)), (2, 2), 'operator', BOTH),
        ((pair, pair), (2, 2), 'join', BOTH),
        ((mix, mix), (2, 2), 'join', BOTH),
        ((mix, mix), (3, 3), 'join', BOTH),
        (({}, {}), (1, 1), 'join', BOTH),
        ((two, one), (2, 2), 'join', REJ),
        ((one, two), (2, 2), 'join', REJ),
        ((one, {'b': 1}), (1, 1), 'join', REJ),
        ((one, pair), (2, 2), 'join', REJ),
        ((pair, one), (2, 2), 'join', REJ),
        ((one, one), (1, 2), 'join', BOTH),
        ((two, two), (2, 2), 'constructor', BOTH),
        ((one, one, one), (1, 1, 1), 'join', BOTH)):
    for R in ((None, 1) if reach is BOTH else (None,)):
        if (nch[0] == 3 or len(shapes) == 3 or shapes[0] is mix) and R is None:
            continue
        for order in ('same', 'other') if R is None and nch == (2, 2) and reach is BOTH else (None,):
            case('C06 C10' if R == 1 else 'C06',
                 'signalset.SignalSet.%s' % {'operator': '__or__', 'constructor': '__init__'}.get(how, how),
                 'channels %s, tags %s%s, %s' % (
                     '/'.join(map(str, nch)), label(shapes), {None: ''}.get(order, ' in %s order' % ('the ' + order if order == 'same' else 'another')),
                     'any runs' if R is None else '%d run each' % R),
                 reach=reach if nch != (1, 2) or R is None else REJ, budget=200 if R is None else 60)(
                lambda v, shapes=shapes, nch=nch, how=how, R=R, order=order: join_sets(v, shapes, nch, how, R, order))


def join_signals(v, n, R=None):
    " a set joined with signals, which have no names "
    tags_contract(v)
    C.split_first = True                 # one set, then signals
    A = Sym(v, 's', nruns=R)
    s = A.sigset()
    G = Runs(v, 't', n)
    runs = G.runs()
    args = runs.list() if runs.concrete else [I.StarArg(runs)]
    st, r = v.attempt('signalset.SignalSet.join', s, *args)
    a, b = [C.fresh(x, INT) for x in 'ab']
    if st == 'raise':
        one = lambda k: (G.start(k), G.stop(k))
        v.prove('only incompatible signals are rejected', Or(
            z3.Exists([a, b], And(a >= 0, a < zint(G.R), b >= 0, b < zint(G.R), a != b,
                                  invalid_pair(G.nch(a), one(a), G.nch(b), one(b)))),
            z3.Exists([a, b], And(a >= 0, a < zint(A.R), b >= 0, b < zint(G.R), Or(
                invalid_pair(A.N, (A.start(a), A.stop(a)), G.nch(b), one(b)),
                invalid_pair(G.nch(b), one(b), A.N, (A.start(a), A.stop(a)))))),
            And(zint(A.R) == 0, zint(G.R) > 0, G.nch(0) != zint(A.N))))
        v.reached('rejection')
        return
    res = v.interp.iter_seq(v.attr(r, 'signals'))
    v.prove('as many runs', cmp('==', res.n, add(A.R, G.R)))
    adjacent(v, res)

    def run(j):
        o = res.get(j)
        org, no = getattr(o, 'origin', None), getattr(o, 'run_no', None)
        v.expect('a given run, unchanged', org is not None and not written(o))
        S = org[0]
        v.expect('a given run, unchanged', S in (A, G))
        v.prove('a given run: in the range', And(org[1] >= 0, org[1] < zint(S.R)))
        return True
    v.forall('run', res.n, run)
    for S, off in ((A, 0), (G, A.R)):
        def there(k, S=S, off=off):
            here = lambda j: (lambda o: And(z3.BoolVal(o[0] is S), o[1] == zint(k)))(res.get(j).origin)
            if res.concrete:
                v.prove('every run', Or(*[here(j) for j in range(res.n)]))
                return True
            v.some('every run', res.n, [lambda w=w: w for w in witnesses(v, add(off, k))], here)
            return True
        v.forall('runs of %s' % S.name, S.R, there)
    same_tags(v, r, A)
    v.frame()
    v.reached()


for n, R in ((1, None), (None, None), (1, 1)):
    case('C06 C10', 'signalset.SignalSet.join', '%s signals to %s runs' % tuple('any number of' if x is None else x for x in (n, R)),
         reach=BOTH)(lambda v, n=n, R=R: join_signals(v, n, R))


def join_same(v, nsets, nruns=None):
    " sets of any number of channels and tags, the same for all "
    tags_contract(v)
    set_contract(v)
    whole = v.interp.contracts['signalset.SignalSet.__init__']
    v.interp.contracts['signalset.SignalSet.__init__'] = lambda it, f, args, kwargs: NotImplemented if any(
        isinstance(s, Obj) and s.cls is it.resolve('signalset.SignalSet') for s in args[2:]) else whole(it, f, args, kwargs)
    A = Sym(v, 's', nruns=nruns)
    ops = [A] + [Sym(v, n, nruns=nruns, nch=A.N) for n in 'tu'[:nsets - 1]]
    for S in ops[1:]:
        S.T, S.tname, S.tlen, S.tidx = A.T, A.tname, A.tlen, A.tidx
    objs = [S.sigset() for S in ops]
    st, r = v.attempt('signalset.SignalSet.join', *objs)
    if st == 'raise':
        v.prove('only overlapping runs are rejected', Or(*[overlap(B, S) for i, S in enumerate(ops) for B in ops[:i]]))
        v.reached('rejection')
        return
    res = v.interp.iter_seq(v.attr(r, 'signals'))
    total = 0
    for S in ops:
        total = add(total, S.R)
    v.prove('as many runs as the operands', cmp('==', res.n, total))
    adjacent(v, res)

    def run(j):
        o = res.get(j)
        org = getattr(o, 'origin', None)
        v.expect('a given run, unchanged', org is not None and not written(o) and org[0] in ops)
        v.prove('a given run: in the range', And(org[1] >= 0, org[1] < zint(org[0].R)))
        return True
    v.forall('run', res.n, run)
    off = 0
    for S in ops:
        def there(k, S=S, off=off):
            here = lambda j: (lambda o: And(z3.BoolVal(o[0] is S), o[1] == zint(k)))(res.get(j).origin)
            if res.concrete:
                v.prove('every run', Or(*[here(j) for j in range(res.n)]))
                return True
            v.some('every run', res.n, [lambda w=w: w for w in witnesses(v, add(off, k))], here)
            return True
        v.forall('runs of %s' % S.name, S.R, there)
        off = add(off, S.R)
    same_tags(v, r, A)
    v.frame()
    v.reached()


for nsets, R in ((1, None), (2, None), (2, 1)):
    case('C06 C10', 'signalset.SignalSet.join', '%d sets with the same tags, %s' % (nsets, 'any runs' if R is None else '%d run each' % R),
         reach=BOTH if nsets > 1 else ('normal end',), budget=150)(lambda v, nsets=nsets, R=R: join_same(v, nsets, R))
