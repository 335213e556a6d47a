" C02, C03, C04, C05, C06: construction and selection of signals and signal sets "
from .sigs import *

ISNUM = z3.Function('cal.isnum', INT, BOOL)
CNUM = z3.Function('cal.number', INT, REAL)
CFN = z3.Function('cal.fn', INT, INT)


def given_cals(v, kind, N):
    " the calibrations argument; (value, expected number, expected function at (c, f)) "
    one = lambda c, f: V.XNum(z3.RealVal(1), z3.RealVal(0))
    if kind == 'none':
        return None, N, one
    if kind == 'empty':
        return inp(V.MList(seq_of([]))), N, one
    n = v.int('ncal', 1)

    def get(c):
        c = zint(c)
        if C.branch(ISNUM(c)):
            return CNUM(c)
        return cal_fn(CFN(c))

    def fn(c, f):
        c = zint(c)
        if C.branch(ISNUM(c)):
            return V.XNum(CNUM(c), z3.RealVal(0))
        return V.XNum(CALRE(CFN(c), zreal(f)), CALIM(CFN(c), zreal(f)))
    s = SeqV(n, get)
    return (inp(V.MList(s)) if kind == 'list' else s), n, fn


def sync_init(v, data_kind, cals_kind):
    " SyncSignal.__init__ "
    N = v.int('N', 0)
    length = z3.Function('len', INT, INT)
    x = z3.Function('x', INT, INT, REAL)
    a = z3.Int(C._name('a'))
    C.assume(z3.ForAll([a], length(a) >= 0, patterns=[length(a)]))

    def chan(c):
        return inp(Arr((length(zint(c)),), lambda i: x(zint(c), zint(i)), F8))
    data = SeqV(N, chan)
    if data_kind == 'list':
        data = inp(V.MList(data))
    cals, ncal, fn = given_cals(v, cals_kind, N)
    rate, start = v.real('rate'), v.real('start')
    C.assume(rate > 0)
    st, r = v.attempt('signalset.SyncSignal', data, rate, start, cals)
    if st == 'raise':
        c, d = C.fresh('c', INT), C.fresh('d', INT)
        v.prove('only invalid signals are rejected', Or(
            N == 0, zint(ncal) != N,
            z3.Exists([c, d], And(c >= 0, c < N, d >= 0, d < N, length(c) != length(d)))))
        v.reached('rejection')
        return
    v.prove('at least one channel', N >= 1)
    v.prove('one calibration per channel given', zint(ncal) == N)
    rdata, rcals, rrate, rstart, rsize = sync_fields(v, r)
    v.prove('sampling rate', cmp('==', rrate, rate))
    v.prove('start', cmp('==', rstart, start))
    v.prove('number of channels', cmp('==', rdata.n, N))
    v.prove('number of calibrations', cmp('==', rcals.n, N))
    v.prove('stop', cmp('==', v.attr(r, 'stop'), add(start, div(sub(zreal(rsize), 1), rate))))
    f = v.real('f')

    def channel(c):
        c = zint(c)
        v.prove('all channels have the size of the signal', length(c) == zint(rsize))
        e = A.asarray(rdata.get(c))
        v.prove('samples: length', cmp('==', e.shape[0], length(c)))
        v.forall('samples', length(c), lambda i: cmp('==', e.get(i), x(c, zint(i))))
        got = V.xnum(v.call(rcals.get(c), f))
        want = fn(c, f)
        v.prove('calibration', And(zreal(got.re) == zreal(want.re), zreal(got.im) == zreal(want.im)))
        return True
    v.forall('channel', N, channel)
    v.frame()
    v.reached()


for data_kind, cals_kind in (('list', 'none'), ('tuple', 'empty'), ('list', 'list'), ('tuple', 'tuple')):
    case('C02 C10', 'signalset.SyncSignal.__init__', 'data %s, calibrations %s' % (data_kind, cals_kind),
         reach=('normal end', 'rejection'))(lambda v, d=data_kind, c=cals_kind: sync_init(v, d, c))


# ---------------------------------------------------------------------------
# SignalSet.__init__
# ---------------------------------------------------------------------------
class Runs(Sym):
    " arbitrary runs, in any order, each one with its own number of channels "
    def __init__(self, v, name, nruns=None):
        super().__init__(v, name, nruns=nruns)
        self.nch = z3.Function(name + '.nch', INT, INT)
        k = z3.Int(C._name('k'))
        C.assume(z3.ForAll([k], self.nch(k) >= 1, patterns=[self.nch(k)]))

    def run(self, k):
        N, self.N = self.N, self.nch(zint(k))
        try:
            o = super().run(k)
        finally:
            self.N = N
        o.run_no = zint(k)
        return o


def permutation(v, res, S, cands=None):
    " the runs of the result are the runs of S, each one once and unchanged "
    v.prove('as many runs', cmp('==', res.n, S.R))

    def one(j):
        o = res.get(j)
        v.expect('a given run', getattr(o, 'run_no', None) is not None)
        v.prove('a given run: in the range', And(o.run_no >= 0, o.run_no < zint(S.R)))
        return True
    v.forall('run', res.n, one)

    def complete(k):
        if res.concrete:
            v.prove('every given run is there', Or(*[res.get(j).run_no == zint(k) for j in range(res.n)]))
        else:
            v.some('every given run is there', res.n, [lambda w=w: w for w in witnesses(v, k)],
                   lambda j: res.get(j).run_no == zint(k))
        return True
    v.forall('complete', S.R, complete)


def tags_of(v, r, D, n):
    " the tags of the set are those of the mapping D, on n channels; they are its own "
    t = v.attr(r, 'tags')
    v.prove('owns its tags', z3.BoolVal(not getattr(t, 'inp', False) and not t.attrs['_tags'].inp))
    d = t.attrs['_tags']
    keys, vals = d.keys(), d.values()
    v.prove('as many tags', cmp('==', keys.n, D.T))
    if n is not None:
        x = C.fresh('x', INT)
        v.prove('range of the tags', asz(V.as_formula(lambda: V.as_set(v.attr(t, 'indices')).contains(x)))
                == And(x >= 0, x < zint(n)))

    def tag(k):
        k = zint(k)
        v.prove('tag: name', V.zterm(keys.get(k)) == D.tname(k))
        val = seq_of(vals.get(k))
        v.prove('tag: number of channels', cmp('==', val.n, D.tlen(k)))
        v.forall('tag: channels', D.tlen(k), lambda j: cmp('==', val.get(j), D.tidx(k, zint(j))))
        return True
    v.forall('tag', D.T, tag)


def set_init(v, R=None):
    from .tags import Mapping
    user_names(v)
    tags_contract(v)
    S = Runs(v, 's', R)
    D = Mapping(v)
    runs = S.runs()
    args = runs.list() if runs.concrete else [I.StarArg(runs)]
    d = D.dict()
    st, r = v.attempt('signalset.SignalSet', d, *args)
    a, b, t = [C.fresh(x, INT) for x in 'abt']
    two = And(a >= 0, a < zint(S.R), b >= 0, b < zint(S.R), a != b)
    if st == 'raise':
        v.prove('only invalid sets are rejected', Or(
            z3.Exists([a, b], And(two, invalid_pair(S.nch(a), (S.start(a), S.stop(a)),
                                                    S.nch(b), (S.start(b), S.stop(b))))),
            And(zint(S.R) > 0, z3.Exists([t], And(t >= 0, t < D.T, D.bad(t, S.nch(0))))),
            And(zint(S.R) == 0, z3.Exists([t], And(t >= 0, t < D.T, D.bad(t, None))))))
        v.reached('rejection')
        return
    res = v.interp.iter_seq(v.attr(r, 'signals'))
    permutation(v, res, S)
    adjacent(v, res)
    v.forall('same number of channels', S.R, lambda k: S.nch(k) == S.nch(0))
    tags_of(v, r, D, None if C.branch(zint(S.R) == 0) else S.nch(0))
    v.frame()
    v.reached()


for R in (0, 1, 2, 3, None):
    case('C02 C03 C10', 'signalset.SignalSet.__init__', '%s runs' % ('any number of' if R is None else R),
         reach=('normal end', 'rejection'))(lambda v, R=R: set_init(v, R))


# ---------------------------------------------------------------------------
# selection of runs
# ---------------------------------------------------------------------------
def run_index(v, kind, R):
    """ an index of runs: (python value, valid, chosen(k), number of indices or None, designated run, position)

    chosen: the positions that the index picks in a one-dimensional array of R elements
    """
    R = zint(R)
    wrap = lambda i: If(i < 0, i + R, i)
    true = z3.BoolVal(True)
    if kind == 'integer':
        i = v.int('i')
        return i, And(i >= -R, i < R), lambda k: k == wrap(i), 1, lambda k: wrap(i), None
    if kind in ('list', 'array'):
        f = z3.Function('idx', INT, INT)
        n = v.int('n', 0)
        k = z3.Int(C._name('k'))
        ok = z3.ForAll([k], Implies(And(k >= 0, k < n), And(f(k) >= -R, f(k) < R)), patterns=[f(k)])
        if kind == 'list':
            val = inp(V.MList(SeqV(n, lambda k: f(zint(k)))))
        else:
            val = Arr((n,), lambda k: f(zint(k)), I8)
            val.birth, val.inp = 0, True
        j = z3.Int(C._name('j'))
        return val, ok, lambda k: z3.Exists([j], And(j >= 0, j < n, wrap(f(j)) == k)), n, \
            lambda k: wrap(f(zint(k))), None
    if kind == 'mask':
        f = z3.Function('mask', INT, BOOL)
        n = v.int('n', 0)
        val = Arr((n,), lambda k: f(zint(k)), B1)
        val.birth, val.inp = 0, True
        return val, n == R, lambda k: f(zint(k)), None, None, None
    a, b = v.int('a'), v.int('b')
    clip = lambda x: If(x < 0, If(x + R < 0, 0, x + R), If(x > R, R, x))
    if kind == 'a:b':
        return V.SliceV(a, b, None), true, lambda k: And(clip(a) <= k, k < clip(b)), None, None, lambda k: zint(k) - clip(a)
    if kind == 'a:':
        return V.SliceV(a, None, None), true, lambda k: clip(a) <= k, None, None, lambda k: zint(k) - clip(a)
    if kind == ':b':
        return V.SliceV(None, b, None), true, lambda k: k < clip(b), None, None, lambda k: zint(k)
    if kind == '::2':
        return V.SliceV(None, None, 2), true, lambda k: k % 2 == 0, None, None, lambda k: zint(k) / 2
    if kind == '::-1':
        return V.SliceV(None, None, -1), true, lambda k: true, None, None, lambda k: R - 1 - k
    if kind == 'a::-1':
        first = If(a < 0, a + R, If(a >= R, R - 1, a))
        return V.SliceV(a, None, -1), true, lambda k: k <= first, None, None, lambda k: first - k
    raise AssertionError(kind)


def source_runs(v, res, S):
    " each run of the result is a run of the source, unchanged "
    def one(j):
        o = res.get(j)
        org = getattr(o, 'origin', None)
        v.expect('a run of the source, unchanged', org is not None and org[0] is S and not written(o))
        v.prove('a run of the source', And(org[1] >= 0, org[1] < zint(S.R)))
        return True
    v.forall('run', res.n, one)


def written(o):
    return any(e[1] is o and e[2] != 'memo' for e in C.trail)


def same_tags(v, r, S):
    t = v.attr(r, 'tags')
    v.prove('owns its tags', z3.BoolVal(not getattr(t, 'inp', False) and not t.attrs['_tags'].inp))
    d = t.attrs['_tags']
    keys, vals = d.keys(), d.values()
    v.prove('as many tags', cmp('==', keys.n, S.T))

    def tag(k):
        k = zint(k)
        v.prove('tag: name', V.zterm(keys.get(k)) == S.tname(k))
        val = seq_of(vals.get(k))
        v.prove('tag: number of channels', cmp('==', val.n, S.tlen(k)))
        v.forall('tag: channels', S.tlen(k), lambda j: cmp('==', val.get(j), S.tidx(k, zint(j))))
        return True
    v.forall('tag', S.T, tag)


def chosen_runs(v, res, S, des):
    " the runs of the result are the designated ones, once each "
    val, ok, chosen, n, pick, pos = des
    if n is not None:
        v.prove('as many runs as indices', cmp('==', res.n, n))
    source_runs(v, res, S)
    v.forall('designated', res.n, lambda j: chosen(res.get(j).origin[1]))

    def twice(j):
        i = C.fresh('i', INT)
        C.assume(And(i >= 0, i < zint(j)))
        v.prove('once each', res.get(i).origin[1] != res.get(j).origin[1])
        return True
    if n is not None:
        pass                    # repeated indices may repeat a run of one sample
    elif res.concrete:
        v.prove('once each', And(*[res.get(i).origin[1] != res.get(j).origin[1]
                                   for j in range(res.n) for i in range(j)]))
    else:
        v.forall('once each', res.n, twice)

    def there(k):
        if pick is None:
            C.assume(chosen(k))
            want = zint(k)
        else:
            want = pick(k)
        if res.concrete:
            v.prove('every designated run', Or(*[res.get(j).origin[1] == want for j in range(res.n)]))
            return True
        v.some('every designated run', res.n, [lambda w=w: w for w in witnesses(v, pos(k) if pos else k)],
               lambda j: res.get(j).origin[1] == want)
        return True
    v.forall('designated run', S.R if pick is None else n, there)


def select_runs(v, kind, how='select_runs'):
    S = Sym(v, 's')
    s = S.sigset()
    tags_contract(v)
    set_contract(v)
    des = val, ok, chosen, n, pick, _ = run_index(v, kind, S.R)
    st, r = v.attempt('signalset.SignalSet.select_runs', s, val)
    a, b = z3.Ints(C._name('a') + ' ' + C._name('b'))
    if st == 'raise':
        twice = z3.BoolVal(False) if n is None else \
            z3.Exists([a, b], And(0 <= a, a < b, b < zint(n), pick(a) == pick(b)))
        v.prove('only invalid or repeated indices are rejected', Or(Not(ok), twice))
        v.prove('error', Implies(Not(ok), z3.BoolVal(r == 'IndexError')))
        v.reached('rejection')
        return
    v.prove('valid indices', ok)
    res = v.interp.iter_seq(v.attr(r, 'signals'))
    chosen_runs(v, res, S, des)
    adjacent(v, res)
    same_tags(v, r, S)
    v.frame()
    v.reached()


for kind in ('integer', 'list', 'array', 'mask', 'a:b', 'a:', ':b', '::2', '::-1', 'a::-1'):
    case('C05 C02 C10', 'signalset.SignalSet.select_runs', kind,
         reach=('normal end',) + (('rejection',) if ':' not in kind else ()))(
        lambda v, kind=kind: select_runs(v, kind))


# ---------------------------------------------------------------------------
# selection of channels
# ---------------------------------------------------------------------------
def sync_select(v, n=None):
    " SyncSignal.select "
    S = Sym(v, 's', nruns=1, nch=v.int('N', 1))
    s = S.run(0)
    f = z3.Function('idx', INT, INT)
    if n is None:
        n = v.int('n', 0)
        args = [I.StarArg(SeqV(n, lambda k: f(zint(k))))]
    else:
        args = [f(k) for k in range(n)]
    wrap = lambda i: If(i < 0, i + S.N, i)
    st, r = v.attempt('signalset.SyncSignal.select', s, *args)
    if st == 'raise':
        k = z3.Int(C._name('k'))
        v.prove('only wrong or missing indices are rejected', Or(
            zint(n) == 0, z3.Exists([k], And(k >= 0, k < zint(n), Or(f(k) < -S.N, f(k) >= S.N)))))
        v.reached('rejection')
        return
    data, cals, rate, start, size = sync_fields(v, r)
    v.prove('run unchanged', And(cmp('==', rate, S.rate(0)), cmp('==', start, S.start(0)), cmp('==', size, S.size(0))))
    v.prove('one channel per index', And(cmp('==', data.n, n), cmp('==', cals.n, n)))
    v.forall('channel', n, lambda k: same_channel(v, data.get(k), cals.get(k), S, 0, wrap(f(zint(k)))))
    v.frame()
    v.reached()


def same_channel(v, arr, cal, S, k, c):
    " samples and calibration are those of channel c of run k "
    a = A.asarray(arr)
    v.prove('channel: size', cmp('==', a.shape[0], S.size(k)))
    v.forall('channel: samples', S.size(k), lambda i: cmp('==', a.get(i), S.x(k, c, i)))
    v.prove('channel: calibration', same_cal(cal, S.cal(k, c)))
    return True


for n in (0, 1, 2, None):
    case('C04 C10', 'signalset.SyncSignal.select', '%s indices' % ('any number of' if n is None else n),
         reach=('rejection',) + (('normal end',) if n != 0 else ()))(lambda v, n=n: sync_select(v, n))


def channel_index(v, kind, S):
    """ identifiers of channels: (python value, all known, designated(c)) """
    N, T = zint(S.N), S.T
    t, j = z3.Int(C._name('t')), z3.Int(C._name('j'))
    in_tag = lambda t, c: z3.Exists([j], And(j >= 0, j < S.tlen(t), S.tidx(t, j) == c))
    named = lambda s: z3.Exists([t], And(t >= 0, t < T, S.tname(t) == s))
    of_name = lambda s, c: z3.Exists([t, j], And(t >= 0, t < T, S.tname(t) == s, j >= 0, j < S.tlen(t), S.tidx(t, j) == c))
    if kind == 'name':
        s = z3.Int('name')
        C.assume(s >= 0)
        return SymStr(s, user=True), named(s), lambda c: of_name(s, c)
    if kind == 'index':
        i = v.int('i')
        return i, And(i >= 0, i < N), lambda c: c == i
    if kind in ('names', 'indices', 'mixed'):
        n = v.int('n', 0)
        isname = z3.Function('ident.isname', INT, BOOL)
        name, num = z3.Function('ident.name', INT, INT), z3.Function('ident.index', INT, INT)
        k = z3.Int(C._name('k'))
        C.assume(z3.ForAll([k], name(k) >= 0, patterns=[name(k)]))
        if kind != 'mixed':
            C.assume(z3.ForAll([k], isname(k) == (kind == 'names'), patterns=[isname(k)]))

        def get(k):
            k = zint(k)
            if kind == 'names' or kind == 'mixed' and C.branch(isname(k)):
                return SymStr(name(k), user=True)
            return num(k)
        rng = And(k >= 0, k < n)
        known = z3.ForAll([k], Implies(rng, If(isname(k), named(name(k)), And(num(k) >= 0, num(k) < N))))

        def des(c):
            return z3.Exists([k], And(rng, If(isname(k), of_name(name(k), c), num(k) == c)))

        def witness(c):
            k, t, j = [C.fresh(x, INT) for x in 'ktj']
            C.assume(And(k >= 0, k < n))
            if kind == 'indices' or kind == 'mixed' and not C.branch(isname(k)):
                C.assume(num(k) == c)
                return [POS(k, z3.IntVal(0)) for _, _, (_, _, _, POS) in C.flats] + [k]
            C.assume(And(t >= 0, t < T, S.tname(t) == name(k), j >= 0, j < S.tlen(t), S.tidx(t, j) == c))
            return [POS(k, j) for _, _, (_, _, _, POS) in C.flats] + [k]
        des.witness = witness
        return inp(V.MList(SeqV(n, get))), known, des
    a, b = v.int('a'), v.int('b')
    clip = lambda x: If(x < 0, If(x + N < 0, 0, x + N), If(x > N, N, x))
    if kind == 'a:b':
        return V.SliceV(a, b, None), z3.BoolVal(True), lambda c: And(clip(a) <= c, c < clip(b))
    if kind == ':':
        return V.SliceV(None, None, None), z3.BoolVal(True), lambda c: z3.BoolVal(True)
    raise AssertionError(kind)


def channel_of(v, data, p):
    " number, in the source, of the channel at position p "
    src = getattr(data.get(p), 'src', None)
    v.expect('a channel of the source', src is not None)
    return src[2]


def enumeration(v, S, des):
    " the channels are designated exactly when they are in the list of integers built by the program "
    seq, IN, IDX, pos = C.intsets[-1][1].hints['intset']
    v.forall('list of channels: designated', seq.n, lambda p: des(zint(seq.get(p))))

    def there(c):
        for p in des.witness(c):
            V.assume_under(And(p >= 0, p < zint(seq.n)), lambda: IN(zint(seq.get(p))))
        v.prove('list of channels: complete', IN(c))
        return True
    v.forall('list of channels', S.N, there)
    c = z3.Int(C._name('c'))
    C.assume(z3.ForAll([c], Implies(IN(c), des(c)), patterns=[IN(c)]))
    return lambda c: IN(zint(c))


def selection(v, r, S, des):
    " every run of S reduced to the designated channels, in increasing order, and the tags that are still complete "
    if hasattr(des, 'witness') and C.intsets:
        des = enumeration(v, S, des)
    res = v.interp.iter_seq(v.attr(r, 'signals'))
    v.prove('as many runs', cmp('==', res.n, S.R))

    def run(j):
        o = res.get(j)
        k = run_of(v, o)
        v.prove('a run of the source', And(k >= 0, k < zint(S.R)))
        S.run_facts(k)
        data, cals, rate, start, size = sync_fields(v, o)
        v.prove('sampling rate', cmp('==', rate, S.rate(k)))
        v.prove('start', cmp('==', start, S.start(k)))
        v.prove('size', cmp('==', size, S.size(k)))
        v.prove('at least one channel', cmp('>=', data.n, 1))
        v.prove('number of calibrations', cmp('==', cals.n, data.n))

        def channel(p):
            a = data.get(p)
            c = channel_of(v, data, p)
            v.prove('a channel of the same run', And(c >= 0, c < zint(S.N), a.src[1] == k))
            v.prove('a designated channel', des(c))
            v.prove('samples: length', cmp('==', a.shape[0], S.size(k)))
            v.forall('samples', S.size(k), lambda i: cmp('==', a.get(i), S.x(k, c, zint(i))))
            cal = cals.get(p)
            v.expect('a calibration of the source', isinstance(cal, UFn))
            v.prove('calibration', same_cal(cal, S.cal(k, c)))
            return True
        v.forall('channel', data.n, channel)
        v.forall('increasing order of the channels', sub(data.n, 1),
                 lambda p: channel_of(v, data, p) < channel_of(v, data, add(p, 1)))

        def there(c):
            C.assume(des(c))
            v.some('every designated channel', data.n, position(data, c), lambda p: channel_of(v, data, p) == c)
            return True
        v.forall('designated channel', S.N, there)
        return True
    v.forall('run', res.n, run)

    def complete(k):
        v.some('every run', res.n, [lambda w=w: w for w in witnesses(v, k)], lambda j: run_of(v, res.get(j)) == zint(k))
        return True
    v.forall('complete', S.R, complete)
    adjacent(v, res)
    kept_tags(v, r, res, S, des)


def position(data, c):
    " candidate positions of channel c "
    out = [lambda i=i: zint(i) for i in range(data.n)] if isinstance(data.n, int) else []
    for _, s in C.intsets:
        out.append(lambda s=s: s.hints['intset'][3](c))
    return out + [lambda: zint(c)]


def kept_tags(v, r, res, S, des):
    t = v.attr(r, 'tags')
    v.prove('owns its tags', z3.BoolVal(not getattr(t, 'inp', False) and not t.attrs['_tags'].inp))
    d = t.attrs['_tags']
    keys, vals = d.keys(), d.values()
    full = lambda k: C.forall_formula(S.tlen(k), lambda j: des(S.tidx(k, j)))

    def tag(q):
        k = v.some('a tag of the source', S.T, [lambda f=f: f[3][1](q) for f in C.filters] + [lambda: zint(q)],
                   lambda k: V.zterm(keys.get(q)) == S.tname(k))
        if k is None:
            return True
        v.forall('kept tag: every channel is designated', S.tlen(k), lambda j: des(S.tidx(k, j)))
        val = seq_of(vals.get(q))
        v.prove('kept tag: number of channels', cmp('==', val.n, S.tlen(k)))
        if C.branch(zint(S.R) == 0):
            return True
        data = v.interp.iter_seq(v.attr(res.get(0), 'data'))

        def value(j):
            p = val.get(j)
            if p is None:
                v.unreachable('kept tag: range')
                return True
            v.prove('kept tag: range', And(zint(p) >= 0, zint(p) < zint(data.n)))
            v.prove('kept tag: channels', lambda: channel_of(v, data, p) == S.tidx(k, j))
            return True
        v.forall('kept tag: channel', S.tlen(k), value)
        return True
    v.forall('tag', keys.n, tag)

    def kept(k):
        C.assume(full(k))
        v.some('every complete tag is kept', keys.n, [lambda f=f: f[3][2](k) for f in C.filters] + [lambda: zint(k)],
               lambda q: V.zterm(keys.get(q)) == S.tname(k))
        return True
    v.forall('complete tag', S.T, kept)


def select_channels(v, kind):
    S = Sym(v, 's')
    s = S.sigset()
    tags_contract(v)
    set_contract(v)
    sync_contract(v)
    val, known, des = channel_index(v, kind, S)
    st, r = v.attempt('signalset.SignalSet.select_channels', s, val)
    c = z3.Int(C._name('c'))
    if st == 'raise':
        nothing = z3.ForAll([c], Implies(And(c >= 0, c < zint(S.N)), Not(des(c))))
        v.prove('only unknown identifiers or empty selections are rejected', Or(Not(known), nothing))
        v.prove('error', Implies(Not(known), z3.BoolVal(r == 'ValueError')))
        v.reached('rejection')
        return
    v.prove('known', known)
    selection(v, r, S, des)
    v.frame()
    v.reached()


for kind in ('name', 'index', 'names', 'indices', 'mixed', 'a:b', ':'):
    case('C04 C02 C10', 'signalset.SignalSet.select_channels', kind,
         reach=('normal end',) + (('rejection',) if ':' not in kind else ()),
         budget={'names': 150, 'mixed': 200}.get(kind, 60))(lambda v, kind=kind: select_channels(v, kind))


# ---------------------------------------------------------------------------
# indexing
# ---------------------------------------------------------------------------
def getitem(v, nidx):
    """ s[channels, runs] = s.select_channels(channels).select_runs(runs)

    for any identifiers (opaque values), by the contracts of the two methods
    """
    S = Sym(v, 's')
    s = S.sigset()
    it = v.interp
    cls = it.resolve('signalset.SignalSet')

    def record(name):
        def summary(it, f, args, kwargs):
            a = bound(f, args, kwargs)
            what = a['channels' if name == 'select_channels' else 'runs']
            o = Obj(cls, {'_signals': seq_of([]), '_tags': None})
            o.how = (name, a['self'], what)
            return o
        it.contracts['signalset.SignalSet.' + name] = summary
    record('select_channels')
    record('select_runs')
    ids = [z3.Int('id%d' % i) for i in range(3)]
    for single in (False, True) if nidx == 1 else (False,):
        if nidx == 1:
            idx = [SymStr(ids[0], user=True), V.SliceV(ids[0], ids[1], None), inp(V.MList(seq_of([ids[0]])))]
        else:
            idx = [tuple([SymStr(ids[0], user=True), ids[1], ids[2]][:nidx])]
        for i in idx:
            st, r = v.attempt('signalset.SignalSet.__getitem__', s, (i,) if single else i)
            if nidx > 2:
                v.prove('too many indices', z3.BoolVal(st == 'raise' and r == 'IndexError'))
                continue
            v.prove('accepted', z3.BoolVal(st == 'ok'))
            if st != 'ok':
                continue
            if nidx == 0:
                v.prove('everything', z3.BoolVal(r is s))
                continue
            how = getattr(r, 'how', None)
            v.expect('a selection', how is not None)
            if nidx == 2:
                v.expect('a selection of runs', how[0] == 'select_runs')
                v.prove('runs', z3.BoolVal(how[2] is i[1] or V.is_num(how[2]) and zint(how[2]).eq(i[1])))
                how = getattr(how[1], 'how', None)
                v.expect('among channels', how is not None)
                i = i[0]
            v.expect('a selection of channels', how[0] == 'select_channels')
            v.prove('of the same set', z3.BoolVal(how[1] is s))
            v.prove('channels', z3.BoolVal(how[2] is i))
    v.reached()


for n in (0, 1, 2, 3):
    case('C04 C05', 'signalset.SignalSet.__getitem__', '%d indices' % n)(lambda v, n=n: getitem(v, n))
