" arbitrary signals, tags and signal sets satisfying their invariants "
from .base import *

EVERY = V.EveryName()
CALRE = z3.Function('calre', INT, REAL, REAL)
CALIM = z3.Function('calim', INT, REAL, REAL)
ALPHA = z3.Function('valid_name', INT, BOOL)


def inp(o):
    o.birth, o.inp = 0, True
    return o


def cal_fn(term):
    term = zint(term)
    return UFn(term, lambda f: V.XNum(CALRE(term, zreal(f)), CALIM(term, zreal(f))), 'cal')


def user_names(v):
    """ contract of TagsBase.__getattribute__ (proved in contracts/tags.py): when the tags are names given by the user,
    the attributes used by the program are those of the object """
    def summary(it, f, args, kwargs):
        o, name = args
        d = o.attrs.get('_tags')
        if isinstance(name, str) and isinstance(d, MDict) and not kwargs:
            if d.user_only:                # kept by MDict
                return it.obj_getattr(o, name)
            if d not in C.poison and not C.effect_mode(d) and d.all_user():
                d.user_only = True
                return it.obj_getattr(o, name)
        return NotImplemented
    v.interp.contracts['signalset.TagsBase.__getattribute__'] = summary


def name_ok(key):
    return V.str_pred('isalpha')(V.str_fun('slice_None_1_None')(V.zterm(key)))


def tags_contract(v):
    """ contract of Tags(n, **mapping) (proved in contracts/tags.py), for a mapping of any size: the same names on the
    same channels, when they are valid; otherwise an error """
    def summary(it, f, args, kwargs):
        d = kwargs.get('**')
        if not isinstance(d, MDict) or set(kwargs) != {'**'} or not d.sym or len(args) > 2 \
                or f.cls.name != 'Tags' or not d.all_user():
            return NotImplemented
        self, n = (args + [None])[:2]
        default = n is None
        if default:
            n = C.fresh('nmax', INT)
            C.assume(n >= 0)
        keys, vals = d.keys(), d.values()

        def tup(t):
            x = vals.get(t)
            return seq_of((x,)) if V.is_num(x) else it.iter_seq(x)

        def chan(x):
            return zint(-1 if x is None else x)       # neither is a channel

        def valid(t):
            x = tup(t)
            return And(name_ok(keys.get(t)), zint(x.n) >= 1, asz(C.forall_formula(
                x.n, lambda j: (lambda e: And(e >= 0, Or(e < zint(n), default)))(chan(x.get(j))))))
        if not C.forall_branch(keys.n, valid):
            V.py_raise('ValueError', 'tags')
        if default:
            # the range ends with the largest channel
            C.forall_fact(keys.n, lambda t: asz(C.forall_formula(tup(t).n, lambda j: chan(tup(t).get(j)) < n)))
            C.assume(Implies(zint(keys.n) == 0, n == 0))
        self.attrs['_tags'] = MDict(sym=(keys, SeqV(keys.n, tup)), excluded=EVERY)
        self.attrs['_indices'] = SetV(rng=V.RangeV(0, n), frozen=True)
    v.interp.contracts['signalset.Tags.__init__'] = summary


def lex_le(p, q):
    " (start, stop) order "
    return Or(p[0] < q[0], And(p[0] == q[0], p[1] <= q[1]))


def invalid_pair(na, ia, nb, ib):
    " two runs that can't be in the same set: numbers of channels, intervals "
    return Or(zint(na) != zint(nb), And(lex_le(ia, ib), ia[1] > ib[0]))


def sync_contract(v):
    """ contract of SyncSignal(data, sampling_rate, start, calibrations) (proved in contracts/sets.py), for any number of
    channels with calibration functions """
    def summary(it, f, args, kwargs):
        b = bound(f, args, kwargs)
        data, cals = b['data'], b.get('calibrations')
        if b['**'] or cals is None or not isinstance(data, (V.MList, SeqV)) or not isinstance(cals, (V.MList, SeqV)):
            return NotImplemented
        data, cals = it.iter_seq(data), it.iter_seq(cals)
        if data.concrete or cals.concrete:
            return NotImplemented
        kinds = A.probe_kind(data.n, data.get)
        if not kinds or not all(isinstance(a, Arr) and a.ndim == 1 for a in kinds):
            return NotImplemented
        kinds = A.probe_kind(cals.n, cals.get)
        if not kinds or not all(isinstance(a, (UFn, I.FuncV)) for a in kinds):
            return NotImplemented
        n = data.n
        if C.branch(cmp('<=', n, 0)) or C.branch(cmp('!=', cals.n, n)):
            V.py_raise('AssertionError', 'channels')
        size = data.get(0).shape[0]
        if not C.forall_branch(n, lambda c: cmp('==', data.get(c).shape[0], size)):
            if C.infeasible():
                raise PathEnd()
            V.py_raise('AssertionError', 'lengths')
        b['self'].attrs.update(_data=data, _calibrations=cals, _sampling_rate=b['sampling_rate'],
                               _start=b.get('start', 0), _size=size)
    v.interp.contracts['signalset.SyncSignal.__init__'] = summary


def run_of(v, o):
    " number of the run where the samples of a signal come from (used as a witness only) "
    data = v.interp.iter_seq(v.attr(o, 'data'))
    a = data.get(0)
    src = getattr(a, 'src', None)
    if src is None:
        raise Unsupported('origin of a run')
    return src[1]


def set_contract(v):
    """ contract of SignalSet(tags, *signals) (proved in contracts/sets.py), for any number of signals

    the runs of the signals in increasing order of times, or an error when two of them are incompatible; then the tags
    """
    def summary(it, f, args, kwargs):
        if kwargs or len(args) < 2:
            return NotImplemented
        self, tags, sigs = args[0], args[1], args[2:]
        sync = it.resolve('signalset.SyncSignal')
        whole = it.resolve('signalset.SignalSet')
        for s in sigs:
            if isinstance(s, I.StarArg):
                kinds = A.probe_kind(s.seq.n, s.seq.get)
                if not kinds or not all(isinstance(o, Obj) and o.cls is sync for o in kinds):
                    return NotImplemented
            elif not isinstance(s, Obj) or s.cls not in (sync, whole):
                return NotImplemented
        if not any(isinstance(s, I.StarArg) or s.cls is whole for s in sigs):
            return NotImplemented
        parts = []
        for s in sigs:
            if isinstance(s, I.StarArg):
                parts.append(s.seq)
            elif s.cls is sync:
                parts.append(seq_of([s]))
            else:
                r = it.call(it.getattr(s, '_reorder_data'), [tags], {})
                parts.append(it.iter_seq(it.getattr(r, 'signals')))
        runs = V.seq_concat(*parts)
        n = runs.n
        nch = lambda s: it.iter_seq(it.getattr(s, 'data')).n
        times = lambda s: (zreal(it.getattr(s, 'start')), zreal(it.getattr(s, 'stop')))
        srt = V.seq_sorted(runs, lambda s: it.getattr(s, 'interval'))
        if not C.fork(lambda: None, lambda: None):
            a, b = C.fresh('a', INT), C.fresh('b', INT)
            C.assume(And(a >= 0, a < zint(n), b >= 0, b < zint(n), a != b))
            p, q = runs.get(a), runs.get(b)
            C.assume(invalid_pair(nch(p), times(p), nch(q), times(q)))
            if C.infeasible():
                raise PathEnd()
            V.py_raise('AssertionError', 'signals')
        if not (isinstance(n, int) and n <= 1):
            C.forall_fact(n, lambda k: cmp('==', nch(runs.get(k)), nch(runs.get(0))))

            def next_one(j):
                p, q = times(srt.get(j)), times(srt.get(add(j, 1)))
                return p[1] <= q[0] + 4 * rounding(*p, *q)
            C.forall_fact(sub(n, 1), next_one)
            if not srt.concrete:
                srt.hints['next'] = next_one
        self.attrs['_signals'] = srt
        self.attrs['_tags'] = None
        it.setattr(self, 'tags', tags)
    v.interp.contracts['signalset.SignalSet.__init__'] = summary


class Sym:
    " symbols of a signal set (or of a family of sets, with index args) "
    def __init__(self, v, name, nruns=None, args=(), tagged=True, nch=None, min_runs=0, single=False):
        self.v, self.name = v, name
        self.args = a = [zint(x) for x in args]
        da = [INT] * len(a)

        def fun(nm, dom, sort):
            f = z3.Function(name + '.' + nm, *(da + [INT] * dom + [sort]))
            return lambda *x: f(*a, *[zint(e) for e in x]) if (a or x) else z3.Const(name + '.' + nm, sort)
        self.R = fun('R', 0, INT)() if nruns is None else nruns
        self.N = fun('N', 0, INT)() if nch is None else nch
        self.start, self.rate = fun('start', 1, REAL), fun('rate', 1, REAL)
        self.size = fun('size', 1, INT)
        self.x = fun('x', 3, REAL)
        self.cal = fun('cal', 2, INT)
        self.T = fun('T', 0, INT)()
        self.tname, self.tlen, self.tidx = fun('tname', 1, INT), fun('tlen', 1, INT), fun('tidx', 2, INT)
        C.assume(self.N >= 1)
        if nruns is None:
            C.assume(self.R >= min_runs)
        if not a:
            C.inputs[name + '.R'], C.inputs[name + '.N'] = zint(self.R), zint(self.N)
        self.tags_obj = None

    def stop(self, k):
        return self.start(k) + (zreal(self.size(k)) - 1) / self.rate(k)

    def time(self, k, i):
        return self.start(k) + zreal(i) / self.rate(k)

    def run_facts(self, k):
        C.assume(And(self.size(k) >= 1, self.rate(k) > 0))
        # arithmetic fact on the duration
        d = (zreal(self.size(k)) - 1) / self.rate(k)
        C.assume(And(d >= 0, d * self.rate(k) == zreal(self.size(k)) - 1))

    def run(self, k):
        " SyncSignal object "
        it = self.v.interp
        size = self.size(k)
        self.run_facts(k)
        k = zint(k)

        def chan(c):
            r = Arr((size,), lambda i: self.x(k, c, i), F8)
            r.src = (self, k, zint(c))
            return inp(r)
        data = SeqV(self.N, chan)
        cals = SeqV(self.N, lambda c: cal_fn(self.cal(k, c)))
        o = Obj(it.resolve('signalset.SyncSignal'), {
            '_data': data, '_calibrations': cals, '_sampling_rate': self.rate(k), '_start': self.start(k),
            '_size': size})
        o.key = k
        o.origin = (self, k)
        return inp(o)

    def runs(self):
        if isinstance(self.R, int):
            return seq_of([C.in_scope(C.uid(), C.idx_args(), lambda k=k: self.run(k)) for k in range(self.R)])
        return SeqV(self.R, self.run)

    def invariants(self):
        " runs are sorted and do not overlap "
        C.forall_fact(self.R, lambda k: And(self.size(k) >= 1, self.rate(k) > 0, self.stop(k) >= self.start(k)))
        a, b = z3.Ints(C._name('a') + ' ' + C._name('b'))
        C.assume(z3.ForAll([a, b], Implies(And(0 <= a, a < b, b < zint(self.R)), self.stop(a) <= self.start(b)),
                           patterns=[z3.MultiPattern(self.start(a), self.start(b))]))

    def tags(self):
        " Tags object "
        if self.tags_obj is not None:
            return self.tags_obj
        it = self.v.interp
        N, T = self.N, self.T
        C.assume(zint(T) >= 0)

        def val(t):
            C.assume(self.tlen(t) >= 1)

            def idx(j):
                e = self.tidx(t, j)
                C.assume(And(e >= 0, e < N))
                return e
            return SeqV(self.tlen(t), idx)
        keys = SeqV(T, lambda t: SymStr(self.tname(t), user=True))
        vals = SeqV(T, val)
        if isinstance(T, int):
            keys, vals = (seq_of([s.get(t) for t in range(T)]) for s in (keys, vals))
        keys.hints['distinct'] = True
        a, b = z3.Ints(C._name('a') + ' ' + C._name('b'))
        C.assume(z3.ForAll([a, b], Implies(And(0 <= a, a < b, b < T), self.tname(a) != self.tname(b)),
                           patterns=[z3.MultiPattern(self.tname(a), self.tname(b))]))
        C.assume(z3.ForAll([a], Implies(And(0 <= a, a < T), And(self.tname(a) >= 0, self.tlen(a) >= 1)),
                           patterns=[self.tname(a)]))
        C.assume(z3.ForAll([a, b], Implies(And(0 <= a, a < T, 0 <= b, b < self.tlen(a)),
                                           And(self.tidx(a, b) >= 0, self.tidx(a, b) < N)),
                           patterns=[self.tidx(a, b)]))
        isalpha = V.str_pred('isalpha')
        sl = V.str_fun('slice_None_1_None')
        C.assume(z3.ForAll([a], Implies(And(0 <= a, a < T), isalpha(sl(self.tname(a)))), patterns=[self.tname(a)]))
        d = MDict(sym=(keys, vals), excluded=EVERY)
        o = Obj(it.resolve('signalset.Tags'), {'_tags': inp(d), '_indices': SetV(rng=V.RangeV(0, N), frozen=True)})
        self.tags_obj = inp(o)
        return o

    def sigset(self, tagged=True):
        it = self.v.interp
        user_names(self.v)
        self.invariants()
        o = Obj(it.resolve('signalset.SignalSet'), {'_signals': self.runs(), '_tags': self.tags()})
        o.sym = self
        return inp(o)


def sync_fields(v, s):
    " (data seq, cals seq, rate, start, size) through the public attributes "
    g = lambda n: v.attr(s, n)
    return (v.interp.iter_seq(g('data')), v.interp.iter_seq(g('calibrations')), g('sampling_rate'), g('start'),
            g('size'))


def same_cal(a, b):
    return zint(a.term) == zint(b) if isinstance(a, UFn) else z3.BoolVal(False)


def spacing_tol(*times):
    " admissible rounding on the times: 16 ulp of the largest "
    m = None
    for t in times:
        t = V.absv(t)
        m = t if m is None else V.num_max(m, t)
    tol = mul(16, lib.np_spacing(m))
    return zreal(tol)


def tol_facts(v, tol, rate):
    " every rounding bound met on the path, times the rate, is within the admissible one "
    for x, t in list(C.terms.get('spacing', ())):
        v.lemma('rounding bound', Implies(4 * t <= tol, 4 * t * rate <= tol * rate))
    v.lemma('rounding bound', Implies(rate > 0, tol * rate >= 0))


def int_terms(t):
    " integer subterms of a real term "
    out, stack, seen = [], [t], set()
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app_of(e, z3.Z3_OP_TO_REAL):
            out.append(e.arg(0))
        stack.extend(e.children())
    return out


def quotient_facts(v, S, k, terms):
    " (i / rate) * rate = i for the quotients met "
    for e in terms:
        q = zreal(e) / S.rate(k)
        v.lemma('quotient', q * S.rate(k) == zreal(e))


def numerator(t, start, rate):
    " the integer i of a term start + i / rate "
    t = z3.simplify(t)
    if z3.is_add(t) and t.num_args() == 2 and any(x.eq(start) for x in t.children()):
        q = [x for x in t.children() if not x.eq(start)][0]
        if z3.is_div(q) and q.arg(1).eq(rate):
            parts = q.arg(0).children() if z3.is_add(q.arg(0)) else [q.arg(0)]
            out = []
            for x in parts:
                if z3.is_app_of(x, z3.Z3_OP_TO_REAL):
                    out.append(x.arg(0))
                elif z3.is_rational_value(x) and x.denominator_as_long() == 1:
                    out.append(z3.IntVal(x.numerator_as_long()))
                else:
                    return None
            return z3.simplify(z3.Sum(out))
    return None


def find_index(v, S, k, t):
    " an integer i such that t is the time of sample i of run k (proved) "
    t = zreal(t)
    cands = [e for e in [numerator(t, S.start(k), S.rate(k))] if e is not None] + int_terms(t) + [z3.IntVal(0), zint(S.size(k)) - 1]
    for e in cands:
        g = t == S.time(k, e)
        if C.valid(g, 1500):
            v.prove('start is the time of a sample', g)
            C.assume(g)
            q = zreal(e) / S.rate(k)
            v.lemma('quotient', q * S.rate(k) == zreal(e))
            return e
    i0 = V.zround((t - S.start(k)) * S.rate(k))
    v.lemma('start is the time of a sample', t == S.time(k, i0))
    return i0


def inside(S, k, i, t0, t1, slack):
    " time of sample i of run k in [t0 - slack, t1 + slack] (multiplied by the positive rate) "
    c = []
    r = S.rate(k)
    if not V.isinf(t0):
        c.append(zreal(i) >= (zreal(t0) - S.start(k)) * r - slack * r)
    if not V.isinf(t1):
        c.append(zreal(i) <= (zreal(t1) - S.start(k)) * r + slack * r)
    return And(*c)


def rounding(*times):
    " bound of the rounding errors on times "
    m = None
    for t in times:
        t = V.absv(t)
        m = t if m is None else V.num_max(m, t)
    return zreal(lib.np_spacing(m))


def adjacent(v, res, label='runs'):
    " runs in increasing order of times, without overlap "
    def pair(j):
        if 'next' in res.hints:       # instance of the contract of the constructor
            C.assume(res.hints['next'](j))
        p, q = res.get(j), res.get(add(j, 1))
        p0, p1, q0, q1 = [zreal(v.attr(o, n)) for o in (p, q) for n in ('start', 'stop')]
        v.prove(label + ' in increasing order', Or(p0 < q0, And(p0 == q0, p1 <= q1)))
        v.prove(label + ' do not overlap', p1 <= q0 + 4 * rounding(p0, p1, q0, q1))
        return True
    v.forall(label + ': consecutive', sub(res.n, 1), pair)


def witnesses(v, k):
    " candidate positions in a result of the element coming from k "
    out = [zint(k)]
    for f in C.filters:
        out.append(f[3][2](k))
    for s in C.sorts:
        out += [s[2][1](w) for w in list(out)]
    return out
