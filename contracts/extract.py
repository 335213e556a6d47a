" C01: extraction of time intervals "
from .sigs import *


def bounds(v, kind):
    if kind == 'both':
        return v.real('t0'), v.real('t1')
    if kind == 'left':
        return -V.INF, v.real('t1')
    if kind == 'right':
        return v.real('t0'), V.INF


def fin(*ts):
    return [t for t in ts if not V.isinf(t)]


# ---------------------------------------------------------------------------
# SyncSignal.extract_t
# ---------------------------------------------------------------------------
def sync_post(S, k, t0, t1, i0, n, tol, i):
    """ postconditions of SyncSignal.extract_t on run k: samples i0 .. i0 + n - 1 are kept

    (list of (label, formula)); i: arbitrary sample
    """
    r = S.rate(k)
    size = S.size(k)
    start, stop = S.start(k), S.stop(k)
    meets = And(*([zreal(t0) <= stop] if not V.isinf(t0) else []),
                *([zreal(t1) >= start] if not V.isinf(t1) else []),
                *([zreal(t0) <= zreal(t1)] if not (V.isinf(t0) or V.isinf(t1)) else []))
    kept = And(i >= i0, i < i0 + n)
    isin = And(i >= 0, i < size)
    return [
        ('kept samples exist', And(n >= 0, Implies(n > 0, And(i0 >= 0, i0 + n <= size)))),
        ('kept samples are inside the interval (up to rounding)',
         Implies(And(isin, kept, Or(meets, n >= 2)), inside(S, k, i, t0, t1, tol))),
        ('samples inside the interval (beyond rounding) are kept',
         Implies(And(isin, inside(S, k, i, t0, t1, -tol)), kept)),
    ]


def rounded_facts(v, S, k, *times):
    " the positions rounded are products of a duration by the rate: they have its sign, and are in the same order "
    rate, size, start = S.rate(k), S.size(k), S.start(k)
    sign = v.pure('sign of a product', lambda d, r: Implies(And(d >= 0, r > 0), d * r >= 0), 'rr')
    mono = v.pure('order of products', lambda d, e, r: Implies(And(d <= e, r > 0), d * r <= e * r), 'rrr')
    quot = v.pure('quotient', lambda a, r: Implies(r > 0, (a / r) * r == a), 'rr')
    ds = [z3.RealVal(0), (zreal(size) - 1) / rate] + [zreal(t) - start for t in times]
    quot(zreal(size) - 1, rate)
    for key, val in list(C.memo.items()):
        if not (isinstance(key, tuple) and key[:2] == ('named', 'x')):
            continue
        t = val[1]
        if z3.is_mul(t) and t.num_args() == 2 and any(x.eq(rate) for x in t.children()):
            d = [x for x in t.children() if not x.eq(rate)][0]
            if z3.is_div(d) and d.arg(1).eq(rate):
                quot(d.arg(0), rate)
            ds.append(d)
    for d in ds:
        for e in ds:
            if not d.eq(e):
                mono(d, e, rate)
    for _, t in list(C.terms.get('spacing', ())):
        sign(t, rate)
    if core.linear_unsat([f for f, _, _ in C.pc if not core.has_quant(f)], 5000):
        raise PathEnd()


def sync_extract(v, strict, kind):
    S = Sym(v, 's', nruns=1)
    s = S.runs().get(0)
    t0, t1 = bounds(v, kind)
    start, stop, size = S.start(0), S.stop(0), S.size(0)
    st, r = v.attempt('signalset.SyncSignal.extract_t', s, t0, t1, strict)
    if strict:
        ok = And(start <= t0, t0 <= stop, start <= t1, t1 <= stop)
    if st == 'raise':
        if strict:
            v.prove('strict extraction rejects only bounds outside of the signal, or reversed',
                    Or(Not(ok), t0 > t1))
            v.reached('rejection')
        else:
            v.unreachable('no rejection (%s)' % r)
        return
    if strict:
        v.prove('bounds inside of the signal', ok)
    tol = spacing_tol(start, stop, *fin(t0, t1))
    rounded_facts(v, S, 0, *fin(t0, t1))
    data, cals, rate, rstart, rsize = sync_fields(v, r)
    v.prove('sampling rate unchanged', cmp('==', rate, S.rate(0)))
    v.prove('one data per channel', cmp('==', data.n, S.N))
    v.prove('one calibration per channel', cmp('==', cals.n, S.N))
    # the kept samples are those of positions i0 .. i0 + size - 1
    i0 = find_index(v, S, 0, rstart)
    tol_facts(v, tol, S.rate(0))
    i = C.fresh('i', INT)
    for label, f in sync_post(S, 0, t0, t1, zint(i0), zint(rsize), tol, i):
        v.prove(label, f)
    q = (zreal(i0) + zreal(rsize) - 1) / S.rate(0)
    v.prove('times of the piece inside those of the signal',
            Implies(zint(rsize) >= 1, And(rstart >= start, i0 + rsize <= size)))

    def chan(c):
        a = A.asarray(data.get(c))
        v.prove('size of every channel', cmp('==', a.shape[0], rsize))
        v.forall('sample unchanged and in order', rsize, lambda j: And(
            cmp('==', a.get(j), S.x(0, c, add(i0, j))), zint(i0) >= 0, zint(i0) + zint(j) < size))
        v.prove('calibration unchanged', same_cal(cals.get(c), S.cal(0, c)))
        return True
    v.forall('channel', S.N, chan)
    v.frame()
    v.reached()


for kind in ('both', 'left', 'right'):
    case('C01 C10', 'signalset.SyncSignal.extract_t', 'strict=False %s' % kind, budget=150)(
        lambda v, kind=kind: sync_extract(v, False, kind))
case('C01 C10', 'signalset.SyncSignal.extract_t', 'strict=True', reach=('normal end', 'rejection'))(
    lambda v: sync_extract(v, True, 'both'))


def extract_summary(v):
    """ contract of SyncSignal.extract_t (proved above) used for its callers

    the piece of an arbitrary run: fresh position i0 and size n satisfying the postconditions
    """
    memo = {}

    def positions(S, k, t0, t1):
        " position and size of the piece: functions of the run and of the bounds "
        key = (S.name, tuple(a.get_id() for a in S.args), str(t0) if V.isinf(t0) else zreal(t0).get_id(),
               str(t1) if V.isinf(t1) else zreal(t1).get_id())
        if key not in memo:
            nm = 'ext%d' % len(memo)
            memo[key] = z3.Function(nm + '.i0', INT, INT), z3.Function(nm + '.n', INT, INT), t0, t1
        I0, NN = memo[key][:2]
        return I0(zint(k)), NN(zint(k))

    def facts(S, k, t0, t1, *samples):
        " the postconditions, for the given samples "
        i0, n = positions(S, k, t0, t1)
        r = S.rate(k)
        tol = spacing_tol(S.start(k), S.stop(k), *fin(t0, t1))
        C.assume(tol * r >= 0)
        for i in (z3.IntVal(0),) + samples:
            C.assume(And(*[f for _, f in sync_post(S, k, t0, t1, i0, n, tol, zint(i))]))
        start = S.start(k) + zreal(i0) / r
        stop = start + (zreal(n) - 1) / r
        C.assume(Implies(n >= 1, And(start >= S.start(k), stop <= S.stop(k), start <= stop)))
        return i0, n, r, start

    def summary(it, f, args, kwargs):
        names = ['self', 'start', 'stop', 'strict']
        b = dict(zip(names, args))
        b.update(kwargs)
        s, t0, t1 = b['self'], b['start'], b['stop']
        if b.get('strict', False) is not False or not hasattr(s, 'origin'):
            raise Unsupported('extract_t outside of its contract')
        S, k = s.origin
        i0, n, r, start = facts(S, k, t0, t1)
        cls = it.resolve('signalset.SyncSignal')
        data, cals = s.attrs['_data'], s.attrs['_calibrations']
        o = Obj(cls, {
            '_data': SeqV(data.n, lambda c: Arr((n,), lambda j: data.get(c).get(add(i0, j)), F8)),
            '_calibrations': cals, '_sampling_rate': r, '_start': start, '_size': n})
        o.piece = (S, k, i0, n)
        return o
    v.piece_facts = facts
    return {'signalset.SyncSignal.extract_t': summary}


def set_extract(v, kind):
    S = Sym(v, 's')
    s = S.sigset()
    t0, t1 = bounds(v, kind)
    v.interp.contracts.update(extract_summary(v))
    st, r = v.attempt('signalset.SignalSet.extract_t', s, t0, t1)
    if st == 'raise':
        v.unreachable('no rejection (%s)' % r)
        return
    runs = v.interp.iter_seq(v.attr(r, 'signals'))

    def one(j):
        p = runs.get(j)
        v.expect('a run of the result is a piece of a run', hasattr(p, 'piece'))
        if not hasattr(p, 'piece'):
            return True
        S_, k, i0, n = p.piece
        data, cals, rate, rstart, rsize = sync_fields(v, p)
        v.prove('the piece comes from a run of the set', And(k >= 0, k < S.R))
        v.prove('runs left with fewer than two samples are dropped', cmp('>=', rsize, 2))
        v.prove('sampling rate unchanged', cmp('==', rate, S.rate(k)))
        v.prove('time of the first sample', cmp('==', rstart, S.time(k, i0)))
        v.prove('channels', And(cmp('==', data.n, S.N), cmp('==', cals.n, S.N)))

        def chan(c):
            a = A.asarray(data.get(c))
            v.prove('size of every channel', cmp('==', a.shape[0], rsize))
            v.forall('sample unchanged', rsize, lambda i: cmp('==', a.get(i), S.x(k, c, add(i0, i))))
            v.prove('calibration unchanged', same_cal(cals.get(c), S.cal(k, c)))
            return True
        v.forall('channel', S.N, chan)
        return True
    v.forall('run', runs.n, one)

    def complete(k):
        " a run with at least two samples inside has its piece in the result "
        src = s.attrs['_signals'].get(k)
        goals = []

        def some(j):
            p = runs.get(j)
            if not hasattr(p, 'piece'):
                return z3.BoolVal(False)
            return p.piece[1] == zint(k)
        a, b = C.fresh('a', INT), C.fresh('b', INT)
        tol = spacing_tol(S.start(k), S.stop(k), *fin(t0, t1))
        C.assume(And(0 <= a, a < b, b < S.size(k), inside(S, k, a, t0, t1, -tol), inside(S, k, b, t0, t1, -tol)))
        i0, n = v.piece_facts(S, k, t0, t1, a, b)[:2]
        v.lemma('a run with at least two samples inside has a piece', n >= 2)
        v.some('a run with at least two samples inside is kept', runs.n,
               [lambda w=w: w for w in witnesses(v, k)], some)
        return True
    # the pieces of the runs, by the contract of extract_t
    v.forall('complete', S.R, complete)
    same_tags(v, r, s, S)
    v.frame()
    v.reached()


def same_tags(v, r, s, S):
    " tags of the result: the same names on the same channels, and its own copy "
    t = v.attr(r, 'tags')
    v.prove('owns its tags', z3.BoolVal(not getattr(t, 'inp', False) and not t.attrs['_tags'].inp))
    d = t.attrs['_tags']
    keys, vals = d.keys(), d.values()
    v.prove('as many tags', cmp('==', keys.n, S.T))

    def tag(k):
        v.prove('tag name', V.eq(keys.get(k), SymStr(S.tname(k))))
        val = seq_of(vals.get(k))
        v.prove('tag length', cmp('==', val.n, S.tlen(k)))
        v.forall('tag channel', S.tlen(k), lambda j: cmp('==', val.get(j), S.tidx(k, j)))
        return True
    v.forall('tag', S.T, tag)


for kind in ('both', 'left', 'right'):
    case('C01 C02 C03 C10', 'signalset.SignalSet.extract_t', 'interval %s' % kind)(
        lambda v, kind=kind: set_extract(v, kind))


