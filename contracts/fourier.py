""" fourier_transform.py: C11 (window tiling), C12 (coefficients) """
from .base import *


def params(v):
    size = v.int('size', 0)
    nf = v.real('nf')
    nper = v.real('Nper')
    overlap = v.real('overlap')
    C.assume(nper > 0)
    return size, nf, nper, overlap


def spec_sizes(x, overlap):
    " (length, shift) of the specification "
    L = V.zceil(x)
    return L, V.zfloor(mul(L, sub(1, overlap)))


def quot(v, a, b):
    " floor(a / b) as the integer quotient "
    v.lemma("quotient lemma", Implies(b > 0, And(V.zfloor(div(a, b, False)) * b <= a, a < (V.zfloor(div(a, b, False)) + 1) * b)))


def window_spec(v, size, nf, nper, overlap, Nw, Lw, shift, views=None):
    x = nper / nf
    v.prove('window length is the least integer >= Nper * rate / freq', And(zreal(Lw) >= x, zreal(Lw) - 1 < x))
    y = zreal(Lw) * (1 - overlap)
    v.prove('shift is the integer part of length * (1 - overlap)', And(zreal(shift) <= y, y < zreal(shift) + 1))
    v.prove('shift is positive', zint(shift) >= 1)


@case('C11', 'fourier_transform.discrete_window', 'sizes and rejections')
def _(v):
    size, nf, nper, overlap = params(v)
    st, r = v.attempt('fourier_transform.discrete_window', size, nf, nper, overlap)
    bad = Or(nf <= 0, nf > z3.RealVal('1/2'), overlap < 0, overlap > 1)
    if st == 'raise':
        # the rejection is justified
        L, S = spec_sizes(nper / nf, overlap)
        quot(v, size - L, S)
        v.prove('rejected only when out of range or too short (%s)' % r, Or(bad, S < 1, size < L + S))
        v.reached('rejection')
        return
    Nw, Lw, shift = seq_of(r).list()
    v.prove('accepted only in range', Not(bad))
    window_spec(v, size, nf, nper, overlap, Nw, Lw, shift)
    v.prove('at least one window and one shift', And(zint(Lw) + zint(shift) <= size, zint(Nw) >= 1))
    v.reached()


def wave(v, w, k):
    " window function * exp(-2 i pi nf k) * 2 / L "


def run_ttf(v, window):
    n = v.int('nch', 1)
    size = v.int('size', 0)
    freq, rate = v.real('freq'), v.real('rate')
    nper, overlap = v.real('Nper'), v.real('overlap')
    C.assume(And(rate > 0, nper > 0))
    X = z3.Function('X', INT, INT, REAL)

    def chan(c):
        a = Arr((size,), lambda i: X(zint(c), zint(i)), F8)
        a.birth, a.inp = 0, True
        return a
    data = SeqV(n, chan)
    W = z3.Function('W', INT, REAL)
    win = None
    if window == 'callable':
        win = UFn(z3.Int('window'), lambda N: Arr((N,), lambda i: W(zint(i)), F8))
    elif window == 'array':
        wl = v.int('wlen', 0)
        win = Arr((wl,), lambda i: W(zint(i)), F8)
        win.birth, win.inp = 0, True
    st, r = v.attempt('fourier_transform.time_to_freq', data, rate, freq, nper, overlap, win)
    nf = freq / rate
    bad = Or(nf <= 0, nf > z3.RealVal('1/2'), overlap < 0, overlap > 1)
    if st == 'raise':
        L, S = spec_sizes(nper / nf, overlap)
        quot(v, size - L, S)
        ok = Or(bad, S < 1, size < L + S)
        if window == 'array':
            ok = Or(ok, wl != L)
        v.prove('rejected only when out of range, too short or wrong window (%s)' % r, ok)
        v.reached('rejection')
        return
    coeffs, infos = seq_of(r).list()
    Nw, Lw, shift = seq_of(infos).list()
    v.prove('accepted only in range', Not(bad))
    if window == 'array':
        v.prove('window of the right length', wl == zint(Lw))
    window_spec(v, size, nf, nper, overlap, Nw, Lw, shift)
    v.prove('at least one window', zint(Nw) >= 1)
    v.prove('all windows lie inside the run', (zint(Nw) - 1) * zint(shift) + zint(Lw) <= size)
    v.prove('no further window fits', zint(Nw) * zint(shift) + zint(Lw) > size)
    coeffs = v.interp.iter_seq(coeffs)
    v.prove('one result per channel', zint(coeffs.n) == n)

    def per(c):
        a = A.asarray(coeffs.get(c))
        v.prove('one dimensional coefficients', a.ndim == 1)
        v.prove('the reported number of windows is the number of coefficients', zint(a.shape[0]) == zint(Nw))

        def elem(w):
            def term(k):
                ang = mul(mul(-2, mul(V.PI, nf)), k)
                e = V.XNum(V.COS(zreal(ang)), V.SIN(zreal(ang)))
                e = mul(e, div(2, Lw))
                if window:
                    e = mul(e, W(zint(k)))
                return mul(e, X(zint(c), zint(add(mul(w, shift), k))))
            spec = V.xnum(A.sum_red(Lw, term))
            got = V.xnum(a.get(w))
            v.prove('coefficient = normalised windowed sum (real part)', cmp('==', got.re, spec.re))
            v.prove('coefficient = normalised windowed sum (imaginary part)', cmp('==', got.im, spec.im))
            v.prove('no NaN', bnot(got.nan))
            return True
        v.forall('window', Nw, elem)
        return True
    v.forall('channel', n, per)
    v.frame()
    v.reached()


for w in (None, 'callable', 'array'):
    case('C11 C12', 'fourier_transform.time_to_freq', 'window=%s' % w)(lambda v, w=w: run_ttf(v, w))


# ---------------------------------------------------------------------------
# C12: calibrated coefficients of a run, of a signal set
# ---------------------------------------------------------------------------
def inp(o):
    o.birth, o.inp = 0, True
    return o


def fparams(v, opts):
    freq, nper, overlap = v.real('freq'), v.real('Nper'), v.real('overlap')
    win = UFn(z3.Int('window'), None)
    kw = dict(option=v.real('option')) if opts else {}
    return freq, nper, overlap, win, kw


def passed(v, d, freq, nper, overlap, win, kw, f='freq'):
    v.prove('parameters passed', And(zreal(d['freq']) == freq, zreal(d['Nper']) == nper, zreal(d['overlap']) == overlap,
                                     z3.BoolVal(d['window'] is win)))
    v.prove('options passed', And(z3.BoolVal(set(d['**']) == set(kw)), *[zreal(d['**'][k]) == kw[k] for k in kw if k in d['**']]))


def run_coefficients(v, opts):
    n, size, rate, start = v.int('channels', 1), v.int('size', 1), v.real('rate'), v.real('start')
    C.assume(rate > 0)
    freq, nper, overlap, win, kw = fparams(v, False)
    if opts:
        kw = dict(compute=True)
    X = z3.Function('X', INT, INT, REAL)
    has = z3.Function('has.calibration', INT, z3.BoolSort())
    cal = [z3.Function('calibration.' + c, INT, REAL, REAL) for c in ('re', 'im')]

    def chan(c):
        a = Arr((size,), lambda i: X(zint(c), zint(i)), F8)
        a.birth, a.inp = 0, True
        return a

    def value(c, f=freq):
        c = zint(c)
        return V.XNum(*[g(c, zreal(f)) for g in cal])

    def calib(c):
        c = zint(c)

        def call(f):
            if not C.branch(has(c)):
                return None
            x = value(c, f)
            C.assume(Or(zreal(x.re) != 0, zreal(x.im) != 0))
            return x
        return UFn(c, call)
    o = inp(Obj(v.func('signalset.SyncSignal'), {
        '_data': SeqV(n, chan), '_calibrations': SeqV(n, calib), '_sampling_rate': rate, '_start': start, '_size': size}))
    calls = []
    Nw, Lw, shift = v.int('Nw', 1), v.int('Lw', 1), v.int('shift', 1)
    raw = [z3.Function('raw.' + c, INT, INT, REAL) for c in ('re', 'im')]

    def contract(it, fn, args, kwargs):
        d = bound(fn, args, kwargs)
        calls.append(d)
        if C.branch(z3.Bool('transform.fails')):
            V.py_raise('ValueError', 'no window')
        coeffs = SeqV(n, lambda c: Arr((Nw,), lambda w: V.XNum(*[g(zint(c), zint(w)) for g in raw]), C16))
        return (coeffs, (Nw, Lw, shift))
    v.interp.contracts['fourier_transform.time_to_freq'] = contract
    st, r = v.attempt(v.attr(o, 'fourier_coefficients'), freq, nper, overlap, win, **kw)
    if st == 'raise':
        c = C.fresh('c', INT)
        all_have = z3.ForAll([c], Implies(And(c >= 0, c < n), has(c)), patterns=[has(c)])
        v.prove('only a missing calibration or a failure of the transform is rejected', Or(Not(all_have), z3.Bool('transform.fails')))
        return
    v.prove('failures of the transform are reported', Not(z3.Bool('transform.fails')))
    v.forall('a calibration without value is rejected', n, lambda c: has(zint(c)))
    d = calls[-1]
    passed(v, d, freq, nper, overlap, win, {})
    v.prove('option passed', z3.BoolVal(d.get('compute', True) is True))
    v.prove('sampling rate passed', zreal(d['sampling_freq']) == rate)
    v.prove('channels passed', lambda: same(d['data'], SeqV(n, chan)))
    coeffs, infos = seq_of(r).list()
    infos = seq_of(infos).list()
    v.prove('windows reported', And(z3.BoolVal(len(infos) == 3), *[zint(a) == b for a, b in zip(infos, (Nw, Lw, shift))]))
    coeffs = seq_of(coeffs)
    v.prove('one array per channel', cmp('==', coeffs.n, n))

    def per(c):
        a = A.asarray(coeffs.get(c))
        v.prove('one coefficient per window', zint(a.shape[0]) == Nw)
        cc = value(c)
        C.assume(Or(zreal(cc.re) != 0, zreal(cc.im) != 0))
        div_lemma = v.pure('quotient', lambda a, b, x, y: Implies(x * x + y * y > 0, And(
            (((a * x + b * y) / (x * x + y * y)) * x - ((b * x - a * y) / (x * x + y * y)) * y) == a,
            (((a * x + b * y) / (x * x + y * y)) * y + ((b * x - a * y) / (x * x + y * y)) * x) == b)), 'rrrr')

        def elem(w):
            x = V.XNum(*[g(zint(c), zint(w)) for g in raw])
            div_lemma(zreal(x.re), zreal(x.im), zreal(cc.re), zreal(cc.im))
            got, want = V.xnum(a.get(w)), V.xnum(div(x, cc))
            return And(zreal(got.re) == zreal(want.re), zreal(got.im) == zreal(want.im), Not(asz(got.nan)))
        v.forall('coefficient divided by the calibration of the channel at the frequency', Nw, elem)
        return True
    v.forall('channel', n, per)
    v.frame()
    v.reached()


def set_coefficients(v, opts, runs=None):
    n = v.int('channels', 1)
    R = v.int('runs', 1) if runs is None else runs
    freq, nper, overlap, win, kw = fparams(v, opts)
    it = v.interp

    def run(k):
        o = inp(Obj(it.resolve('signalset.SyncSignal'), {'number': zint(k)}))
        return o
    tags = inp(Obj(it.resolve('signalset.Tags'), {}))
    o = inp(Obj(it.resolve('signalset.SignalSet'), {
        '_signals': SeqV(R, run) if runs is None else seq_of([run(k) for k in range(R)]), '_tags': tags}))
    NW, LW, SH = [z3.Function('win.' + x, INT, INT) for x in ('n', 'len', 'shift')]
    raw = [z3.Function('coeff.' + c, INT, INT, INT, REAL) for c in ('re', 'im')]
    fails = z3.Function('run.fails', INT, z3.BoolSort())

    def coeff(k, c):
        k, c = zint(k), zint(c)
        return Arr((NW(k),), lambda w: V.XNum(*[g(k, c, zint(w)) for g in raw]), C16)
    seen = []

    def contract(it, fn, args, kwargs):
        d = bound(fn, args, kwargs)
        k = zint(d['self'].attrs['number'])
        seen.append((k, d))
        passed(v, d, freq, nper, overlap, win, kw)
        if C.branch(fails(k)):
            V.py_raise('ValueError', 'no window')
        C.assume(And(NW(k) >= 1, LW(k) >= 1, SH(k) >= 1))
        return (SeqV(n, lambda c: coeff(k, c)), (NW(k), LW(k), SH(k)))
    it.contracts['signalset.SyncSignal.fourier_coefficients'] = contract
    st, r = v.attempt(v.attr(o, 'fourier_coefficients'), freq, nper, overlap, win, **kw)
    if st == 'raise':
        k = C.fresh('k', INT)
        v.prove('only rejected when a run is', Not(z3.ForAll([k], Implies(And(k >= 0, k < zint(R)), Not(fails(k))), patterns=[fails(k)])))
        return
    v.forall('failures are reported', R, lambda k: Not(fails(zint(k))))
    coeffs, infos = seq_of(r).list()
    infos = seq_of(infos).list()
    v.prove('three lists of window data', z3.BoolVal(len(infos) == 3))
    for label, g, l in zip(('number', 'length', 'shift'), (NW, LW, SH), infos):
        l = seq_of(l)
        v.prove('one %s of windows per run' % label, cmp('==', l.n, R))
        v.forall('%s, in run order' % label, R, lambda k, g=g, l=l: zint(l.get(k)) == g(zint(k)))
    coeffs = seq_of(coeffs)
    v.prove('one array per channel', cmp('==', coeffs.n, n))

    def per(c):
        a = A.asarray(coeffs.get(c))
        want = A.concat_seq(SeqV(R, lambda k: coeff(k, c)) if runs is None else seq_of([coeff(k, c) for k in range(R)]))
        v.prove('as many coefficients as windows', zint(a.shape[0]) == zint(want.shape[0]))

        def elem(w):
            x, y = V.xnum(a.get(w)), V.xnum(want.get(w))
            return And(zreal(x.re) == zreal(y.re), zreal(x.im) == zreal(y.im))
        v.forall('coefficients of the runs, in run order', want.shape[0], elem)
        return True
    v.forall('channel', n, per)
    v.frame()
    v.reached()


for opts in (False, True):
    case('C12 C10', 'signalset.SyncSignal.fourier_coefficients', 'calibrated%s' % (', options' if opts else ''))(
        lambda v, opts=opts: run_coefficients(v, opts))
    for runs in (None, 1, 2, 3):
        case('C12 C10', 'signalset.SignalSet.fourier_coefficients', '%s runs%s' % (
            'any number of' if runs is None else runs, ', options' if opts else ''))(
            lambda v, opts=opts, runs=runs: set_coefficients(v, opts, runs))
