" utils.py: C17 (frequencies on their own), C18 (impedance via the remote), C19 (invalid times) "
from .base import *
from .sums import *
from .mest import index_array, fail

TAGS = dict(E='E', B='B', R='R')


class Data:
    " an arbitrary signal set with electric, magnetic and remote channels "
    def __init__(self, v, names=TAGS, sizes=None, runs=None):
        self.v = v
        it = v.interp
        self.nch = v.int('channels', 1)
        self.size, self.idx = {}, {}
        tags = {}
        for t, nm in names.items():
            n = self.size[t] = v.int('N' + t, 1) if sizes is None else sizes[t]
            f = self.idx[t] = z3.Function('channel.' + t, INT, INT)

            def get(j, f=f, n=n):
                j = zint(j)
                C.assume(Implies(And(j >= 0, j < zint(n)), And(f(j) >= 0, f(j) < self.nch)))
                return f(j)
            tags[nm] = SeqV(n, get) if not isinstance(n, int) else seq_of([get(j) for j in range(n)])
        self.R = v.int('runs', 1) if runs is None else runs
        d = MDict(items=list(tags.items()))
        d.birth, d.inp = 0, True
        self.tags = Obj(it.resolve('signalset.Tags'), {'_tags': d, '_indices': SetV(rng=V.RangeV(0, self.nch), frozen=True)})
        self.start, self.rate = [z3.Function('run.' + x, INT, REAL) for x in ('start', 'rate')]
        self.Nw, self.Lw, self.shift = [z3.Function('win.' + x, INT, INT) for x in ('n', 'len', 'shift')]
        self.X = [z3.Function('coeff.' + c, INT, INT, REAL) for c in ('re', 'im')]
        self.N = v.int('windows', 1)
        self.obj = Obj(it.resolve('signalset.SignalSet'), {'_signals': self.seq(self.run), '_tags': self.tags})
        for o in (self.tags, self.obj):
            o.birth, o.inp = 0, True
        self.calls = []
        it.contracts['signalset.SignalSet.fourier_coefficients'] = self.fourier

    def seq(self, get):
        " per run "
        return seq_of([get(k) for k in range(self.R)]) if isinstance(self.R, int) else SeqV(self.R, get)

    def run(self, k):
        k = zint(k)
        C.assume(self.rate(k) > 0)
        o = Obj(self.v.interp.resolve('signalset.SyncSignal'), {
            '_sampling_rate': self.rate(k), '_start': self.start(k)})
        o.birth, o.inp = 0, True
        return o

    def coeff(self, c):
        c = zint(c)
        a = Arr((self.N,), lambda n: V.XNum(*[f(c, zint(n)) for f in self.X]), C16)
        return a

    def fourier(self, it, f, args, kwargs):
        " contract of fourier_coefficients: one array per channel; numbers of windows, lengths and shifts per run "
        d = bound(f, args, kwargs)
        self.calls.append(dict(d, **d['**']))
        if C.branch(z3.Bool('fourier.fails')):
            V.py_raise('ValueError', 'no window')
        self.failed = False

        def ints(g):
            def get(k):
                C.assume(And(self.Nw(zint(k)) >= 1, self.Lw(zint(k)) >= 1, self.shift(zint(k)) >= 1))
                return g(zint(k))
            return self.seq(get)
        return (SeqV(self.nch, self.coeff), (ints(self.Nw), ints(self.Lw), ints(self.shift)))

    def group(self, t):
        " coefficients of a group of channels "
        return SeqV(self.size[t], lambda j: self.coeff(self.idx[t](zint(j))))

    def mat(self, t):
        return Arr((self.size[t], self.N), lambda j, n: self.coeff(self.idx[t](zint(j))).get(n), C16)


def prefilter(v, name, N):
    " an arbitrary prefilter: positions of the samples to reject, which depend on its arguments "
    def call(line, inputs):
        line, inputs = A.asarray(line), A.asarray(inputs)
        if C.branch(z3.Bool(name + '.fails')):
            V.py_raise('ZeroDivisionError', name)
        tok, = A.uf_op(name, [(line.shape, line.fn), (inputs.shape, inputs.fn)], [], ['tok'], [INT])
        n, at = z3.Function(name + '.n', INT, INT), z3.Function(name + '.at', INT, INT, INT)
        C.assume(n(tok) >= 0)

        def get(k):
            x = at(tok, zint(k))
            C.assume(Implies(And(zint(k) >= 0, zint(k) < n(tok)), And(x >= 0, x < zint(N))))
            return x
        return Arr((n(tok),), get, I8)
    return UFn(z3.Int(name), call)


def union(a, b):
    " the sorted union of two index arrays "
    return lib.np_union1d(a, b)


def row(a, i):
    return Arr((a.shape[1],), lambda n: a.get(i, n), a.dtype)


NONE = lambda: Arr((0,), lambda k: z3.IntVal(0), I8)


def add_rejections(base, pre, line, inputs):
    " specification: the base, augmented by the prefilter "
    if pre is None:
        return base
    return union(base, pre.impl(line, inputs))


# ---------------------------------------------------------------------------
# apply_prefilter
# ---------------------------------------------------------------------------
def apply_case(v, kind, pre):
    P, Q, N = v.int('P', 1), v.int('Q', 1), v.int('N', 1)
    out, inp = v.array('out', (P, N), C16), v.array('inp', (Q, N), C16)
    f = prefilter(v, 'pre', N) if pre else None
    iv, base = None, lambda i: NONE()
    if kind == 'empty':
        iv = V.MList([])
    elif kind == 'common':
        ii = index_array(v, 'ii', N)
        iv, base = ii, lambda i: ii
        C.assume(zint(ii.shape[0]) > 0)
    elif kind == 'each':
        cnt, at = z3.Function('cnt', INT, INT), z3.Function('at', INT, INT, INT)

        def base(i):
            C.assume(cnt(zint(i)) >= 0)
            a = Arr((cnt(zint(i)),), lambda k: at(zint(i), zint(k)), I8)
            a.birth, a.inp = 0, True
            return a
        iv = SeqV(P, base)
    st, r = v.attempt('utils.apply_prefilter', SeqV(P, lambda i: row(out, i)), inp, f, iv)
    if st == 'raise':
        v.prove('only failures of the prefilter', z3.BoolVal(pre and r == 'ZeroDivisionError'))
        return
    r = seq_of(r)
    v.prove('one list per output', zint(r.n) == P)
    t = A.transpose(inp)

    def one(i):
        if pre:
            C.assume(Not(z3.Bool('pre.fails')))
        want = add_rejections(base(i), f, row(out, i), t)
        got = A.asarray(r.get(i))
        v.prove('integers', z3.BoolVal(got.dtype.kind == 'int'))
        return same(got, want)
    v.forall('rejections of the prefilter added to the other exclusions', P, one)
    v.frame()
    v.reached()


for kind in ('none', 'empty', 'common', 'each'):
    for pre in (False, True):
        case('C18 C10', 'utils.apply_prefilter', 'excluded: %s, %s' % (kind, 'prefilter' if pre else 'no prefilter'))(
            lambda v, kind=kind, pre=pre: apply_case(v, kind, pre))


# ---------------------------------------------------------------------------
# impedance: one frequency
# ---------------------------------------------------------------------------
def abstract_prefilter(v, N):
    " contract of apply_prefilter (proved above) "
    def f(it, fn, args, kwargs):
        d = bound(fn, args, kwargs)
        out, inputs, pre, iv = seq_of(d['outputs']), A.asarray(d['inputs']), d['prefilter'], d.get('invalid_idx')
        if pre is not None and C.branch(z3.Bool('prefilter.fails')):
            V.py_raise('ZeroDivisionError', 'prefilter')
        if iv is not None:
            iv = seq_of(iv)
            v.prove('one list of exclusions per output', zint(iv.n) == zint(out.n))
        return SeqV(out.n, lambda i: rejected_by(NONE() if iv is None else A.asarray(iv.get(i)), pre,
                                                 A.asarray(out.get(i)), inputs, N))
    return f


def rejected_by(base, pre, line, inputs, N):
    " the exclusions augmented by the prefilter: a function of its arguments "
    if pre is None:
        return base
    tok, = A.uf_op('prefiltered', [(base.shape, base.fn), (line.shape, line.fn), (inputs.shape, inputs.fn)], [pre.term],
                   ['tok'], [INT])
    n, at = z3.Function('pre.n', INT, INT), z3.Function('pre.at', INT, INT, INT)
    C.assume(n(tok) >= 0)
    return Arr((n(tok),), lambda k: at(tok, zint(k)), I8)


class Estimates:
    " contract of transfer_function / transfer_function_real_prob: some estimates and rejected samples "
    def __init__(self, v, data, rejected=None):
        self.v, self.data, self.calls, self.errors, self.rejected = v, data, [], [], rejected
        c = v.interp.contracts
        c['mestimator.transfer_function'] = lambda *a: self.estimate('complex', *a)
        c['utils.transfer_function_real_prob'] = lambda *a: self.estimate('real', *a)
        c['mestimator.transfer_error'] = self.error

    def estimate(self, kind, it, fn, args, kwargs):
        d = bound(fn, args, kwargs)
        out, inp = seq_of(d['outputs']), A.asarray(d['inputs'])
        P, Q, N = out.n, inp.shape[0], self.data.N
        nm = 'stage%d' % (len(self.calls) + 1)
        if C.branch(z3.Bool(nm + '.fails')):
            fail(it)
        zf = [z3.Function(nm + '.z.' + c, INT, INT, REAL) for c in ('re', 'im')]
        z = Arr((P, Q), lambda i, j: V.XNum(*[f(zint(i), zint(j)) for f in zf]), C16)
        cnt, at = z3.Function(nm + '.n', INT, INT), z3.Function(nm + '.at', INT, INT, INT)

        def rej(i):
            C.assume(cnt(zint(i)) >= 0)

            def get(k):
                x = at(zint(i), zint(k))
                C.assume(Implies(And(zint(k) >= 0, zint(k) < cnt(zint(i))), And(x >= 0, x < N)))
                return x
            n = cnt(zint(i)) if self.rejected is None else self.rejected
            if self.rejected is not None:
                C.assume(And(cnt(zint(i)) == n, *[at(zint(i), k) < at(zint(i), k + 1) for k in range(n - 1)]))
            a = Arr((n,), get, I8)
            a.hints.update(increasing=True, distinct=True)
            return a
        i, x, y = z3.Ints('out.i out.x out.y')
        if self.rejected is None:
            C.assume(z3.ForAll([i, x, y], Implies(And(0 <= x, x < y, y < cnt(i)), at(i, x) < at(i, y)),
                               patterns=[z3.MultiPattern(at(i, x), at(i, y))]))
        iv = SeqV(P, rej) if not isinstance(P, int) else seq_of([rej(i) for i in range(P)])
        self.calls.append((kind, d, z, iv))
        return (z, iv)

    def error(self, it, fn, args, kwargs):
        d = bound(fn, args, kwargs)
        z = A.asarray(d['transfer'])
        f = z3.Function('err', INT, INT, REAL)
        r = Arr(z.shape, lambda i, j: f(zint(i), zint(j)), F8)
        self.errors.append((d, r))
        return r


def nan_shape(a, shape):
    " an array of NaN of the given shape "
    a = A.asarray(a)
    if a.ndim != len(shape):
        return z3.BoolVal(False)
    eqs = [zint(p) == zint(q) for p, q in zip(a.shape, shape)]
    ii = [C.fresh('i', INT) for _ in shape]
    rng = And(*[And(i >= 0, i < zint(n)) for i, n in zip(ii, shape)])
    if C.valid(Not(rng), 500) or not C.branch(rng):
        return And(*eqs)
    return And(*eqs, asz(V.xnum(a.get(*ii)).nan))


def weightings(v, name):
    return (UFn(z3.Int(name), None),)


def entry(x, i=0):
    " element i of a result over the frequencies "
    return A.arr_getitem(x, i) if isinstance(x, Arr) else seq_of(x).get(i)


def one_frequency(v, remote=False, pre=False, rw=False, rp=False, real=False, silent=True, names=TAGS, opts=True, keep=None):
    data = Data(v, names)
    est = Estimates(v, data)
    v.interp.contracts['utils.apply_prefilter'] = abstract_prefilter(v, data.N)
    freq = v.real('freq')
    w = weightings(v, 'w')
    w1 = weightings(v, 'rw') if rw else None
    p = UFn(z3.Int('p'), None) if pre else None
    p1 = UFn(z3.Int('rp'), None) if rp else None
    mo = dict(tol=v.real('tol'), maxit=v.int('maxit', 0)) if opts else {}
    fo = dict(Nper=v.real('Nper')) if opts else {}
    kw = {}
    if names is not TAGS:
        kw.update(tag_elec=names['E'], tag_mag=names['B'])
    if opts:
        m, fd = MDict(items=list(mo.items())), MDict(items=list(fo.items()))
        for x in (m, fd):
            x.birth, x.inp = 0, True
        kw.update(mest_opts=m, fourier_opts=fd)
    if remote:
        kw['remote'] = names['R']
    if rw:
        kw['remote_weights'] = w1
    if rp:
        kw['remote_prefilter'] = p1
    if not silent:
        kw['silent_fail'] = False
    if real:
        kw['real_pb'] = True
    v.interp.contracts['utils._impedance'] = untouched(v)
    st, r = v.attempt('utils.impedance', data.obj, V.MList([freq]), w, p, **kw)
    v.expect('Fourier coefficients computed once', len(data.calls) == 1)
    if len(data.calls) != 1:
        return
    d = data.calls[0]
    v.prove('at the frequency, with the options', lambda: And(
        same(d['freq'], freq), z3.BoolVal(set(d) - {'**', 'self'} == {'freq', 'Nper', 'overlap', 'window'}),
        same(d['Nper'], fo.get('Nper', 8))))
    v.prove('default overlap', z3.BoolVal(abs(float(d['overlap']) - .71) < 1e-12) if not V.isz(d['overlap']) else z3.BoolVal(False))
    stages = 2 if remote else 1
    fourier = z3.Bool('fourier.fails')
    failed = Or(z3.Bool('prefilter.fails') if (pre or rp and remote) else z3.BoolVal(False),
                *[z3.Bool('stage%d.fails' % k) for k in range(1, stages + 1)])
    Ne, Nb, Nr = data.size['E'], data.size['B'], data.size['R'] if remote else 0
    if st == 'raise':
        v.prove('an error only without silent_fail, for a failure of the estimation', And(z3.BoolVal(not silent), Not(fourier), failed))
        v.reached('failure')
        return
    z, iv, err, T = [entry(x) for x in (v.attr(r, 'impedance'), v.attr(r, 'invalid_time'), v.attr(r, 'error'), v.attr(r, 'transfer_mag'))]
    if C.branch(fourier):
        v.prove('no Fourier coefficient: NaN impedance, outputs x inputs', lambda: nan_shape(z, (Ne, Nb)))
        v.prove('no Fourier coefficient: NaN error, outputs x inputs', lambda: nan_shape(err, (Ne, Nb)))
        v.prove('no Fourier coefficient: remote transfer, inputs x remotes', lambda: nan_shape(T, (Nb, Nr)))
        v.prove('no Fourier coefficient: no invalid time', cmp('==', seq_of(iv).n, 0))
        v.frame()
        v.reached('no window')
        return
    if C.branch(failed):
        v.prove('failed: only with silent_fail', z3.BoolVal(silent))
        v.prove('failed: NaN impedance, outputs x inputs', lambda: nan_shape(z, (Ne, Nb)))
        v.prove('failed: NaN error, outputs x inputs', lambda: nan_shape(err, (Ne, Nb)))
        v.prove('failed: remote transfer, inputs x remotes', lambda: nan_shape(T, (Nb, Nr)))
        v.prove('failed: no invalid time', cmp('==', seq_of(iv).n, 0))
        v.frame()
        v.reached('failed')
        return
    v.expect('one estimation per stage', len(est.calls) == stages)
    v.expect('one error estimation', len(est.errors) == 1)
    if len(est.calls) != stages or len(est.errors) != 1:
        return
    e, b = data.mat('E'), data.mat('B')
    inputs, base = b, None
    if remote:
        kind, d, T1, iv1 = est.calls[0]
        br = data.mat('R')
        v.prove('first stage: magnetic channels from the remote ones', lambda: And(same(d['outputs'], b), same(d['inputs'], br)))
        stage_args(v, 'first stage: ', d, w1 if rw else w, mo, kind, real)
        exclusions(v, 'first stage: ', d, Nb, lambda i: rejected_by(NONE(), p1 if rp else p, row(b, i), br, data.N))
        v.prove('the remote transfer is the result of the first stage', lambda: same(T, T1))
        inputs = A.dot(T1, br)
        base = union(NONE(), A.seq_arr(V.sorted_distinct(V.seq_flatten(SeqV(Nb, lambda i: A.asarray(iv1.get(i)).iter_seq()))), I8))
    else:
        v.prove('no remote transfer without remote', And(z3.BoolVal(A.asarray(T).ndim == 2), cmp('==', A.asarray(T).shape[0], Nb),
                                                        cmp('==', A.asarray(T).shape[1], 0)))
    kind, d, Z, iv2 = est.calls[-1]
    tag = 'second stage: ' if remote else ''
    v.prove(tag + 'electric channels', lambda: same(d['outputs'], e))
    v.prove(tag + 'from the %s magnetic channels' % ('predicted' if remote else 'measured'), lambda: same(d['inputs'], inputs))
    stage_args(v, tag, d, w, mo, kind, real)
    exclusions(v, tag, d, Ne, lambda i: rejected_by(NONE() if base is None else base, p, row(e, i), inputs, data.N))
    v.prove('the impedance is the result of the estimation', lambda: same(z, Z))
    d, E = est.errors[0]
    v.prove('the error is the one of the estimate', lambda: same(err, E))
    v.prove('error estimated with the data of the last stage', lambda: And(
        same(d['outputs'], e), same(d['inputs'], inputs), same(d['transfer'], Z)))
    rejected_same(v, 'error estimated with the rejected samples', d['invalid_idx'], iv2, Ne)
    v.prove('one list of invalid times per output', cmp('==', seq_of(iv).n, Ne))
    v.forall('no invalid time kept', Ne, lambda i: zint(A.asarray(seq_of(iv).get(i)).shape[0]) == 0)
    v.frame()
    v.reached()


def untouched(v):
    " the real function, which must leave the containers it is given as they are "
    def f(it, fn, args, kwargs):
        given = [x for x in list(args) + list(kwargs.values()) if isinstance(x, V.Mutable)]
        mark = len(C.trail)
        con = it.contracts.pop(fn.qualname)
        try:
            return it.call(fn, args, kwargs)
        finally:
            it.contracts[fn.qualname] = con
            bad = [e for e in C.trail[mark:] if e[2] != 'memo' and any(e[1] is x for x in given)]
            if bad:
                v.prove('the options shared by the frequencies are left unchanged', z3.BoolVal(False))
    return f


def stage_args(v, tag, d, w, mo, kind, real):
    v.prove(tag + 'formulation', z3.BoolVal(kind == ('real' if real else 'complex')))
    o = {k: x for k, x in dict(d, **d['**']).items() if k not in ('outputs', 'inputs', 'weights', 'invalid_idx', '**')}
    v.prove(tag + 'weights', lambda: same(d.get('weights'), w))
    v.prove(tag + 'options', lambda: And(z3.BoolVal(set(o) == set(mo)), *[same(o[k], mo[k]) for k in mo if k in o]))


def rejected_same(v, label, got, want, n):
    got = seq_of(got)
    v.prove(label + ': one list per output', cmp('==', got.n, n))
    v.forall(label, n, lambda i: same(A.asarray(got.get(i)), A.asarray(want.get(i))))


def exclusions(v, tag, d, n, spec):
    iv = d.get('invalid_idx')
    if iv is None:
        v.forall(tag + 'excluded samples', n, lambda i: zint(spec(i).shape[0]) == 0)
        return
    rejected_same(v, tag + 'excluded samples', iv, SeqV(n, spec), n)


NAMED = dict(E='elec', B='mag', R='rem')
BASIC = ('normal end', 'no window', 'failed')
for k in (dict(), dict(pre=True), dict(real=True), dict(opts=False), dict(rw=True, rp=True), dict(names=NAMED),
          dict(remote=True), dict(remote=True, pre=True), dict(remote=True, rw=True), dict(remote=True, rp=True),
          dict(remote=True, rw=True, rp=True, pre=True, names=NAMED), dict(remote=True, real=True, pre=True)):
    case('C18 C17 C10', 'utils.impedance', 'one frequency: ' + (' '.join('%s=%s' % (a, 'custom' if a == 'names' else b) for a, b in k.items()) or 'default'),
         reach=BASIC)(lambda v, k=k: one_frequency(v, **k))
for k in (dict(pre=True), dict(remote=True, rp=True)):
    case('C17 C18', 'utils.impedance', 'one frequency: silent_fail=False ' + ' '.join('%s=%s' % x for x in k.items()),
         reach=('normal end', 'no window', 'failure'))(lambda v, k=k: one_frequency(v, silent=False, **k))


# ---------------------------------------------------------------------------
# C17: list of frequencies
# ---------------------------------------------------------------------------
def frequencies(v, m, silent=True, remote=True):
    data = Data(v)
    Ne, Nb, Nr = data.size['E'], data.size['B'], data.size['R'] if remote else 0
    if m is None:
        n = v.int('nfreq', 0)
        f = z3.Function('freq', INT, REAL)
        freqs = SeqV(n, lambda k: f(zint(k)))
        at = lambda k: f(zint(k))
    else:
        n, fs = m, [v.real('freq%d' % k) for k in range(m)]
        freqs = V.MList(fs)
        at = lambda k: fs[k] if isinstance(k, int) else None
    w, w1 = weightings(v, 'w'), weightings(v, 'rw')
    p, p1 = UFn(z3.Int('p'), None), UFn(z3.Int('rp'), None)
    mo = dict(tol=v.real('tol'), maxit=v.int('maxit', 0))
    fo = dict(Nper=v.real('Nper'), window=UFn(z3.Int('window'), None))
    md, fd = MDict(items=list(mo.items())), MDict(items=list(fo.items()))
    for x in (md, fd):
        x.birth, x.inp = 0, True
    keep = v.bool('keep')
    parts = {nm: [z3.Function('%s.%s' % (nm, c), REAL, INT, INT, REAL) for c in ('re', 'im')] +
             [z3.Function(nm + '.nan', REAL, INT, INT, BOOL)] for nm in ('z', 'err', 'T')}
    IV, FAILS = z3.Function('iv', REAL, INT), z3.Function('fails', REAL, BOOL)
    calls, alone = [], []

    def result(fr, nm, shape):
        g = parts[nm]
        return Arr(shape, lambda i, j: V.XNum(*[h(zreal(fr), zint(i), zint(j)) for h in g]), C16)

    def spec(fr):
        return dict(impedance=result(fr, 'z', (Ne, Nb)), invalid_time=V.Opaque(IV(zreal(fr))),
                    error=result(fr, 'err', (Ne, Nb)), transfer_mag=result(fr, 'T', (Nb, Nr)))

    def one(it, fn, args, kwargs):
        " contract of _impedance: its results are a function of its arguments "
        d = bound(fn, args, kwargs)
        calls.append(1)
        snap = {k: snapshot(x) for k, x in dict(d, **d['**']).items() if k not in ('freq', '**')}
        if not alone:
            alone.append(snap)
        v.prove('every frequency is processed as if it were alone', lambda: And(
            z3.BoolVal(set(snap) == set(alone[0])), *[alike(snap[k], alone[0][k]) for k in snap if k in alone[0]]))
        fr = d['freq']
        if not silent and C.branch(FAILS(zreal(fr))):
            fail(it)
        cls = it.resolve('utils.ImpedanceResult')
        s = spec(fr)
        return it.call(cls, [s['impedance'], s['invalid_time'], s['error'], s['transfer_mag']], {})
    v.interp.contracts['utils._impedance'] = one
    args = lambda fs: v.attempt('utils.impedance', data.obj, fs, w, p, remote='R' if remote else None, remote_weights=w1, remote_prefilter=p1,
                               mest_opts=md, fourier_opts=fd, keep_invalid_times=keep, **({} if silent else {'silent_fail': False}))
    st, r = args(V.MList([v.real('lone')]))
    if st == 'raise':
        return
    if not alone:
        raise Unsupported('frequencies not processed by _impedance')
    del calls[:]
    st, r = args(freqs)
    if not calls and m != 0 and (m is not None or not C.valid(n == 0)):
        raise Unsupported('frequencies not processed by _impedance')
    if st == 'raise':
        v.prove('error only without silent_fail', z3.BoolVal(not silent))
        v.reached('failure')
        return
    z, iv, err, T = [v.attr(r, x) for x in ('impedance', 'invalid_time', 'error', 'transfer_mag')]
    iv = seq_of(iv)
    v.prove('one list of invalid times per frequency', cmp('==', iv.n, n))
    arrs = dict(impedance=(A.asarray(z), (Ne, Nb)), error=(A.asarray(err), (Ne, Nb)), transfer_mag=(A.asarray(T), (Nb, Nr)))
    for nm, (a, shape) in arrs.items():
        v.prove('one entry per frequency: ' + nm, cmp('==', a.shape[0], n))

    def each(k):
        s = spec(at(k))
        v.prove('invalid times of the frequency alone', same(iv.get(k), s['invalid_time']))
        for nm, (a, shape) in arrs.items():
            def body(a=a, nm=nm, shape=shape):
                if a.ndim != 3:
                    return z3.BoolVal(False)
                i, j = C.fresh('i', INT), C.fresh('j', INT)
                C.assume(And(i >= 0, i < zint(shape[0]), j >= 0, j < zint(shape[1])))
                x, y = V.xnum(a.get(k, i, j)), V.xnum(s[nm].get(i, j))
                return And(cmp('==', a.shape[1], shape[0]), cmp('==', a.shape[2], shape[1]),
                           xeq(x, y), zbool(x.nan) == zbool(y.nan))
            v.prove('%s of the frequency alone' % nm, body)
        return True
    if m is None:
        v.forall('frequency', n, each)
    else:
        for k in range(m):
            each(k)
    v.frame()
    v.reached()


def zbool(x):
    return asz(V.zbool(x))


def snapshot(x):
    " the content of a mutable argument at the time of the call "
    if isinstance(x, MDict):
        return dict(kx.list() if isinstance(kx, SeqV) else kx for kx in x.items().list())
    if isinstance(x, MList):
        return x.seq
    return x


def alike(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return And(z3.BoolVal(set(a) == set(b)), *[alike(a[k], b[k]) for k in a if k in b])
    if isinstance(a, dict) or isinstance(b, dict):
        return z3.BoolVal(False)
    if a is b or (isinstance(a, bool) and isinstance(b, bool)):
        return z3.BoolVal(a is b)
    return same(a, b)


for m in (None, 0, 1, 2, 3):
    for silent in (True, False):
        case('C17 C10', 'utils.impedance', '%s frequencies%s' % ('any number of' if m is None else m, '' if silent else ', silent_fail=False'),
             reach=('normal end',) if silent or m == 0 else ('normal end', 'failure'))(
            lambda v, m=m, silent=silent: frequencies(v, m, silent))
case('C17 C10', 'utils.impedance', 'any number of frequencies, no remote')(lambda v: frequencies(v, None, remote=False))


# ---------------------------------------------------------------------------
# C19: invalid times
# ---------------------------------------------------------------------------
def times(v, real, remote):
    data = Data(v)
    R, N = data.R, data.N
    OFF, RUN = z3.Function('offset', INT, INT), z3.Function('run.of', INT, INT)

    def off(k):
        " first coefficient of run k "
        k = zint(k)
        C.assume(Implies(And(k >= 0, k < R), And(OFF(k) >= 0, data.Nw(k) >= 1, OFF(k + 1) == OFF(k) + data.Nw(k), OFF(k + 1) <= N)))
        return OFF(k)
    C.assume(And(OFF(0) == 0, OFF(R) == N))

    def run_of(x, r):
        " x is a coefficient of run r "
        return And(r >= 0, r < R, off(r) <= x, x < off(r) + data.Nw(r))

    def time(x):
        x = zint(x)
        r = RUN(x)
        C.assume(Implies(And(x >= 0, x < N), run_of(x, r)))
        return time_in(x, r)

    def time_in(x, r):
        return (zreal(data.shift(r) * (x - off(r))) + zreal(data.Lw(r)) / 2) / data.rate(r) + data.start(r)
    a, b = z3.Ints('off.a off.b')
    C.assume(z3.ForAll([a, b], Implies(And(0 <= a, a < b, b <= R), And(OFF(a) < OFF(b), OFF(a) + data.Nw(a) <= OFF(b))),
                       patterns=[z3.MultiPattern(OFF(a), OFF(b))]))
    est = Estimates(v, data)
    st = {}

    def contract(env, k, before):
        if not {'ivid_line', 'start'} <= set(before) or not isinstance(env.vars.get('ivt_line'), Arr):
            raise Unsupported('loop of _impedance with other variables')
        at, n = st['at'], st['n']
        c = C.fresh('c', INT)
        k = zint(k)
        C.assume(And(c >= 0, c <= n, Implies(c > 0, at(c - 1) < off(k)), Implies(c < n, at(c) >= off(k))))
        line = Arr((n - c,), lambda j: at(c + zint(j)) - off(k), I8)
        line.hints.update(increasing=True, distinct=True)
        env.vars['ivid_line'] = line
        env.vars['start'] = c
        junk = z3.Function(C._name('junk'), INT, REAL)
        env.vars['ivt_line'] = Arr((n,), lambda j: If(zint(j) < c, time(at(zint(j))), junk(zint(j))), F8)
        st['c'], st['k'] = c, k

    def split_lemma(env):
        " the coefficients of run k are the first ones of the line "
        at, n, c, k = st['at'], st['n'], st['c'], st['k']
        n1 = n - c
        pred = lambda x: at(c + x) - off(k) < data.Nw(k)
        for f1 in filters_of(pred):
            for f2 in filters_of(lambda x: Not(pred(x))):
                if C.valid(And(zint(f1[0]) == n1, zint(f2[0]) == n1)):
                    halves(v, n1, f1, f2)

    def inv(env, k):
        line, c, out = A.asarray(env.vars['ivid_line']), zint(env.vars['start']), A.asarray(env.vars['ivt_line'])
        if isinstance(k, int):
            st['at'], st['n'] = (lambda a: lambda j: zint(a.get(j)))(line), zint(line.shape[0])
        else:
            split_lemma(env)
        at, n = st['at'], st['n']
        o = off(k)
        yield 'as many times as rejected coefficients', zint(out.shape[0]) == n
        yield 'times written so far', And(c >= 0, c <= n)
        yield 'coefficients left', zint(line.shape[0]) == n - c
        j = C.fresh('j', INT)
        yield 'the coefficients left are numbered from the first of the run', Implies(
            And(j >= 0, j < n - c), zint(line.get(j)) == at(c + j) - o)
        at(c - 1), at(c)
        yield 'the times of the coefficients of the previous runs are written', And(
            Implies(c > 0, at(c - 1) < o), Implies(c < n, at(c) >= o))
        x = at(j)

        def written():
            C.assume(And(j >= 0, j < c))
            if not isinstance(k, int):
                time(x)
                run_of(x, st['k'])
                v.lemma('coefficients of the run', Implies(j >= st['c'], run_of(x, st['k'])))
            return zreal(out.get(j)) == time(x)
        yield 'time of a rejected coefficient', written
    invariant(v, 'utils._impedance', 1, contract, inv)
    freq = v.real('freq')
    kw = dict(remote='R') if remote else {}
    if real:
        kw['real_pb'] = True
    v.interp.contracts['utils.apply_prefilter'] = abstract_prefilter(v, N)
    s, r = v.attempt('utils.impedance', data.obj, V.MList([freq]), weightings(v, 'w'), keep_invalid_times=True, **kw)
    if s == 'raise':
        v.prove('no error', z3.BoolVal(False))
        return
    fails = Or(z3.Bool('fourier.fails'), z3.Bool('stage1.fails'), *[z3.Bool('stage2.fails')] * remote)
    if C.branch(fails):
        return
    iv = est.calls[-1][3]
    got = seq_of(entry(v.attr(r, 'invalid_time')))
    v.prove('one list per output', cmp('==', got.n, data.size['E']))

    def one(i):
        w, t = A.asarray(iv.get(i)), A.asarray(got.get(i))
        v.prove('every rejected coefficient is listed once', zint(t.shape[0]) == zint(w.shape[0]))

        def each(j):
            x, r = zint(w.get(j)), C.fresh('r', INT)
            C.assume(run_of(x, r))
            time(x)
            return zreal(t.get(j)) == time_in(x, r)
        v.forall('centre of the window, in the run it comes from', w.shape[0], each)
        return True
    v.forall('output', data.size['E'], one)
    v.frame()
    v.reached()


def halves(v, n1, f1, f2):
    " two complementary filters of a sequence, the first one keeping its first elements: they split it in two "
    _, m, S1, R1, _ = f1
    _, m2, S2, R2, _ = f2
    s1, s2 = S1(z3.Int('h.j')), S2(z3.Int('h.j'))
    g1, a1, g2, a2 = s1.decl(), list(s1.children())[:-1], s2.decl(), list(s2.children())[:-1]
    j = z3.Int('h.j')
    P = lambda d: Implies(And(d >= 0, d < m), g1(*a1, d) == d)
    if not induction(v, 'the first half starts at the beginning', P, lambda d: (S1(d), R1(d), S1(R1(d)))):
        return
    C.assume(z3.ForAll([j], P(j), patterns=[g1(*a1, j)]))
    Q = lambda d: Implies(And(d >= 0, d < n1 - m), And(d < m2, g2(*a2, d) == m + d))
    if not induction(v, 'the second half follows', Q, lambda d: (
            S2(d), R2(m + d), S2(R2(m + d)), R1(m + d), S1(R1(m + d)), R1(S2(d)), S1(R1(S2(d))))):
        return
    C.assume(z3.ForAll([j], Q(j), patterns=[g2(*a2, j)]))
    x = m + m2              # would be in neither half
    C.assume(P(R1(x)))
    S1(R1(x)), S2(R2(x))
    C.assume(Q(R2(x)))
    v.lemma('nothing is lost', m2 >= n1 - m)
    y = S2(n1 - m)          # would be in both halves, or twice in the second
    C.assume(And(P(y), P(R1(y)), Q(y - m)))
    S1(y), R1(S1(y)), S1(R1(y)), R2(y), S2(R2(y)), S2(y - m), R2(S2(y - m))
    v.lemma('nothing is listed twice', m2 <= n1 - m)


from .mest import filters_of, induction


def few_times(v, runs, rejected, real=False):
    " the same, for small numbers of runs and rejected coefficients of one output: counterexamples can be found "
    data = Data(v, sizes=dict(E=1, B=1, R=1), runs=runs)
    off = [z3.IntVal(0)]
    for r in range(runs):
        C.assume(And(data.Nw(r) >= 1, data.Nw(r) <= 4, data.Lw(r) >= 1, data.shift(r) >= 1))
        off.append(off[-1] + data.Nw(r))
    C.assume(data.N == off[-1])
    est = Estimates(v, data, rejected)
    st, r = v.attempt('utils.impedance', data.obj, V.MList([v.real('freq')]), weightings(v, 'w'), keep_invalid_times=True,
                      **(dict(real_pb=True) if real else {}))
    if st == 'raise':
        v.prove('no error', z3.BoolVal(False))
        return
    if C.branch(Or(z3.Bool('fourier.fails'), z3.Bool('stage1.fails'))):
        return
    got = seq_of(entry(v.attr(r, 'invalid_time')))
    v.prove('one list per output', cmp('==', got.n, 1))
    w, t = A.asarray(est.calls[-1][3].get(0)), A.asarray(got.get(0))
    v.prove('every rejected coefficient is listed once', zint(t.shape[0]) == rejected)

    def each(j):
        x = zint(w.get(j))
        return And(*[Implies(And(off[k] <= x, x < off[k + 1]), zreal(t.get(j)) == (
            zreal(data.shift(k) * (x - off[k])) + zreal(data.Lw(k)) / 2) / data.rate(k) + data.start(k)) for k in range(runs)])
    for j in range(rejected):
        v.prove('centre of the window, in the run it comes from', lambda j=j: each(j))
    v.reached()


for runs, rejected in ((1, 0), (1, 2), (2, 1), (2, 2), (3, 1), (3, 3)):
    case('C19', 'utils.impedance', 'invalid times, %d runs, %d rejected coefficients' % (runs, rejected))(
        lambda v, runs=runs, rejected=rejected: few_times(v, runs, rejected))

for real in (False, True):
    for remote in (0, 1):
        case('C19 C10', 'utils.impedance', 'invalid times, %s%s' % ('real' if real else 'complex', ', remote' if remote else ''))(
            lambda v, real=real, remote=remote: times(v, real, remote))
