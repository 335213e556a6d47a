" C10: operations never modify their operands "
import copy
import numpy as np
from .core import scenario, Skip, expect_raise
from .model import *
from .r_c07 import operands as grid_operands
from .r_c06 import operands as join_operands
import razorback.utils as utils
from razorback.mestimator import transfer_function, transfer_error, m_estimate, wlse
from razorback.weights import mest_weights, bi_weights, Huber, Thomson
from razorback.prefilters import cod_filter


def snap(x):
    " deep picture of an operand "
    if isinstance(x, SignalSet):
        m = view(x)
        return ('set', dict(x.tags), sorted(x.tags.indices), m.n, [snap(s) for s in x.signals], [id(s) for s in x.signals])
    if isinstance(x, SyncSignal):
        v = view_run(x)
        return ('sync', v.key(), [a.tobytes() for a in v.data], [id(a) for a in x.data], v.cals, [id(c) for c in x.calibrations])
    if isinstance(x, Inventory):
        return ('inv', [snap(s) for s in x], [id(s) for s in x])
    if isinstance(x, Tags):
        return ('tags', dict(x), sorted(x.indices))
    if isinstance(x, np.ndarray):
        return ('arr', x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, dict):
        return ('dict', [(k, snap(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(e) for e in x])
    return repr(x)


def run(t, what, fn, *operands, **inp):
    before = [snap(o) for o in operands]
    try:
        res = fn()
    except Exception as e:
        res = None
    after = [snap(o) for o in operands]
    for k, (a, b) in enumerate(zip(before, after)):
        t.check(a == b, '%s modifies its operand %d' % (what, k), before=a, after=b, **inp)
    # tags of the result: its own
    for r in (res if isinstance(res, (list, Inventory)) else [res]):
        if isinstance(r, SignalSet) and not (res is not r and any(r is o for o in operands)):
            if r.nb_channels:
                r.tags['zzz_added'] = 0
            for k in list(r.tags)[:1]:
                del r.tags[k]
            r.tags = Tags(r.nb_channels) if r.nb_channels else {}
            after = [snap(o) for o in operands]
            for k, (a, b) in enumerate(zip(before, after)):
                t.check(a == b, '%s: changing the tags of the result changes its operand %d' % (what, k), before=a, after=b, **inp)
    return res


@scenario('C10', 'operations on signal sets', 300)
def ops(t):
    r = t.rng
    s, m = gen_set(r, nch=r.randint(1, 4), nruns=r.randint(1, 4))
    t.note(m)
    a, b = sorted([gen_bound(r, m), gen_bound(r, m)])
    i = r.randrange(len(m.runs))
    k = r.choice(list(m.tags))
    todo = [
        ('select_channels', lambda: s.select_channels(k)), ('select_channels', lambda: s[:]),
        ('select_channels', lambda: s.select_channels(list(m.tags))),
        ('select_runs', lambda: s.select_runs(i)), ('select_runs', lambda: s[:, :]),
        ('select_runs', lambda: s[k, [i]]), ('select_runs', lambda: s.select_runs(np.ones(len(m.runs), bool))),
        ('extract_t', lambda: s.extract_t(a, b)), ('extract_t exclude', lambda: s.extract_t(a, b, exclude=True)),
        ('extract_t', lambda: s.extract_t(-np.inf, np.inf)),
        ('merge_consecutive_runs', lambda: s.merge_consecutive_runs()), ('join', lambda: s.join()),
        ('merge', lambda: s.merge()), ('str', lambda: (str(s), repr(s))), ('getattr', lambda: getattr(s, k)),
    ]
    name, fn = r.choice(todo)
    src = [s] + list(s.signals)
    run(t, name, fn, *src, model=m)
    x = s.signals[i]
    todo = [('SyncSignal.select', lambda: x.select(0)), ('SyncSignal.extract_i', lambda: x.extract_i(0, None)),
            ('SyncSignal.extract_t', lambda: x.extract_t(a, b)),
            ('fourier_coefficients', lambda: x.fourier_coefficients(x.sampling_rate / 3, 2, .5, np.hanning))]
    name, fn = r.choice(todo)
    run(t, name, fn, x, s, model=m)


@scenario('C10', 'join and merge', 200)
def two(t):
    r = t.rng
    if r.random() < .5:
        tags, n, o = join_operands(r)
        ss = [s for s, _ in o]
        t.note([m for _, m in o])
        tg = Tags(n, **tags)
        name, fn = r.choice([('join', lambda: ss[0].join(*ss[1:])), ('|', lambda: ss[0] | ss[1]),
                             ('SignalSet(tags, ...)', lambda: SignalSet(tg, *ss)), ('tags | set', lambda: tg | ss[1])])
        run(t, name, fn, tg, *ss)
    else:
        o = grid_operands(r)
        ss = [s for s, _ in o]
        t.note([m for _, m in o])
        name, fn = r.choice([('merge', lambda: ss[0].merge(*ss[1:])), ('&', lambda: ss[0] & ss[1]),
                             ('join of incompatible sets', lambda: ss[0] | ss[1])])
        run(t, name, fn, *ss)


@scenario('C10', 'inventories', 150)
def inventories(t):
    r = t.rng
    from .r_c09 import inventory
    o = inventory(r)
    ss = [s for s, _ in o]
    inv = Inventory(ss)
    t.note([m for _, m in o])
    sel = [np.array([r.random() < .6 for _ in s.signals]) for s in ss]
    name, fn = r.choice([('pack', inv.pack), ('pack(False)', lambda: inv.pack(False)), ('merge', inv.merge),
                         ('filter', lambda: inv.filter('*')), ('filter', lambda: inv.filter('E*')),
                         ('select_runs', lambda: inv.select_runs(sel)), ('extract_t', lambda: inv.extract_t(-np.inf, 10.)),
                         ('+', lambda: inv + inv), ('select_channels', lambda: inv.select_channels(*list(inv.tags)[:1]))])
    run(t, name, fn, inv, ss, sel, *ss)


@scenario('C10', 'transfer functions', 120)
def tf(t):
    r, g = t.rng, t.np
    n, p, q = r.randint(20, 60), r.randint(1, 3), r.randint(1, 2)
    cplx = lambda *s: g.normal(size=s) + 1j * g.normal(size=s)
    b = cplx(p, n)
    e = cplx(q, p) @ b + .1 * cplx(q, n)
    iv = [np.sort(np.array(r.sample(range(n), r.randint(0, 4)), int)) for _ in range(q)]
    form = r.choice(['arrays', 'lists'])
    e_, b_ = (e, b) if form == 'arrays' else (list(e), list(b))
    iv_ = r.choice([None, iv, iv[0] if len(iv[0]) else None])
    w = r.choice([(None,), mest_weights, bi_weights(.1, 2), [None, Huber()], [None, Thomson()]])
    init = r.choice([None, [cplx(p) for _ in range(q)]])
    t.note((n, p, q, form, repr(w)))
    run(t, 'transfer_function', lambda: transfer_function(e_, b_, w, init=init, invalid_idx=iv_), e_, b_, iv_, init)
    run(t, 'transfer_function_real_prob', lambda: utils.transfer_function_real_prob(e_, b_, w, invalid_idx=iv_), e_, b_, iv_)
    z = cplx(q, p)
    run(t, 'transfer_error', lambda: transfer_error(e_, b_, z, iv), e_, b_, z, iv)
    pf = cod_filter(.5, size=5)
    run(t, 'apply_prefilter', lambda: utils.apply_prefilter(e_, b_, pf, iv_), e_, b_, iv_)
    run(t, 'cod_filter', lambda: pf(e[0], b.T), e, b)
    wt = abs(g.normal(size=n))
    run(t, 'wlse', lambda: wlse(e[0], b.T, wt), e, b, wt)
    z0 = cplx(p)
    run(t, 'm_estimate', lambda: m_estimate(e[0], b.T, z0, Huber(), iv[0]), e, b, z0, iv[0])
    res = e[0] - 1
    run(t, 'Huber', lambda: Huber()(0, res, e[0], b.T, iv[0]), res, e, b, iv[0])
    run(t, 'Thomson', lambda: Thomson()(0, res, e[0], b.T, iv[0]), res, e, b, iv[0])


@scenario('C10', 'impedance', 40)
def imp(t):
    r, g = t.rng, t.np
    n = r.randint(300, 500)
    data = [g.normal(size=n) for _ in range(6)]
    sigs = [SyncSignal(data, 1., 0.), SyncSignal([g.normal(size=200) for _ in range(6)], 2., 1e4)]
    s = SignalSet({'E': (0, 1), 'B': (2, 3), 'R': (4, 5)}, *sigs)
    fo = dict(Nper=4, overlap=.5, window=np.hanning)
    mo = dict(tol=1e-2)
    l_freq = [.1, .05, .2]
    remote = r.choice([None, 'R'])
    w = r.choice([mest_weights, (None,)])
    t.note((n, remote, repr(w)))
    run(t, 'impedance', lambda: utils.impedance(s, l_freq, w, cod_filter(.1), fo, remote, mest_opts=mo, keep_invalid_times=True),
        s, fo, mo, l_freq, data, *sigs)
