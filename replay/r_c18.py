" C18: impedance, via the remote "
import numpy as np
from .core import scenario, Skip, expect_raise
from .impgen import *

FO = dict(Nper=4, overlap=.5, window=np.hanning)


class Pre:
    " prefilter rejecting scripted samples and recording its arguments "
    def __init__(self, rej):
        self.rej, self.calls = rej, []

    def __call__(self, e, b):
        self.calls.append((np.array(e), np.array(b)))
        return np.array(sorted(self.rej), int)


def union(*a):
    return np.array(sorted(set().union(*[set(map(int, x)) for x in a])), int)


def reference(s, f, fo, weights, pre, remote=None, rweights=None, rpre=None, E='E', B='B', tf=transfer_function, **mo):
    co, _ = s.fourier_coefficients(f, **fo)
    e, b = [co[i] for i in s.tags[E]], [co[i] for i in s.tags[B]]
    rej = lambda p, y, x: np.empty(0, int) if p is None else p(y, np.transpose(x))
    base = np.empty(0, int)
    T = None
    if remote:
        br = [co[i] for i in s.tags[remote]]
        rw = rweights if rweights else weights
        rp = rpre if rpre else pre
        iv = [union(rej(rp, y, br)) for y in b]
        T, ivT = quiet(tf, b, br, rw, invalid_idx=iv, **mo)
        base = union(*ivT)
        b = T.dot(br)
    iv = [union(base, rej(pre, y, b)) for y in e]
    z, ivid = quiet(tf, e, b, weights, invalid_idx=iv, **mo)
    return z, ivid, T, transfer_error(e, b, z, ivid)


@scenario('C18', 'against the two stages', 80)
def stages(t):
    r, g = t.rng, t.np
    s = gen_data(r, g)
    f = r.choice([.08, .11, .2, .3, .04])
    o = {}
    wk = r.choice(sorted(WEIGHTS))
    w = WEIGHTS[wk]()
    pre = r.choice([None, None, cod_filter(.2, size=6), Pre({0, 3})])
    remote = r.choice([None, 'R', 'R'])
    rw = r.choice([None, WEIGHTS[r.choice(sorted(WEIGHTS))]()])
    rp = r.choice([None, None, cod_filter(.1, size=5), Pre({1, 4})])
    mo = r.choice([{}, dict(maxit=40, tol=1e-3), dict(eps=1e-2)])
    o = dict(fourier_opts=r.choice([FO, dict(Nper=3), dict(Nper=4, overlap=.3, window=None)]))
    names = {}
    if r.random() < .3:
        s.tags['elec'], s.tags['mag'] = s.tags['E'], s.tags['B']
        del s.tags['E'], s.tags['B']
        names = dict(E='elec', B='mag')
    real = r.random() < .25
    if remote is None and r.random() < .5:
        o.update(remote_weights=rw, remote_prefilter=rp)     # ignored without remote
    if remote:
        o.update(remote='R')
        if rw is not None:
            o['remote_weights'] = rw
        if rp is not None:
            o['remote_prefilter'] = rp
    t.note((s.sizes.tolist(), f, wk, repr(pre)[:20], remote, repr(rw)[:30], repr(rp)[:20], repr(mo), real))
    inp = dict(freq=f, weights=wk, prefilter=pre, options=o, mest_opts=mo, tags=s.tags, sizes=s.sizes)
    from razorback.fourier_transform import slepian_window
    fo = dict(dict(Nper=8, overlap=.71, window=slepian_window(4)), **o['fourier_opts'])
    try:
        ref = reference(s, f, fo, w, pre, remote, rw, rp, names.get('E', 'E'), names.get('B', 'B'),
                        tf=utils.transfer_function_real_prob if real else transfer_function, **mo)
    except Exception:
        ref = None
    kw = dict(o, mest_opts=mo, real_pb=real)
    if names:
        kw.update(tag_elec='elec', tag_mag='mag')
    res = impedance(s, [f], w, pre, **kw)
    if ref is None:
        t.check(np.isnan(res.impedance).all(), 'failure expected', **inp)
        return
    z, ivid, T, err = ref
    t.check(close(res.impedance[0], z), 'impedance differs from the two stages', got=res.impedance[0], expected=z, **inp)
    if remote:
        t.check(close(res.transfer_mag[0], T), 'remote transfer differs', got=res.transfer_mag[0], expected=T, **inp)
    else:
        t.check(res.transfer_mag.shape[-1] == 0, 'remote transfer without remote', **inp)
    t.check(close(res.error[0], err), 'error', got=res.error[0], expected=err, **inp)
    kw['keep_invalid_times'] = True
    res = impedance(s, [f], w, pre, **kw)
    t.check([len(x) for x in res.invalid_time[0]] == [len(x) for x in ivid], 'number of rejected samples', got=[len(x) for x in res.invalid_time[0]], expected=[len(x) for x in ivid], **inp)


@scenario('C18', 'prefilter rejections', 120)
def prefilter(t):
    r, g = t.rng, t.np
    q, p, n = r.randint(1, 3), r.randint(1, 2), r.randint(10, 30)
    out, inn = g.normal(size=(q, n)), g.normal(size=(p, n))
    rej = {i: set(r.sample(range(n), r.randint(0, 4))) for i in range(q)}

    def pre(line, x):
        k = [i for i in range(q) if np.array_equal(line, out[i])]
        assert len(k) == 1 and np.shape(x) == (n, p) and np.array_equal(x, inn.T)
        return np.array(sorted(rej[k[0]]), int)
    kind = r.choice(['none', 'one', 'per output', 'empty'])
    one = lambda: np.array(sorted(r.sample(range(n), r.randint(1, 5))), int)
    iv = {'none': None, 'one': one(), 'per output': [one() for _ in range(q)], 'empty': []}[kind]
    base = [np.empty(0, int)] * q if kind in ('none', 'empty') else ([iv] * q if kind == 'one' else iv)
    t.note((q, p, n, kind, repr(rej)))
    inp = dict(kind=kind, invalid_idx=iv, rejected=rej)
    got = utils.apply_prefilter(list(out), list(inn), pre, iv)
    t.check(len(got) == q, 'one list per output', **inp)
    for i in range(q):
        t.check(np.asarray(got[i]).dtype.kind == 'i' and list(got[i]) == list(union(base[i], rej[i])), 'rejections of output %d' % i, got=got, **inp)
    got = utils.apply_prefilter(list(out), list(inn), None, iv)
    t.check(len(got) == q and all(list(a) == list(b) for a, b in zip(got, base)), 'without prefilter', got=got, **inp)


@scenario('C18', 'exact recovery via the remote', 40)
def exact(t):
    r, g = t.rng, t.np
    s0 = gen_data(r, g, nb=2, nr=r.choice([2, 3]), ne=2, noise=0., nruns=r.randint(1, 2))
    # the relation between electric and magnetic channels is exact
    sigs = []
    Z = g.normal(size=(2, 2))
    for x in s0.signals:
        data = list(x.data)
        n = x.size
        R = g.normal(size=(len(s0.tags.R), n))
        T = g.normal(size=(2, len(R))) if not sigs else T
        Bm = T @ R
        Em = Z @ Bm
        for k, c in enumerate(s0.tags.R):
            data[c] = R[k]
        for k, c in enumerate(s0.tags.B):
            data[c] = Bm[k]
        for k, c in enumerate(s0.tags.E):
            data[c] = Em[k]
        sigs.append(SyncSignal(data, x.sampling_rate, x.start))
    s = SignalSet(s0.tags, *sigs)
    t.note((s.sizes.tolist(), s.tags))
    for remote in (None, 'R'):
        res = impedance(s, [.1, .3], fourier_opts=FO, remote=remote)
        for z in res.impedance:
            t.check(close(z, Z, 1e-6), 'exact impedance not recovered', got=z, expected=Z, remote=remote)
        t.check(np.all(np.abs(res.error) < 1e-6 * np.abs(Z).max()), 'error of an exact fit', got=res.error, remote=remote)
        if remote:
            t.check(all(close(x, T, 1e-6) for x in res.transfer_mag), 'exact remote transfer', got=res.transfer_mag, expected=T)
