" C16: weight functions carry no memory "
import numpy as np
from .core import scenario, Skip, expect_raise
from .tfgen import cplx, problem
from razorback.mestimator import transfer_function
from razorback.weights import Huber, Thomson, BoundedInfluenceStep, bi_weights, mest_weights, Weights
from razorback.errors import NonConvergence
from razorback.signalset import SignalSet, SyncSignal
import razorback.utils as utils

MAKE = {
    'mest': lambda: Weights([None, Huber(), Thomson()]),
    'thomson': lambda: Weights([None, Thomson(3.)]),
    'bi': lambda: bi_weights(.1, 2),
    'bi0': lambda: bi_weights(.1, 0),
    'shared': lambda: (lambda w: [None, w, w])(Thomson()),
    'sharedbi': lambda: (lambda w: [None, w, w])(BoundedInfluenceStep(Huber(), .05, 4.)),
}


def same(a, b):
    return (type(a) == type(b)) and (isinstance(a, str) and a == b or not isinstance(a, str)
                                     and np.array_equal(a[0], b[0]) and all(np.array_equal(x, y) for x, y in zip(a[1], b[1])))


def est(w, e, b, **kw):
    with np.errstate(all='ignore'):
        try:
            return transfer_function(e, b, w, **kw)
        except Exception as x:
            return type(x).__name__


def disturb(r, g, w, log):
    " an earlier use of the object, that may fail midway "
    k = r.choice(['estimation', 'maxit', 'small', 'nan', 'direct', 'direct2', 'raise'])
    log.append(k)
    e, b, z = problem(r, g, p=r.choice([1, 2, 2, 3]))
    if k == 'estimation':
        est(w, e, b)
    elif k == 'maxit':
        est(w, e, b, maxit=r.randint(1, 3), tol=1e-12)
    elif k == 'small':
        est(w, e[:, :4], b[:, :4])
    elif k == 'nan':
        e = e.copy()
        e[0, 0] = np.nan
        est(w, e, b)
    elif k == 'raise':
        # input breaking in the middle of the iterations
        class Bad(np.ndarray):
            pass
        est(w, e, b[:, ::-1][:, :], tol=0., maxit=5)
    else:
        n = e.shape[1]
        for f in w:
            if f is None:
                continue
            for it in range(r.randint(1, 4)):
                try:
                    with np.errstate(all='ignore'):
                        f(it, 100. * cplx(g, n), e[0], b.T, np.array([], int))
                    if k == 'direct2' and r.random() < .5:
                        f(it, cplx(g, n), e[0], b.T[:-1], np.array([], int))
                except Exception:
                    break


@scenario('C16', 'reused weight sequences', 200)
def reuse(t):
    r, g = t.rng, t.np
    kind = r.choice(sorted(MAKE))
    w = MAKE[kind]()
    e, b, z = problem(r, g, p=2, noise=r.choice([.05, .3, 1.]))
    ref = est(MAKE[kind](), e, b)
    log = []
    for _ in range(r.randint(1, 3)):
        disturb(r, g, w, log)
    t.note((kind, e.shape, log))
    got = est(w, e, b)
    t.check(same(got, ref), 'result depends on earlier uses of the weights', kind=kind, history=log, got=got, expected=ref)
    got = est(w, e, b)
    t.check(same(got, ref), 'result depends on the previous estimation', kind=kind, history=log)


@scenario('C16', 'Thomson scale of the first iteration', 100)
def thomson(t):
    r, g = t.rng, t.np
    n = r.randint(6, 40)
    w = Thomson(r.choice([None, 2.5]))
    for _ in range(r.randint(0, 2)):
        for it in range(r.randint(1, 3)):
            w(it, 50 * cplx(g, n), None, None, [])
    x0, x1 = cplx(g, n), 3 * cplx(g, n)
    t.note((n, str(w), complex(x0[0])))
    a0, a1, a2 = w(0, x0.copy(), None, None, []), w(1, x1.copy(), None, None, []), w(2, x1.copy(), None, None, [])
    f = Thomson(w._xi if hasattr(w, '_xi') else None)
    b0, b1 = f(0, x0.copy(), None, None, []), f(1, x1.copy(), None, None, [])
    t.check(np.array_equal(a0, b0) and np.array_equal(a1, b1) and np.array_equal(a2, a1), 'weights depend on an earlier estimation', n=n)
    # scale of the first iteration
    a = np.abs(x0)
    s = np.median(np.abs(a - np.median(a))) / .44845
    c = 2.5 if '2.5' in str(w) else np.sqrt(2 * np.log(2 * n))
    exp = np.exp(np.exp(-c ** 2) - np.exp(c * (np.abs(x1) / s - c)))
    t.check(np.allclose(a1, exp, rtol=1e-6, atol=1e-300), 'scale of the second iteration is not that of the first', n=n)


@scenario('C16', 'bounded influence: order of the iterations', 100)
def order(t):
    r, g = t.rng, t.np
    n = r.randint(12, 40)
    b = cplx(g, n, 2)
    mk = lambda: BoundedInfluenceStep(Huber(), .05, 4.)
    w = mk()
    none = np.array([], int)
    done = -1
    log = []
    xs = [cplx(g, n) for _ in range(8)]
    cur = []
    for _ in range(r.randint(2, 8)):
        it = r.choice([0, done + 1, done + 1, done + 2, done, 5])
        ok = it == 0 or it == done + 1
        log.append(it)
        if it < 0:
            continue
        x = xs[len(log) % 8]
        if ok:
            got = w(it, x.copy(), None, b, none)
            cur = [x] if it == 0 else cur + [x]
            f = mk()
            for j, y in enumerate(cur):
                exp = f(j, y.copy(), None, b, none)
            t.check(np.array_equal(got, exp), 'weights depend on something else than the iterations of this estimation', calls=log)
            done = it
        else:
            t.check(expect_raise(lambda: w(it, x.copy(), None, b, none)), 'call out of sequence accepted', calls=log)
    t.note((n, log))


@scenario('C16', 'impedance', 12)
def imp(t):
    r, g = t.rng, t.np
    n = 400
    s = SignalSet({'E': (0, 1), 'B': (2, 3)}, SyncSignal([g.normal(size=n) for _ in range(4)], 1., 0.))
    fo = dict(Nper=4, overlap=.5, window=np.hanning)
    kind = r.choice(['mest', 'bi', 'shared'])
    w = MAKE[kind]()
    fs = [.1, .2, .05, .3]
    t.note((kind, n))
    for opts in (dict(maxit=2, tol=1e-12), {}):
        utils.impedance(s, r.sample(fs, 3), w, fourier_opts=fo, mest_opts=opts)
    f = r.choice(fs)
    a = utils.impedance(s, [f], w, fourier_opts=fo)
    b = utils.impedance(s, [f], MAKE[kind](), fourier_opts=fo)
    t.check(np.array_equal(a.impedance, b.impedance, equal_nan=True) and np.array_equal(a.error, b.error, equal_nan=True), 'impedance depends on earlier estimations', kind=kind)
