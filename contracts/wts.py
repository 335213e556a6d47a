" weights.py: C15 (robust weights), C16 (no memory) "
from .base import *

NM = 'nanmedian'


def residual(v, name='r', n=None, nan=True, cplx=True):
    n = v.int(name + '.n', 1) if n is None else n
    re, im = z3.Function(name + '.re', INT, REAL), z3.Function(name + '.im', INT, REAL)
    nn = z3.Function(name + '.nan', INT, BOOL)
    a = Arr((n,), lambda i: V.XNum(re(zint(i)), im(zint(i)) if cplx else 0, nn(zint(i)) if nan else False), C16 if cplx else F8)
    a.birth, a.inp = 0, True
    return a


def scaled(r, c):
    " the residual multiplied by a complex constant "
    a = Arr(r.shape, lambda i: mul(r.get(i), c), C16)
    a.birth, a.inp = 0, True
    return a


def nanmedian(n, fn):
    return A.uf_op(NM, [((n,), fn)], [])[0]


def rob_scale(r):
    " the robust scale of the specification: MAD / sigma "
    n = r.shape[0]
    m = nanmedian(n, lambda i: V.absv(r.get(i)))
    return div(nanmedian(n, lambda i: V.absv(sub(V.absv(r.get(i)), m))), V.exact(0.44845), False)


def el(a, i):
    return V.xnum(A.asarray(a).get(i))


def ok_weight(v, w, r, n):
    w = A.asarray(w)
    v.prove('one weight per sample', And(z3.BoolVal(w.ndim == 1), zint(w.shape[0]) == n))

    def one(i):
        x = el(w, i)
        v.prove('finite weight for a sample not excluded', Implies(Not(zb(el(r, i).nan)), And(Not(zb(x.nan)), zreal(x.im) == 0)))
        v.prove('weight not negative', Implies(Not(zb(el(r, i).nan)), zreal(x.re) >= 0))
        return True
    v.forall('sample', n, one)


def zb(x):
    return V.zbool(x)


def unused(v, n):
    " the other arguments of a weight function "
    return v.array('e', (n,), C16), v.array('b', (n, v.int('Q', 1)), C16), v.array('ivd', (v.int('nivd', 0),), I8)


def huber(v, cplx):
    r = residual(v, cplx=cplx)
    n = r.shape[0]
    alpha = v.real('alpha')
    C.assume(alpha > 0)
    f = v.call('weights.Huber', alpha)
    scale = rob_scale(r)
    C.assume(zreal(scale) > 0)
    e, b, ivd = unused(v, n)
    w = v.call(f, v.int('it', 0), r, e, b, ivd)
    ok_weight(v, w, r, n)

    def one(i):
        x, a = el(w, i), V.absv(r.get(i))
        a = V.xnum(a).re
        live = Not(zb(el(r, i).nan))
        lim = zreal(mul(alpha, scale))
        v.prove('at most 1', Implies(live, zreal(x.re) <= 1))
        v.prove('1 up to alpha times the robust scale', Implies(And(live, zreal(a) <= lim), zreal(x.re) == 1))
        v.prove('alpha * scale / residual beyond', Implies(And(live, zreal(a) > lim), zreal(x.re) * zreal(a) == lim))
        return True
    v.forall('sample', n, one)
    v.frame()
    v.reached()


for c in (True, False):
    case('C15 C10', 'weights.Huber.__call__', 'complex residual' if c else 'real residual')(lambda v, c=c: huber(v, c))


def thomson(v, xi):
    r = residual(v)
    n = r.shape[0]
    a = None
    if xi == 'given':
        a = v.real('xi')
        C.assume(a > 0)
    f = v.call('weights.Thomson', a)
    scale = rob_scale(r)
    C.assume(zreal(scale) > 0)
    e, b, ivd = unused(v, n)
    w = v.call(f, 0, r, e, b, ivd)
    ok_weight(v, w, r, n)
    i, j = v.int('i', 0), v.int('j', 0)
    C.assume(And(i < n, j < n, Not(zb(el(r, i).nan)), Not(zb(el(r, j).nan))))
    if a is None:
        a = V.sqrt(mul(2, V.log(mul(2, n))))
    C.assume(zreal(a) > 0)
    wi, wj = zreal(el(w, i).re), zreal(el(w, j).re)
    ai, aj = zreal(V.xnum(V.absv(r.get(i))).re), zreal(V.xnum(V.absv(r.get(j))).re)
    s = zreal(scale)
    v.lemma('quotient i', And((ai / s) * s == ai, ai / s >= 0))
    v.lemma('quotient j', And((aj / s) * s == aj, aj / s >= 0))
    v.lemma('order of the quotients', Implies(ai <= aj, ai / s <= aj / s))
    a = zreal(a)
    v.lemma('order of the products', Implies(ai <= aj, a * (ai / s - a) <= a * (aj / s - a)))
    v.lemma('sign of the product', a * (ai / s - a) >= -(a * a))
    v.prove('decreasing', Implies(ai <= aj, wj <= wi))
    v.prove('at most 1', wi <= 1)
    v.prove('1 for a zero residual', Implies(ai == 0, wi == 1))
    v.frame()
    v.reached()


for xi in ('given', 'default'):
    case('C15 C10', 'weights.Thomson.__call__', 'first iteration, xi %s' % xi)(lambda v, xi=xi: thomson(v, xi))


# ---------------------------------------------------------------------------
# scale free
# ---------------------------------------------------------------------------
def modulus(v, r, c, k):
    " |c r| = |c| |r| for the sample k (proved) "
    x, y = zreal(el(r, k).re), zreal(el(r, k).im)
    cr, ci = zreal(c.re), zreal(c.im)
    m, mc = V.sqrt(x * x + y * y), V.sqrt(cr * cr + ci * ci)
    p, q = cr * x - ci * y, cr * y + ci * x
    m2 = V.xnum(V.absv(mul(r.get(k), c))).re
    v.pure('modulus of a product', lambda x, y, cr, ci, m, mc, m2: Implies(
        And(m >= 0, mc >= 0, m2 >= 0, m * m == x * x + y * y, mc * mc == cr * cr + ci * ci,
            m2 * m2 == (cr * x - ci * y) * (cr * x - ci * y) + (cr * y + ci * x) * (cr * y + ci * x)),
        m2 == m * mc), 'rrrrrrr')(x, y, cr, ci, m, mc, m2)
    return zreal(m2), zreal(V.xnum(V.absv(r.get(k))).re), mc


def homogeneity(v, r, c, mc):
    """ library contract: nanmedian(m * x) = m * nanmedian(x) for m > 0

    instances for the applications met (in the order they were met)
    """
    C.assumptions.add('numpy.nanmedian(m * x) = m * numpy.nanmedian(x) for m > 0')
    reds = [x for x in C.reds if x.op == NM]
    dev = v.pure('scaled deviation', lambda x, m, x2, m2, k: Implies(
        And(k > 0, x2 == k * x, m2 == k * m),
        If(x2 - m2 >= 0, x2 - m2, -(x2 - m2)) == k * If(x - m >= 0, x - m, -(x - m))), 'rrrrr')
    for j, b in enumerate(reds):
        for a in reds[:j]:
            n, w = a.bodies[0][0][0], C.fresh('w', INT)
            x, y, _ = modulus(v, r, c, w)
            s1, s2 = [(a.bodies[0][1][0], w)], [(b.bodies[0][1][0], w)]
            f = lambda body, s: [z3.substitute(p if z3.is_expr(p) else z3.BoolVal(p), *s) for p in (body[3], body[5])]
            (r1, n1), (r2, n2) = f(a.bodies[0], s1), f(b.bodies[0], s2)
            for p in reds[:j]:
                for q in reds[:j]:
                    dev(y, p.results[0], x, q.results[0], mc)
            same = And(r2 == mc * r1, n1 == n2)
            C.assume(Or(And(w >= 0, w < zint(n), Not(same)), b.results[0] == mc * a.results[0]))


def scale_free(v, cls, sizes):
    r = residual(v)
    n = r.shape[0]
    c = V.XNum(v.real('c.re'), v.real('c.im'))
    C.assume(Or(c.re != 0, c.im != 0))
    r2 = scaled(r, c)
    e, b, ivd = unused(v, n)
    k = v.int('k', 0)
    C.assume(And(k < n, Not(zb(el(r, k).nan))))
    x2, x1, mc = modulus(v, r, c, k)
    v.lemma('modulus of the constant', mc > 0)
    # robust scales
    s1 = rob_scale(r)
    s2 = rob_scale(r2)
    homogeneity(v, r, c, mc)
    C.assume(zreal(s1) > 0)
    v.lemma('the robust scale is multiplied by the modulus', zreal(s2) == mc * zreal(s1))
    v.lemma('the modulus of a sample is multiplied by the modulus', x2 == mc * x1)
    if sizes:
        C.assume(z3.Real('param') > 0)
    f = v.call(cls, *[v.real('param')] if sizes else [])
    w1 = A.asarray(v.call(f, 0, r, e, b, ivd))
    w2 = A.asarray(v.call(f, 0, r2, e, b, ivd))
    s1, s2 = zreal(s1), zreal(s2)
    quo = v.pure('quotient of multiples', lambda a, b, a2, b2, m: Implies(
        And(m > 0, b > 0, a2 == m * a, b2 == m * b), a2 / b2 == a / b), 'rrrrr')
    quo(x1, s1, x2, s2, mc)
    al = z3.Real('param') if sizes else z3.RealVal('3/2')
    quo(al * s1, x1, al * s2, x2, mc)
    v.prove('multiplying the residuals by a constant leaves the weights unchanged',
            And(zreal(el(w1, k).re) == zreal(el(w2, k).re), Not(zb(el(w1, k).nan)), Not(zb(el(w2, k).nan))))
    v.reached()


for cls in ('weights.Huber', 'weights.Thomson'):
    for p in (True, False):
        case('C15', cls + '.__call__', 'scale free, %s parameter' % ('given' if p else 'default'))(
            lambda v, cls=cls, p=p: scale_free(v, cls, p))


# ---------------------------------------------------------------------------
# C16: weight functions carry no memory between estimations
# ---------------------------------------------------------------------------
WF = z3.Function('wf', INT, INT, REAL)


def abstract_weight(v):
    " any weight function of the iteration and the residual (not negative), which may fail "
    def fn(it, r, e, b, ivd):
        r = A.asarray(r)
        if C.branch(C.fresh('fails', BOOL)):
            V.py_raise('ValueError', 'weight function')
        tok, = A.uf_op('weightf', [(r.shape, lambda k: V.xnum(r.get(k)).re), (r.shape, lambda k: V.xnum(r.get(k)).im)],
                       [zreal(it)], ['tok'], [INT])

        def elem(i):
            C.assume(WF(tok, zint(i)) >= 0)
            return WF(tok, zint(i))
        return Arr(r.shape, elem, F8)
    return I.Builtin('weight_func', fn)


class Est:
    " the data of an estimation "
    def __init__(self, v, name, Q=None):
        n = v.int(name + '.n', 1)
        self.n = n
        self.e, self.b = v.array(name + '.e', (n,), C16), v.array(name + '.b', (n, Q if Q is not None else v.int('Q', 1)), C16)
        m = v.int(name + '.nivd', 0)
        idx = z3.Function(name + '.ivd', INT, INT)

        def iv(k):
            C.assume(And(idx(zint(k)) >= 0, idx(zint(k)) < n))
            return idx(zint(k))
        self.ivd = Arr((m,), iv, I8)
        self.ivd.birth, self.ivd.inp = 0, True
        C.forall_fact(m, lambda k: And(idx(k) >= 0, idx(k) < n))
        self.v, self.name = v, name

    def args(self, it):
        r = residual(self.v, '%s.r%s' % (self.name, it), self.n, nan=False)
        C.assume(zreal(rob_scale(r)) > 0)       # precondition: the robust scale is not zero
        return it, r, self.e, self.b, self.ivd


def build(v, cls):
    if cls == 'Thomson':
        C.assume(z3.Real('xi') > 0)
        return v.call('weights.Thomson', v.real('xi'))
    if cls == 'Thomson()':
        return v.call('weights.Thomson')
    if cls == 'Huber':
        return v.call('weights.Huber')
    lower, khi = v.real('lower'), v.real('khi')
    C.assume(And(lower > 0, khi > 0))
    return v.call('weights.BoundedInfluenceStep', abstract_weight(v), lower, khi)


def quiet(v, f, *args):
    " a call which may fail "
    try:
        return v.call(f, *args)
    except PyRaise:
        return None


def no_memory(v, cls, past):
    " after any past, the first iterations give the same weights as a new object "
    old, new = build(v, cls), build(v, cls)
    p = Est(v, 'past')
    for it in range(past):
        if quiet(v, old, *p.args(it)) is None:
            break
    r = Est(v, 'now')
    for it in range(2):
        w1, w2 = quiet(v, old, *r.args(it)), quiet(v, new, *r.args(it))
        if w1 is None or w2 is None:
            # failures of the library calls are arbitrary (LinAlgError ...): not compared
            raise PathEnd()
        w1, w2 = A.asarray(w1), A.asarray(w2)

        def same(i):
            x, y = el(w1, i), el(w2, i)
            return And(zreal(x.re) == zreal(y.re), zreal(x.im) == zreal(y.im), zb(x.nan) == zb(y.nan))
        v.forall('iteration %d: the same weights as a new object' % it, r.n, same)
    v.reached()


for cls in ('Thomson', 'Thomson()', 'Huber', 'BoundedInfluenceStep'):
    for past in (0, 1, 2):
        case('C16', 'weights.%s.__call__' % cls.strip('()'), '%s after an estimation of %d iterations' % (cls, past))(
            lambda v, cls=cls, past=past: no_memory(v, cls, past))
