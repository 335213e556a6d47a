""" pyvc values: numbers, names, sequences, dictionaries, arrays, objects.

Numbers are python ints / floats / Fractions, z3 Int / Real terms, or XNum (complex numbers
and NaN).  Machine arithmetic is treated as mathematical.
"""
from fractions import Fraction
import math
import z3

from .core import C, Unsupported, PathEnd, PyRaise, Budget, has_quant, quantify


# ---------------------------------------------------------------------------
# exceptions of the interpreted program
# ---------------------------------------------------------------------------
class ExcV:
    " exception object of the interpreted program "
    birth = 0

    def __init__(self, cls, args=()):
        self.cls, self.args = cls, tuple(args)

    def __repr__(self):
        return '%s(%s)' % (self.cls.name, ', '.join(map(str, self.args)))


def py_raise(name, *args):
    raise PyRaise(ExcV(EXC[name], args))


# ---------------------------------------------------------------------------
# numbers
# ---------------------------------------------------------------------------
class XNum:
    " complex number, possibly NaN "
    __slots__ = ('re', 'im', 'nan')

    def __init__(self, re, im=0, nan=False):
        self.re, self.im, self.nan = re, im, nan

    def __repr__(self):
        return 'XNum(%s, %s, nan=%s)' % (self.re, self.im, self.nan)


NAN = float('nan')
INF = float('inf')


def isz(v):
    return isinstance(v, z3.ExprRef)


def is_bool(v):
    return isinstance(v, bool) or (isz(v) and z3.is_bool(v))


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (isz(v) and z3.is_int(v))


def is_real(v):
    return isinstance(v, (float, Fraction)) or (isz(v) and z3.is_real(v))


def is_num(v):
    return isinstance(v, (int, float, Fraction, complex, XNum)) or (isz(v) and (z3.is_arith(v) or z3.is_bool(v)))


def norm(v):
    " z3 numerals to python numbers "
    if isz(v):
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
    return v


def simp(v):
    if isz(v):
        return norm(z3.simplify(v))
    return v


def zint(v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, (float, Fraction)):
        raise Unsupported('real used as an integer: %r' % v)
    if isz(v) and z3.is_bool(v):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if isz(v) and z3.is_int(v):
        return v
    raise Unsupported('not an integer: %r' % (v,))


def zreal(v):
    if isinstance(v, bool):
        return z3.RealVal(int(v))
    if isinstance(v, int):
        return z3.RealVal(v)
    if isinstance(v, float):
        if v != v or v in (INF, -INF):
            raise Unsupported('non finite number in a term')
        v = Fraction(v)
    if isinstance(v, Fraction):
        return z3.RealVal('%d/%d' % (v.numerator, v.denominator))
    if isz(v):
        if z3.is_bool(v):
            return z3.If(v, z3.RealVal(1), z3.RealVal(0))
        if z3.is_int(v):
            return z3.ToReal(v)
        if z3.is_real(v):
            return v
    raise Unsupported('not a real: %r' % (v,))


def zbool(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isz(v) and z3.is_bool(v):
        return v
    raise Unsupported('not a boolean: %r' % (v,))


def zterm(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if is_int(v):
        return zint(v)
    if is_real(v):
        return zreal(v)
    if isz(v):
        return v
    if isinstance(v, SymStr):
        return v.id
    if isinstance(v, str):
        return z3.IntVal(intern(v))
    raise Unsupported('no term for %r' % (v,))


def xnum(v):
    if isinstance(v, XNum):
        return v
    if isinstance(v, complex):
        if v != v:
            return XNum(0, 0, True)
        return XNum(v.real, v.imag)
    if isinstance(v, float) and v != v:
        return XNum(0, 0, True)
    return XNum(v, 0, False)


def is_x(v):
    return isinstance(v, (XNum, complex)) or (isinstance(v, float) and v != v)


def conc(v):
    return isinstance(v, (bool, int, float, Fraction))


def xmk(re, im, nan):
    if conc(im) and im == 0:
        if nan is False:
            return re
    return XNum(re, im, nan)


def bor(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return z3.Or(a, b)


def band(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return z3.And(a, b)


def bnot(a):
    if isinstance(a, bool):
        return not a
    return z3.Not(a)


def isinf(v):
    return isinstance(v, float) and v in (INF, -INF)


def _pair(a, b):
    if is_int(a) and is_int(b):
        return zint(a), zint(b), True
    if (is_bool(a) or is_int(a)) and (is_bool(b) or is_int(b)):
        return zint(a), zint(b), True
    return zreal(a), zreal(b), False


def exact(v):
    if isinstance(v, float) and v == v and not isinf(v):
        return Fraction(v)
    return v


def add(a, b):
    if is_x(a) or is_x(b):
        a, b = xnum(a), xnum(b)
        return xmk(add(a.re, b.re), add(a.im, b.im), bor(a.nan, b.nan))
    if conc(a) and conc(b):
        if isinf(a) or isinf(b):
            return float(a) + float(b)
        return exact(a) + exact(b)
    if isinf(a):
        return a
    if isinf(b):
        return b
    if conc(a) and a == 0 and not (is_int(b) and isinstance(a, (float, Fraction))):
        return b
    if conc(b) and b == 0 and not (is_int(a) and isinstance(b, (float, Fraction))):
        return a
    x, y, _ = _pair(a, b)
    return simp(x + y)


def neg(a):
    if is_x(a):
        a = xnum(a)
        return xmk(neg(a.re), neg(a.im), a.nan)
    if conc(a):
        return -a
    if is_bool(a):
        a = zint(a)
    return simp(-a)


def sub(a, b):
    if is_x(a) or is_x(b):
        return add(a, neg(b))
    if conc(a) and conc(b) and not (isinf(a) or isinf(b)):
        return exact(a) - exact(b)
    if isinf(a) or isinf(b):
        return add(a, neg(b))
    if conc(b) and b == 0 and not (is_int(a) and isinstance(b, (float, Fraction))):
        return a
    x, y, _ = _pair(a, b)
    return simp(x - y)


def mul(a, b):
    if is_x(a) or is_x(b):
        a, b = xnum(a), xnum(b)
        return xmk(sub(mul(a.re, b.re), mul(a.im, b.im)), add(mul(a.re, b.im), mul(a.im, b.re)),
                   bor(a.nan, b.nan))
    if conc(a) and conc(b):
        if isinf(a) or isinf(b):
            return float(a) * float(b)
        return exact(a) * exact(b)
    for u, v in ((a, b), (b, a)):
        if conc(u):
            if isinf(u):
                raise Unsupported('product with infinity')
            if u == 0:
                return 0 if (is_int(u) and (is_int(v) or is_bool(v))) else Fraction(0)
            if u == 1 and not (is_int(v) and isinstance(u, (float, Fraction))) and not is_bool(v):
                return v
    x, y, _ = _pair(a, b)
    return simp(x * y)


def div(a, b, check=True):
    " true division of scalars "
    if is_x(a) or is_x(b):
        a, b = xnum(a), xnum(b)
        if conc(b.im) and b.im == 0:
            return xmk(div(a.re, b.re, check), div(a.im, b.re, check), bor(a.nan, b.nan))
        d = add(mul(b.re, b.re), mul(b.im, b.im))
        if check:
            nonzero(d)
        n = mul(a, XNum(b.re, neg(b.im), b.nan))
        n = xnum(n)
        return xmk(div(n.re, d, False), div(n.im, d, False), bor(a.nan, b.nan))
    if isinf(b):
        if isinf(a):
            return NAN
        return Fraction(0)
    if conc(b):
        if b == 0:
            py_raise('ZeroDivisionError')
        if isinf(a):
            return a if b > 0 else -a
        if conc(a):
            return Fraction(exact(a)) / Fraction(exact(b))
        return simp(zreal(a) / zreal(b))
    if check:
        nonzero(b)
    if isinf(a):
        return a if C.branch(zreal(b) > 0) else -a
    if conc(a) and a == 0:
        return Fraction(0)
    return simp(zreal(a) / zreal(b))


def nonzero(b):
    if C.branch(zterm(b) == 0):
        py_raise('ZeroDivisionError')


def named(t, facts=None, hint='t'):
    """ name a compound term: a fresh constant equal to t (defined by facts(constant) if given)

    Only outside of index scopes (there, terms must stay syntactically comparable).
    """
    if C.idx_args():
        return None
    key = ('named', hint, t.get_id())
    hit = C.memo.get(key)
    if hit is not None:
        return hit[0]
    srt = z3.IntSort() if facts is not None else t.sort()
    c = C.fresh(hint, srt)
    C.memo[key] = (c, t)
    C.log(_DUMMY, 'memo', None, lambda: C.memo.pop(key, None), None)
    C.assume(facts(c) if facts is not None else c == t)
    return c


def zfloor(v):
    " floor as an Int term "
    if conc(v):
        return math.floor(v)
    if is_int(v):
        return v
    x = zreal(v)
    x = named(x, hint='x') if z3.is_app(x) and x.num_args() and not C.idx_args() else x
    r = named(x, lambda c: z3.And(z3.ToReal(c) <= x, x < z3.ToReal(c) + 1), 'floor')
    if r is not None:
        return r
    return simp(z3.ToInt(x))


def zceil(v):
    if conc(v):
        return math.ceil(v)
    if is_int(v):
        return v
    x = zreal(v)
    x = named(x, hint='x') if z3.is_app(x) and x.num_args() and not C.idx_args() else x
    r = named(x, lambda c: z3.And(z3.ToReal(c) >= x, z3.ToReal(c) - 1 < x), 'ceil')
    if r is not None:
        return r
    return simp(-z3.ToInt(-x))


def zround(v):
    " nearest integer (ties: either neighbour, only the distance is specified) "
    if conc(v):
        return round(v)
    if is_int(v):
        return v
    x = zreal(v)
    x = named(x, hint='x') if z3.is_app(x) and x.num_args() and not C.idx_args() else x
    half = z3.RealVal('1/2')
    r = named(x, lambda c: z3.And(z3.ToReal(c) <= x + half, x - half <= z3.ToReal(c),
                                  z3.Implies(z3.Or(z3.ToReal(c) == x + half, z3.ToReal(c) == x - half), c % 2 == 0)),
              'round')
    if r is not None:
        return r
    f = z3.ToInt(x + half)
    # round half to even
    r = z3.If(z3.And(z3.ToReal(f) - x == z3.RealVal('1/2'), f % 2 != 0), f - 1, f)
    return simp(r)


def floordiv(a, b):
    if conc(a) and conc(b):
        if b == 0:
            py_raise('ZeroDivisionError')
        return exact(a) // exact(b)
    if is_int(a) and is_int(b):
        nonzero(b)
        x, y = zint(a), zint(b)
        # z3 div is floor for positive divisors
        if conc(b):
            if b > 0:
                return simp(x / y)
            return simp((-x) / (-y))
        return simp(z3.If(y > 0, x / y, (-x) / (-y)))
    return simp(z3.ToReal(zfloor(div(a, b))) if not conc(zfloor(div(a, b))) else Fraction(zfloor(div(a, b))))


def mod(a, b):
    if conc(a) and conc(b):
        if b == 0:
            py_raise('ZeroDivisionError')
        return exact(a) % exact(b)
    return sub(a, mul(b, floordiv(a, b)))


SQRT = z3.Function('sqrt', z3.RealSort(), z3.RealSort())
EXP = z3.Function('exp', z3.RealSort(), z3.RealSort())
LOG = z3.Function('log', z3.RealSort(), z3.RealSort())
COS = z3.Function('cos', z3.RealSort(), z3.RealSort())
SIN = z3.Function('sin', z3.RealSort(), z3.RealSort())
ANGLE = z3.Function('angle', z3.RealSort(), z3.RealSort(), z3.RealSort())
PI = z3.Const('pi', z3.RealSort())


def sqrt(v):
    if conc(v) and v >= 0:
        r = math.isqrt(int(v)) if v == int(v) else None
        if r is not None and r * r == v:
            return Fraction(r)
    x = zreal(v)
    t = SQRT(x)
    C.assume(z3.Implies(x >= 0, z3.And(t >= 0, t * t == x)))
    return t


def real_fun(name, v):
    " exp / log as monotone functions "
    x = zreal(v)
    if name == 'exp':
        t = EXP(x)
        C.assume(t > 0)
        C.assume(EXP(z3.RealVal(0)) == 1)
        C.assume(LOG(t) == x)
        lst = C.terms.setdefault('exp', [(z3.RealVal(0), EXP(z3.RealVal(0)))])
    else:
        t = LOG(x)
        C.assume(LOG(z3.RealVal(1)) == 0)
        C.assume(z3.Implies(x > 0, EXP(t) == x))
        lst = C.terms.setdefault('log', [(z3.RealVal(1), LOG(z3.RealVal(1)))])
    if not any(a.eq(x) for a, _ in lst):
        lst.append((x, t))
    return t


def exp(v):
    if is_x(v):
        v = xnum(v)
        m = exp(v.re)
        if conc(v.im) and v.im == 0:
            return xmk(m, 0, v.nan)
        if conc(v.re) and v.re == 0:
            m = 1
        im = z3.simplify(zreal(v.im), som=True)
        return XNum(mul(m, COS(im)), mul(m, SIN(im)), v.nan)
    if conc(v) and v == 0:
        return Fraction(1)
    return real_fun('exp', v)


def log(v):
    if is_x(v):
        v = xnum(v)
        if not (conc(v.im) and v.im == 0):
            raise Unsupported('complex logarithm')
        return xmk(log(v.re), 0, v.nan)
    if conc(v) and v == 1:
        return Fraction(0)
    return real_fun('log', v)


POW = z3.Function('pow', z3.RealSort(), z3.RealSort(), z3.RealSort())


def power(a, b):
    if conc(b):
        if b == Fraction(1, 2):
            return sqrt(a)
        if b == int(b) and abs(b) <= 4:
            n = int(b)
            r = 1
            for _ in range(abs(n)):
                r = mul(r, a)
            if n < 0:
                return div(1, r)
            return r
        if conc(a):
            return exact(a) ** b
    return POW(zreal(a), zreal(b))


def absv(a):
    if is_x(a):
        a = xnum(a)
        if conc(a.im) and a.im == 0:
            return xmk(absv(a.re), 0, a.nan)
        return xmk(sqrt(add(mul(a.re, a.re), mul(a.im, a.im))), 0, a.nan)
    if conc(a):
        return abs(a)
    if is_bool(a):
        a = zint(a)
    return simp(z3.If(a >= 0, a, -a))


def ite(c, a, b):
    " if-then-else on numbers / names "
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, (int, float, Fraction, str)) and isinstance(b, type(a)) and a == b:
        return a
    if is_x(a) or is_x(b):
        a, b = xnum(a), xnum(b)
        return XNum(ite(c, a.re, b.re), ite(c, a.im, b.im), ite(c, a.nan, b.nan))
    if is_bool(a) and is_bool(b):
        return simp(z3.If(c, zbool(a), zbool(b)))
    if isinf(a) or isinf(b) or not (is_num(a) and is_num(b)):
        if isinstance(a, SymStr) or isinstance(b, SymStr):
            return SymStr(z3.If(c, zterm(a), zterm(b)))
        return a if C.branch(c) else b
    x, y, _ = _pair(a, b)
    t = simp(z3.If(c, x, y))
    if isz(t) and z3.is_app_of(t, z3.Z3_OP_ITE):
        r = named(t, hint='ite')
        if r is not None:
            return r
    return t


def cmp(op, a, b):
    " comparison of scalars: python bool or z3 Bool "
    if is_x(a) or is_x(b):
        a, b = xnum(a), xnum(b)
        nan = bor(a.nan, b.nan)
        if op == '==':
            r = band(cmp('==', a.re, b.re), cmp('==', a.im, b.im))
            return band(bnot(nan), r)
        if op == '!=':
            r = bor(cmp('!=', a.re, b.re), cmp('!=', a.im, b.im))
            return bor(nan, r)
        return band(bnot(nan), cmp(op, a.re, b.re))
    if conc(a) and conc(b):
        if isinf(a) or isinf(b):
            pass
        else:
            a, b = exact(a), exact(b)
        return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
    if isinf(a) or isinf(b):
        sa = (1 if a > 0 else -1) if isinf(a) else 0
        sb = (1 if b > 0 else -1) if isinf(b) else 0
        return cmp(op, sa, sb)
    if is_bool(a) and is_bool(b) and op in ('==', '!='):
        r = zbool(a) == zbool(b)
        return simp(r if op == '==' else z3.Not(r))
    x, y, _ = _pair(a, b)
    r = {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y,
         '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y}[op]()
    return simp(r)


def num_min(a, b):
    " python min(a, b): b if b < a else a "
    return ite(cmp('<', b, a), b, a)


def num_max(a, b):
    return ite(cmp('>', b, a), b, a)


# ---------------------------------------------------------------------------
# names
# ---------------------------------------------------------------------------
_INTERN = {}


def intern(s):
    " concrete names are negative integers, symbolic ones are arbitrary "
    if s not in _INTERN:
        _INTERN[s] = -1000 - len(_INTERN)
    return _INTERN[s]


class SymStr:
    " symbolic string; user: a name that is not written in the program "
    def __init__(self, id, user=False):
        self.id, self.user = id, user
        if user:
            C.assumptions.add('names given by the user are none of the identifiers of the program (n, self, attributes)')

    def __repr__(self):
        return 'SymStr(%s)' % self.id


def str_pred(name):
    return z3.Function('str_' + name, z3.IntSort(), z3.BoolSort())


def str_fun(name):
    return z3.Function('str_' + name, z3.IntSort(), z3.IntSort())


def is_str(v):
    return isinstance(v, (str, SymStr))


def str_eq(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, str) and b.user or isinstance(b, str) and a.user:
        return False
    return simp(zterm(a) == zterm(b))


class _D:
    birth = 0


_DUMMY = _D()


class Opaque:
    " uninterpreted value (term of sort Int used as identity) "
    def __init__(self, term, kind='opaque'):
        self.term, self.kind = term, kind

    def __repr__(self):
        return '%s(%s)' % (self.kind, self.term)


class UFn(Opaque):
    " uninterpreted callable; impl(args, kwargs) gives the result "
    def __init__(self, term, impl, kind='ufn'):
        super().__init__(term, kind)
        self.impl = impl


# ---------------------------------------------------------------------------
# mutable state
# ---------------------------------------------------------------------------
class Mutable:
    inp = False

    def __init__(self):
        self.birth = C.tick()
        self.last_mut = 0

    def read(self):
        lim = C.read_limit
        if lim is not None and self.last_mut > lim and self.birth <= lim:
            raise Unsupported('delayed evaluation reads a modified object')
        if self in C.poison:
            raise Unsupported('loop-carried read of a modified container')

    def changed(self, kind, data, undo):
        if C.effect_mode(self):
            undo()
            raise Unsupported('modification of an outer object in a symbolic loop')
        old = self.last_mut
        def un():
            undo()
            self.last_mut = old
        C.log(self, kind, data, un, None)
        self.last_mut = C.clock


class Obj(Mutable):
    def __init__(self, cls, attrs=None):
        super().__init__()
        self.cls = cls
        self.attrs = dict(attrs or {})

    def __repr__(self):
        return '<%s object>' % self.cls.name

    def setattr(self, name, value):
        missing = object()
        old = self.attrs.get(name, missing)

        def undo():
            if old is missing:
                self.attrs.pop(name, None)
            else:
                self.attrs[name] = old
        self.attrs[name] = value
        self.changed('setattr', (name, value), undo)

    def delattr(self, name):
        old = self.attrs.pop(name)
        self.changed('delattr', (name,), lambda: self.attrs.__setitem__(name, old))


def seq_of(x):
    " python list / tuple -> SeqV "
    if isinstance(x, SeqV):
        return x
    if isinstance(x, MList):
        return x.seq
    x = list(x)
    return SeqV(len(x), None, items=x)


class SeqV:
    """ immutable sequence of n elements, element k given by fn(k)

    items: python list when the sequence is concrete.
    """
    def __init__(self, n, fn, items=None, uid=None, hints=None):
        n = simp(n)
        if items is None and isinstance(n, int):
            # concrete length: force later but keep as items
            pass
        self.n, self.fn, self.items = n, fn, items
        self.uid = uid or C.uid()
        self.args = C.idx_args()
        self.limit = C.read_limit if C.read_limit is not None else C.clock
        self.hints = hints or {}
        self.birth = C.tick()

    @property
    def concrete(self):
        return isinstance(self.n, int)

    def get(self, k):
        k = simp(k)
        if self.items is not None:
            if isinstance(k, int):
                return self.items[k]
            if not self.items:
                raise PathEnd()
            # symbolic index in a concrete list
            i = C.select([zint(k) == j for j in range(len(self.items))])
            return self.items[i]
        key = (self.uid, k if isinstance(k, int) else k.get_id(),
               tuple(a.get_id() for a in self.args))
        hit = C.memo.get(key)
        if hit is not None:
            return hit[0]
        lim = C.read_limit
        C.read_limit = self.limit if lim is None else min(lim, self.limit)
        try:
            v = C.in_scope(self.uid, self.args + [zint(k)], lambda: self.fn(k))
        except PyRaise:
            raise PathEnd()      # excluded when the sequence was built
        finally:
            C.read_limit = lim
        C.memo[key] = (v, k, self)
        C.log(_DUMMY, 'memo', key, lambda: C.memo.pop(key, None), None)
        return v

    def list(self):
        if not self.concrete:
            raise Unsupported('symbolic length')
        if self.items is not None:
            return list(self.items)
        return [self.get(i) for i in range(self.n)]

    def map(self, f, uid=None):
        if self.items is not None:
            return SeqV(self.n, None, items=[f(e) for e in self.items])
        return SeqV(self.n, lambda k: f(self.get(k)), uid=uid)

    def __repr__(self):
        return 'SeqV(%s)' % (self.items if self.items is not None else self.n)


def fresh_int(name, lo=None, hi=None):
    v = C.fresh(name, z3.IntSort())
    if lo is not None:
        C.assume(v >= lo)
    if hi is not None:
        C.assume(v < hi)
    return v


def seq_concat(*seqs):
    seqs = [seq_of(s) for s in seqs]
    seqs = [s for s in seqs if not (s.concrete and s.n == 0)]
    if not seqs:
        return SeqV(0, None, items=[])
    if len(seqs) == 1:
        return seqs[0]
    if all(s.concrete for s in seqs):
        return SeqV(0, None, items=sum((s.list() for s in seqs), [])) if False else \
            seq_of(sum((s.list() for s in seqs), []))
    offs = [0]
    for s in seqs:
        offs.append(add(offs[-1], s.n))

    def fn(k):
        conds = []
        for i in range(len(seqs)):
            conds.append(z3.And(zint(k) >= zint(offs[i]), zint(k) < zint(offs[i + 1])))
        i = C.select(conds)
        return seqs[i].get(sub(k, offs[i]))
    r = SeqV(offs[-1], fn)
    r.hints['concat'] = (seqs, offs)
    return r


def seq_slice(s, start, n, step=1):
    " elements start, start+step, ... (n of them) "
    s = seq_of(s)
    if isinstance(n, int) and isinstance(start, int) and s.items is not None:
        return seq_of([s.items[start + i * step] for i in range(n)])
    r = SeqV(n, lambda k: s.get(add(start, mul(k, step))))
    return r


def index_bounds(i, n, what='list index out of range'):
    " normalise a python index "
    if isinstance(i, int) and isinstance(n, int):
        j = i + n if i < 0 else i
        if not 0 <= j < n:
            py_raise('IndexError', what)
        return j
    if isinstance(i, int):
        if i < 0:
            j = add(i, n)
            if C.branch(cmp('<', j, 0)):
                py_raise('IndexError', what)
            return j
        if C.branch(cmp('>=', i, n)):
            py_raise('IndexError', what)
        return i
    i = zint(i)
    if C.branch(z3.Or(i >= zint(n), i < -zint(n))):
        py_raise('IndexError', what)
    d = C.decide(i < 0)
    if d is None:
        return simp(z3.If(i < 0, i + zint(n), i))
    return add(i, n) if d else i


class SliceV:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def indices(self, n):
        " python slice.indices(n) "
        def clip(v, lo, hi):
            return num_min(num_max(v, lo), hi)
        step = 1 if self.step is None else self.step
        if not is_int(step):
            py_raise('TypeError')
        if C.branch(cmp('==', step, 0)):
            py_raise('ValueError', 'slice step cannot be zero')
        pos = C.branch(cmp('>', step, 0))
        lo, hi = (0, n) if pos else (-1, sub(n, 1))

        def one(v, default):
            if v is None:
                return default
            if not is_int(v):
                py_raise('TypeError')
            v = ite(cmp('<', v, 0), add(v, n), v)
            return clip(v, lo, hi)
        start = one(self.start, lo if pos else hi)
        stop = one(self.stop, hi if pos else lo)
        return start, stop, step


def range_len(start, stop, step):
    if all(isinstance(e, int) for e in (start, stop, step)):
        return len(range(start, stop, step))
    if isinstance(step, int):
        if step == 1:
            d = sub(stop, start)
            return num_max(d, 0)
        if step == -1:
            d = sub(start, stop)
            return num_max(d, 0)
    pos = C.branch(cmp('>', step, 0))
    if pos:
        d = sub(stop, start)
        return ite(cmp('<=', d, 0), 0, add(1, floordiv(sub(d, 1), step)))
    d = sub(start, stop)
    return ite(cmp('<=', d, 0), 0, add(1, floordiv(sub(d, 1), neg(step))))


def slice_seq(s, sl):
    s = seq_of(s)
    if s.items is not None and all(e is None or isinstance(e, int) for e in (sl.start, sl.stop, sl.step)):
        return seq_of(s.items[slice(sl.start, sl.stop, sl.step)])
    start, stop, step = sl.indices(s.n)
    return seq_slice(s, start, range_len(start, stop, step), step)


class RangeV:
    " range(start, stop, step) "
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step

    @property
    def n(self):
        return range_len(self.start, self.stop, self.step)

    @property
    def seq(self):
        n = self.n
        if isinstance(n, int) and isinstance(self.start, int) and isinstance(self.step, int):
            return seq_of(list(range(self.start, self.stop, self.step)) if isinstance(self.stop, int)
                          else [self.start + i * self.step for i in range(n)])
        r = SeqV(n, lambda k: add(self.start, mul(k, self.step)))
        r.hints['range'] = (self.start, self.step)
        return r

    def contains(self, v):
        if not is_int(v):
            if is_real(v) or is_bool(v):
                raise Unsupported('float in range')
            return False
        if self.step == 1:
            return simp(z3.And(zint(v) >= zint(self.start), zint(v) < zint(self.stop)))
        raise Unsupported('membership in a range with a step')


class MList(Mutable):
    def __init__(self, seq):
        super().__init__()
        self._seq = seq_of(seq)

    @property
    def seq(self):
        self.read()
        return self._seq

    def set_seq(self, seq, kind, data=None):
        old = self._seq
        self._seq = seq_of(seq)

        def undo():
            self._seq = old
        self.changed(kind, data, undo)

    def append(self, v):
        self.set_seq_lazy('append', v)

    def set_seq_lazy(self, kind, v):
        if C.effect_mode(self):
            C.log_effect(self, kind, v)
            return
        if kind == 'append':
            self.set_seq(seq_concat(self._seq, seq_of([v])), kind, v)
        else:
            self.set_seq(seq_concat(self._seq, v), kind, v)

    def extend(self, seq):
        self.set_seq_lazy('extend', seq_of(seq))

    def __repr__(self):
        return 'MList(%r)' % self._seq


class EveryName:
    " the names of the program are different from the symbolic names "
    def __contains__(self, k):
        return True

    def __iter__(self):
        return iter(())


class MDict(Mutable):
    """ dictionary: concrete insertion-ordered part or symbolic map

    content: ('c', [(key, value), ...])  or  ('s', keys: SeqV (distinct), vals: SeqV)
    """
    def __init__(self, items=(), sym=None, excluded=()):
        super().__init__()
        self._c = ('c', list(items)) if sym is None else ('s',) + tuple(sym)
        self.excluded = excluded if isinstance(excluded, EveryName) else frozenset(excluded)

    @property
    def content(self):
        self.read()
        return self._c

    @property
    def sym(self):
        return self.content[0] == 's'

    def keys(self):
        c = self.content
        return seq_of([k for k, _ in c[1]]) if c[0] == 'c' else c[1]

    def values(self):
        c = self.content
        return seq_of([v for _, v in c[1]]) if c[0] == 'c' else c[2]

    def items(self):
        c = self.content
        if c[0] == 'c':
            return seq_of([(k, v) for k, v in c[1]])
        keys, vals = c[1], c[2]
        return SeqV(keys.n, lambda k: (keys.get(k), vals.get(k)))

    def length(self):
        c = self.content
        return len(c[1]) if c[0] == 'c' else c[1].n

    def find(self, key):
        " position of key, or None (forks) "
        c = self.content
        if isinstance(key, str) and key in self.excluded:
            return None
        if c[0] == 'c':
            for i, (k, _) in enumerate(c[1]):
                if truth_eq(k, key):
                    return i
            return None
        return seq_index(c[1], key)

    def set_content(self, c, kind, data=None):
        old = self._c
        self._c = c
        if self.user_only and not self.all_user():
            raise Unsupported('name of the program in a dictionary of names given by the user')

        def undo():
            self._c = old
        self.changed(kind, data, undo)

    user_only = False

    def all_user(self):
        " the keys (before the loop, if any) are names given by the user "
        c = self._c
        if c[0] == 'c':
            return all(isinstance(k, SymStr) and k.user for k, _ in c[1])
        _, _, paths = C.generic(c[1].n, c[1].get)
        return all(p.kind == 'val' and isinstance(p.value, SymStr) and p.value.user for p in paths)

    def setitem(self, key, value):
        if self.user_only and not (isinstance(key, SymStr) and key.user):
            raise Unsupported('name of the program in a dictionary of names given by the user')
        if C.effect_mode(self):
            C.log_effect(self, 'setitem', (key, value))
            return
        i = self.find(key)
        c = self._c
        if c[0] == 'c':
            items = list(c[1])
            if i is None:
                items.append((key, value))
            else:
                items[i] = (items[i][0], value)
            self.set_content(('c', items), 'setitem', (key, value))
            return
        keys, vals = c[1], c[2]
        if i is None:
            new = ('s', seq_concat(keys, [key]), seq_concat(vals, [value]))
            self.set_content(new, 'setitem', (key, value))
        else:
            def fn(k):
                if C.branch(zint(k) == zint(i)):
                    return value
                return vals.get(k)
            self.set_content(('s', keys, SeqV(keys.n, fn)), 'setitem', (key, value))

    def delitem(self, key):
        i = self.find(key)
        if i is None:
            py_raise('KeyError', key)
        c = self._c
        if c[0] == 'c':
            items = list(c[1])
            del items[i]
            self.set_content(('c', items), 'delitem', key)
            return
        keys, vals = c[1], c[2]
        pos = lambda k: simp(z3.If(zint(k) < zint(i), zint(k), zint(k) + 1))
        n = sub(keys.n, 1)
        self.set_content(('s', SeqV(n, lambda k: keys.get(pos(k))), SeqV(n, lambda k: vals.get(pos(k)))),
                         'delitem', key)

    def get_at(self, i):
        c = self.content
        return c[1][i][1] if c[0] == 'c' else c[2].get(i)


class SetV:
    " set: image of a sequence, or a range "
    birth = 0

    def __init__(self, seq=None, rng=None, frozen=False):
        self.rng = rng
        self._seq = seq_of(seq) if seq is not None else None
        self.frozen = frozen

    @property
    def seq(self):
        return self._seq if self._seq is not None else self.rng.seq

    def contains(self, v):
        if self.rng is not None:
            return self.rng.contains(v)
        return seq_contains(self.seq, v)

    def __repr__(self):
        return 'SetV(%r)' % (self._seq if self._seq is not None else self.rng)


class MSet(Mutable):
    " mutable set "
    def __init__(self, setv):
        super().__init__()
        self._set = setv

    @property
    def set(self):
        self.read()
        return self._set

    def assign(self, setv, kind, data=None):
        old = self._set
        self._set = setv

        def undo():
            self._set = old
        self.changed(kind, data, undo)


def as_set(v):
    if isinstance(v, MSet):
        return v.set
    return v


# ---------------------------------------------------------------------------
# equality
# ---------------------------------------------------------------------------
def eq(a, b):
    " python == as a python bool or z3 Bool (may fork) "
    if a is b and not isinstance(a, float):
        return True
    if is_num(a) and is_num(b):
        return cmp('==', a, b)
    if is_str(a) or is_str(b):
        if is_str(a) and is_str(b):
            return str_eq(a, b)
        return False
    if a is None or b is None:
        return False
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return simp(a.term == b.term)
    if is_tuple(a) and is_tuple(b):
        return seq_eq(seq_of(a), seq_of(b))
    if isinstance(a, MList) and isinstance(b, MList):
        return seq_eq(a.seq, b.seq)
    if isinstance(a, (SetV, MSet)) and isinstance(b, (SetV, MSet)):
        return set_eq(as_set(a), as_set(b))
    if isinstance(a, MDict) and isinstance(b, MDict):
        return dict_eq(a, b)
    if isinstance(a, SliceV) and isinstance(b, SliceV):
        return eq((a.start, a.stop, a.step), (b.start, b.stop, b.step))
    if isinstance(a, Obj) or isinstance(b, Obj):
        o, p = (a, b) if isinstance(a, Obj) else (b, a)
        meth = o.cls.lookup('__eq__')
        if meth is not None:
            return INTERP.call(meth, [o, p], {})
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a.inp or b.inp:
                ka, kb = getattr(a, 'key', None), getattr(b, 'key', None)
                if ka is not None and kb is not None:
                    return simp(ka == kb)
                raise Unsupported('identity of symbolic objects')
            return False
        return False
    if 'Arr' in (type(a).__name__, type(b).__name__):
        return INTERP.np_binop('==', a, b)
    for x, y in ((a, b), (b, a)):
        if kind_of(x) == 'DType':           # a dtype compared with a type
            from . import lib
            try:
                return x.eq(lib.get_dtype(y))
            except Unsupported:
                break
    ta, tb = kind_of(a), kind_of(b)
    if ta != tb:
        return False
    raise Unsupported('equality of %s' % ta)


def kind_of(v):
    if isinstance(v, bool) or (isz(v) and z3.is_bool(v)):
        return 'num'
    if is_num(v):
        return 'num'
    if is_str(v):
        return 'str'
    if is_tuple(v):
        return 'tuple'
    return type(v).__name__


def is_tuple(v):
    return isinstance(v, (tuple, SeqV))


def truth_eq(a, b):
    r = eq(a, b)
    return r if isinstance(r, bool) else C.branch(r)


def seq_eq(a, b):
    if a is b:
        return True
    if isinstance(a.n, int) and isinstance(b.n, int):
        if a.n != b.n:
            return False
        r = True
        for i in range(a.n):
            e = eq(a.get(i), b.get(i))
            if e is False:
                return False
            r = band(r, e)
        return r
    if not C.branch(cmp('==', a.n, b.n)):
        return False
    return C.forall_branch(zint(a.n), lambda k: as_formula(lambda: eq(a.get(k), b.get(k))))


def as_formula(fn):
    v = fn()
    if isinstance(v, (bool, z3.BoolRef)):
        return v
    raise Unsupported('condition is not boolean: %r' % (v,))


def seq_index(seq, v):
    " a position of v in seq, or None (forks) "
    if seq.concrete:
        for i in range(seq.n):
            if truth_eq(seq.get(i), v):
                return i
        return None
    if not may_contain(seq, v):
        return None
    inv = seq.hints.get('index_of')
    if inv is not None:
        return inv(v)
    if (is_int(v) or is_str(v)) and elem_kind(seq) == ('int' if is_int(v) else 'str'):
        IN, IDX = member_op(seq)
        t = zterm(v)
        if not C.branch(IN(t)):
            return None
        i = IDX(t)
        C.assume(z3.And(i >= 0, i < zint(seq.n)))
        C.assume(as_formula(lambda: eq(seq.get(i), v)))
        return i
    w = [None]

    def yes():
        k = C.fresh('w', z3.IntSort())
        C.assume(z3.And(k >= 0, k < seq.n))
        e = eq(seq.get(k), v)
        if not isinstance(e, bool):
            C.assume(e)
        elif not e:
            raise PathEnd()
        w[0] = k

    def no():
        C.forall_fact(seq.n, lambda k: bnot(as_formula(lambda: eq(seq.get(k), v))))
    if C.fork(yes, no):
        return w[0]
    return None


def elem_kind(seq):
    " 'int' or 'str' when every element is one, else None "
    if 'kind' not in seq.hints:
        def kind(e):
            return 'int' if is_int(e) else 'str' if is_str(e) else None
        try:
            _, _, paths = C.generic(seq.n, seq.get)
            kinds, known = {kind(p.value) if p.kind == 'val' else None for p in paths}, True
        except Unsupported:
            kinds, known = set(), False
        if not kinds:
            return 'empty' if known and not seq.concrete else None
        seq.hints['kind'] = kinds.pop() if len(kinds) == 1 else None
        if seq.hints['kind'] == 'int' and len(paths) == 1 and 'index_of' not in seq.hints:
            same_intset(seq, zint(paths[0].value))
    return seq.hints['kind']


def may_contain(seq, v):
    " False when v is of another kind than the elements "
    if is_int(v) or is_str(v) or is_tuple(v) or isinstance(v, (MList, SliceV)) or v is None:
        k = elem_kind(seq)
        if k == 'empty':
            return False
        return not (k == 'int' and not is_int(v) or k == 'str' and not is_str(v))
    return True


def assume_under(cond, fn):
    " assume: cond implies fn() (with the facts met when evaluating it) "
    def thunk():
        C.assume(cond)
        return as_formula(fn)
    c = z3.simplify(cond)
    for p in C.explore(thunk):
        if p.kind == 'val':
            facts = [f for f in p.facts if not f.eq(c)]
            C.assume(z3.Implies(z3.And(cond, p.cond), z3.And(p.value, *facts)))


def same_intset(seq, t):
    " a sequence with the elements of a sequence of distinct integers: the same positions "
    for _, r in C.intsets:
        e = r.hints['elem']
        if z3.is_app(t) and t.decl().eq(e.decl()) and all(
                x.eq(y) for x, y in zip(t.children()[:-1], e.children()[:-1])) and C.decide(zint(seq.n) == zint(r.n)) is True:
            k = t.arg(t.num_args() - 1)
            if z3.is_const(k) and k.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                seq.hints.update({h: r.hints[h] for h in ('increasing', 'distinct', 'index_of', 'contains')})
                return


def format_text(template, values):
    " text of a template (without conversions) filled with the values of its fields "
    I = z3.IntSort()
    f = z3.Function('str_format%d' % len(values), *([I] * (len(values) + 2)))
    return SymStr(f(zterm(template), *[zterm(x) for x in values]))


def occurs(a, t):
    stack, seen = [t], set()
    while stack:
        e = stack.pop()
        if e.eq(a):
            return True
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            stack.append(e.body())
        stack.extend(e.children())
    return False


MEMBERS = {}


def member_name(k, dep, terms):
    " name of the membership predicate of a sequence in a scope: the same content has the same name "
    subst = [(k, z3.Int('member.k'))] + [(zint(a), z3.Int('member.arg%d' % i)) for i, a in enumerate(dep)]
    key = tuple(z3.substitute(z3.simplify(t), *subst).sexpr() for t in terms)
    if key not in MEMBERS:
        MEMBERS[key] = 'in#%d' % len(MEMBERS)
    return MEMBERS[key]


def member_op(seq):
    " (IN, IDX): v is in seq; a position of v in seq "
    for s2, res in C.members:
        if s2 is seq:
            return res
    k, rng, paths = C.generic(seq.n, seq.get)
    terms = [zint(seq.n)] + [zterm(p.value) for p in paths] + [p.cond for p in paths]
    names = set()
    for t in terms:
        names |= constants(t)
    dep = [a for a in C.idx_args() if constants(a) & names]
    # the symbols are kept from one path to another when the sequence does not depend on the indices in scope
    free, dep = not dep, [a for a in dep if any(occurs(zint(a), t) for t in terms)]
    f = seq.hints.get('member') if free else None
    if f is None:
        nm = C._name('in') if free else member_name(k, dep, terms)
        sorts = [z3.IntSort()] * (len(dep) + 1)
        f = z3.Function(nm, *sorts, z3.BoolSort()), z3.Function(nm + '.pos', *sorts, z3.IntSort())
        if free:
            seq.hints['member'] = f
    INf, IDXf = f
    IN, IDX = (lambda v: INf(*dep, zint(v))), (lambda v: IDXf(*dep, zint(v)))
    k, rng, phi, facts = C.generic_bool(seq.n, lambda k: IN(zterm(seq.get(k))))
    body = z3.And(*(facts + [phi]))
    pats = []
    for p in paths:
        t = zterm(p.value)
        if z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and str(k) in constants(t):
            if not any(t.eq(x) for x in pats):
                pats.append(t)
    C.assume(z3.ForAll([k], z3.Implies(rng, body), patterns=pats) if pats else quantify(k, rng, body))
    entry = (seq, (IN, IDX))
    C.members.append(entry)
    C.log(_DUMMY, 'memo', None, lambda: C.members.remove(entry), None)
    return IN, IDX


def constants(t):
    " names of the uninterpreted constants of a term "
    out, stack, seen = set(), [t], set()
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(str(e))
        if z3.is_quantifier(e):
            stack.append(e.body())
        stack.extend(e.children())
    return out


def seq_contains(seq, v):
    if seq.concrete:
        r = False
        for i in range(seq.n):
            r = bor(r, eq(seq.get(i), v))
        return r
    rg = seq.hints.get('range')
    if rg is not None and rg[1] == 1 and is_int(v):
        return simp(z3.And(zint(v) >= zint(rg[0]), zint(v) < zint(rg[0]) + zint(seq.n)))
    if not may_contain(seq, v):
        return False
    if 'contains' in seq.hints and is_int(v):
        return seq.hints['contains'](v)
    if (is_int(v) or is_str(v)) and 'index_of' not in seq.hints and elem_kind(seq) == ('int' if is_int(v) else 'str'):
        IN, IDX = member_op(seq)
        t = zterm(v)
        i = IDX(t)
        if C.decide(IN(t)) is None:
            assume_under(z3.And(IN(t), i >= 0, i < zint(seq.n)), lambda: eq(seq.get(i), v))
            C.assume(z3.Implies(IN(t), z3.And(i >= 0, i < zint(seq.n))))
        return IN(t)
    return seq_index(seq, v) is not None


def set_subset(a, b):
    " a <= b (sets) "
    if a.rng is not None and b.rng is not None and a.rng.step == 1 and b.rng.step == 1:
        (s, t), (u, v) = (map(zint, (a.rng.start, a.rng.stop)), map(zint, (b.rng.start, b.rng.stop)))
        return simp(z3.Or(t <= s, z3.And(u <= s, t <= v)))
    s = a.seq
    if s.concrete:
        r = True
        for e in s.list():
            r = band(r, b.contains(e))
        return r
    f = lambda k: as_formula(lambda: b.contains(s.get(k)))
    if C.prove_forall(s.n, f, 100):
        return True
    return C.forall_branch(s.n, f)


def set_eq(a, b):
    if a.rng is not None and b.rng is not None and a.rng.step == 1 and b.rng.step == 1:
        (s, t), (u, v) = (map(zint, (a.rng.start, a.rng.stop)), map(zint, (b.rng.start, b.rng.stop)))
        return simp(z3.Or(z3.And(s == u, t == v), z3.And(t <= s, v <= u)))
    x = set_subset(a, b)
    if not (x if isinstance(x, bool) else C.branch(x)):
        return False
    return set_subset(b, a)


def set_card(s):
    " cardinality; forks in 0 / 1 / more "
    if s.rng is not None:
        return s.rng.n
    q = s.seq
    if 'distinct' in q.hints:
        return q.n
    if q.concrete:
        if q.n <= 1:
            return q.n
        items = q.list()
        reps = []
        for e in items:
            if not any(truth_eq(e, r) for r in reps):
                reps.append(e)
        return len(reps)
    if C.branch(cmp('==', q.n, 0)):
        return 0
    if C.forall_branch(q.n, lambda k: as_formula(lambda: eq(q.get(k), q.get(0)))):
        return 1
    c = C.fresh('card', z3.IntSort())
    C.assume(z3.And(c >= 2, c <= q.n))
    return c


def dict_eq(a, b):
    if not C.branch(cmp('==', a.length(), b.length())):
        return False
    ka = a.keys()
    if a.sym and b.sym:
        # the same entries in the same order
        kb, va, vb = b.keys(), a.values(), b.values()
        if C.prove_forall(ka.n, lambda k: band(as_formula(lambda: eq(ka.get(k), kb.get(k))),
                                               as_formula(lambda: eq(va.get(k), vb.get(k))))):
            return True

    def one(k):
        i = b.find(ka.get(k))
        if i is None:
            return False
        return as_formula(lambda: eq(a.get_at(k), b.get_at(i)))
    if ka.concrete:
        return all(truth(one(k)) for k in range(ka.n))
    return C.forall_branch(ka.n, one)


def truth(v):
    if isinstance(v, bool):
        return v
    if v is None:
        return False
    if isz(v):
        if z3.is_bool(v):
            return C.branch(v)
        return C.branch(v != 0)
    return INTERP.truth(v)


# ---------------------------------------------------------------------------
# filters, sorting, flattening
# ---------------------------------------------------------------------------
def pred_formula(n, fn):
    " (kvar, formula, facts) of a condition fn(k) on an arbitrary index "
    k, rng, phi, facts = C.generic_bool(n, fn)
    return k, rng, phi, facts


def seq_filter(src, fn, get=None):
    """ subsequence of the k < src.n with fn(k); get(k) gives the elements """
    get = get or src.get
    n = src.n
    if isinstance(n, int):
        return seq_of([get(k) for k in range(n) if truth(fn(k))])
    k, rng, phi, facts = C.generic_bool(n, fn)
    if z3.is_true(phi) or C.valid_under(rng, phi, facts):
        for f in facts:
            C.assume(quantify(k, rng, f))
        r = SeqV(n, get)
        r.hints['sel'] = (lambda j: j, n)
        return r
    m, SEL, RANK = filter_op(n, k, rng, phi, facts)
    r = SeqV(m, lambda j: get(SEL(j)))
    r.hints['sel'] = (SEL, m)
    return r


def filter_op(n, k, rng, phi, facts):
    " (count, SEL, RANK) of the filter { k < n : phi(k) }, shared between equivalent filters "
    for f in facts:
        C.assume(quantify(k, rng, f))
    for (n2, k2, phi2, res, _) in C.filters:
        p2 = z3.substitute(phi2, (k2, k))
        if C.decide(zint(n) == zint(n2)) is True:
            if p2.eq(phi) or C.valid_under(rng, p2 == phi, []):
                return res
    m = C.fresh('m', z3.IntSort())
    SELf = C.fresh_fun('sel', [z3.IntSort()], z3.IntSort())
    RANKf = C.fresh_fun('rank', [z3.IntSort()], z3.IntSort())
    at = lambda e: z3.substitute(phi, (k, e))
    j = z3.Const(C._name('j'), z3.IntSort())
    i = z3.Const(C._name('i'), z3.IntSort())
    rj = z3.And(j >= 0, j < m)
    C.assume(z3.And(m >= 0, m <= n))
    C.assume(z3.ForAll([j], z3.Implies(rj, z3.And(SELf(j) >= 0, SELf(j) < n, at(SELf(j)), RANKf(SELf(j)) == j,
                                                  SELf(j) >= j)), patterns=[SELf(j)]))
    C.assume(z3.ForAll([k], z3.Implies(z3.And(rng, phi), z3.And(RANKf(k) >= 0, RANKf(k) < m, SELf(RANKf(k)) == k)),
                       patterns=[RANKf(k)]))
    C.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m), SELf(i) < SELf(j)),
                       patterns=[z3.MultiPattern(SELf(i), SELf(j))]))
    C.assume(z3.Implies(m == 0, z3.ForAll([k], z3.Implies(rng, z3.Not(phi)))))

    def SEL(x):
        x = zint(x)
        t = SELf(x)
        # instance for the index in use
        C.assume(z3.Implies(z3.And(x >= 0, x < m),
                            z3.And(t >= 0, t < n, at(t), RANKf(t) == x)))
        return t

    def RANK(x):
        x = zint(x)
        t = RANKf(x)
        C.assume(z3.Implies(z3.And(x >= 0, x < n, at(x)),
                            z3.And(t >= 0, t < m, SELf(t) == x)))
        return t
    C.record('filter', SELf, RANKf)
    res = (m, SEL, RANK)
    entry = (n, k, phi, res, None)
    C.filters.append(entry)
    C.log(_DUMMY, 'memo', None, lambda: C.filters.remove(entry), None)
    return res


def seq_sorted(seq, key=None, reverse=False):
    key = key or (lambda e: e)
    if reverse:
        raise Unsupported('sorted(reverse=True)')
    if seq.concrete:
        items = seq.list()
        if len(items) <= 1:
            return seq_of(items)
        if all(isinstance(e, str) for e in items) and key is None:
            return seq_of(sorted(items))
        # insertion sort, forking on the comparisons (stable)
        out = []
        for e in items:
            ke = key(e)
            i = len(out)
            while i > 0 and truth(less(ke, out[i - 1][0])):
                i -= 1
            out.insert(i, (ke, e))
        return seq_of([e for _, e in out])
    n = seq.n
    if seq.hints.get('range', (0, 0))[1] == 1 or seq.hints.get('increasing'):
        probe = key(1) if False else None
    # already sorted?
    def adj(k):
        a, b = key(seq.get(k)), key(seq.get(add(k, 1)))
        return bnot(as_formula(lambda: less(b, a)))
    if C.prove_forall(sub(n, 1), adj):
        return seq
    return sort_op(seq, key)


def less(a, b):
    if is_num(a) and is_num(b):
        return cmp('<', a, b)
    if is_str(a) and is_str(b):
        if isinstance(a, str) and isinstance(b, str):
            return a < b
        return STRLT(zterm(a), zterm(b))
    if (is_tuple(a) or isinstance(a, MList)) and (is_tuple(b) or isinstance(b, MList)):
        a, b = seq_of(a), seq_of(b)
        if a.concrete and b.concrete:
            for x, y in zip(a.list(), b.list()):
                if truth(less(x, y)):
                    return True
                if truth(less(y, x)):
                    return False
            return a.n < b.n
    raise Unsupported('ordering of %s and %s' % (kind_of(a), kind_of(b)))


STRLT = z3.Function('str_lt', z3.IntSort(), z3.IntSort(), z3.BoolSort())


def sort_op(seq, key):
    n = seq.n
    for (s2, key2, res) in C.sorts:
        if s2 is seq and key2 is key:
            return res
        if C.decide(zint(n) == zint(s2.n)) is True and C.prove_forall(
                n, lambda k: as_formula(lambda: eq(key(seq.get(k)), key2(s2.get(k))))):
            PERM, INV = res
            break
    else:
        PERMf = C.fresh_fun('perm', [z3.IntSort()], z3.IntSort())
        INVf = C.fresh_fun('inv', [z3.IntSort()], z3.IntSort())
        j = z3.Const(C._name('j'), z3.IntSort())
        rj = z3.And(j >= 0, j < n)
        C.assume(z3.ForAll([j], z3.Implies(rj, z3.And(PERMf(j) >= 0, PERMf(j) < n, INVf(PERMf(j)) == j)),
                           patterns=[PERMf(j)]))
        C.assume(z3.ForAll([j], z3.Implies(rj, z3.And(INVf(j) >= 0, INVf(j) < n, PERMf(INVf(j)) == j)),
                           patterns=[INVf(j)]))

        def PERM(x):
            t = PERMf(zint(x))
            C.assume(z3.Implies(z3.And(zint(x) >= 0, zint(x) < n), z3.And(t >= 0, t < n, INVf(t) == zint(x))))
            return t

        def INV(x):
            t = INVf(zint(x))
            C.assume(z3.Implies(z3.And(zint(x) >= 0, zint(x) < n), z3.And(t >= 0, t < n, PERMf(t) == zint(x))))
            return t
        res = (PERM, INV)
        # ordering of neighbours and of any pair
        C.forall_fact(sub(n, 1), lambda k: bnot(as_formula(
            lambda: less(key(seq.get(PERM(add(k, 1)))), key(seq.get(PERM(k)))))))
        C.forall_fact(n, lambda a: C.forall_formula(n, lambda b: z3.Implies(
            z3.And(zint(a) < zint(b)), bnot(as_formula(lambda: less(key(seq.get(PERM(b))), key(seq.get(PERM(a)))))))))
        entry = (seq, key, res)
        C.sorts.append(entry)
        C.log(_DUMMY, 'memo', None, lambda: C.sorts.remove(entry), None)
    PERM, INV = res
    r = SeqV(n, lambda k: seq.get(PERM(k)))
    r.hints['perm'] = (PERM, INV, seq)
    return r


def seq_flatten(outer):
    " concatenation of the sequences outer[k] "
    if outer.concrete:
        return seq_concat(*[seq_of(s) for s in outer.list()])
    n = outer.n
    inner_n = lambda k: seq_len(outer.get(k))
    # all inner lengths equal to 1?
    if C.prove_forall(n, lambda k: cmp('==', inner_n(k), 1)):
        return SeqV(n, lambda k: seq_of(outer.get(k)).get(0))
    # a first piece of any length, then pieces of length 1?
    if C.split_first and C.decide(zint(n) >= 1) is True and C.prove_forall(sub(n, 1), lambda k: cmp('==', inner_n(add(k, 1)), 1)):
        return seq_concat(seq_of(outer.get(0)), SeqV(sub(n, 1), lambda k: seq_of(outer.get(add(k, 1))).get(0)))
    TOT, OUT, INN, POS = flatten_op(n, inner_n)
    r = SeqV(TOT, lambda p: seq_of(outer.get(OUT(p))).get(INN(p)))
    r.hints['flat'] = (outer, OUT, INN, POS)
    return r


def seq_len(s):
    s = s.seq if isinstance(s, (RangeV, MList)) else s
    if isinstance(s, tuple):
        return len(s)
    return s.n


def flatten_op(n, inner_n):
    for (n2, inner2, res) in C.flats:
        if C.decide(zint(n) == zint(n2)) is True and C.prove_forall(
                n, lambda k: cmp('==', inner_n(k), inner2(k))):
            return res
    I = z3.IntSort()
    TOT = C.fresh('tot', I)
    OUTf, INNf = C.fresh_fun('out', [I], I), C.fresh_fun('inn', [I], I)
    POSf = C.fresh_fun('pos', [I, I], I)
    LENf = C.fresh_fun('ilen', [I], I)
    C.assume(TOT >= 0)
    C.forall_fact(n, lambda k: z3.And(LENf(k) == zint(inner_n(k)), LENf(k) >= 0))
    p, q, k, j = [z3.Const(C._name(x), I) for x in 'pqkj']
    rp = z3.And(p >= 0, p < TOT)
    C.assume(z3.ForAll([p], z3.Implies(rp, z3.And(OUTf(p) >= 0, OUTf(p) < n, INNf(p) >= 0, INNf(p) < LENf(OUTf(p)),
                                                  POSf(OUTf(p), INNf(p)) == p)), patterns=[OUTf(p)]))
    C.assume(z3.ForAll([k, j], z3.Implies(z3.And(k >= 0, k < n, j >= 0, j < LENf(k)),
                                          z3.And(POSf(k, j) >= 0, POSf(k, j) < TOT, OUTf(POSf(k, j)) == k,
                                                 INNf(POSf(k, j)) == j)), patterns=[POSf(k, j)]))
    C.assume(z3.ForAll([p, q], z3.Implies(z3.And(p >= 0, p < q, q < TOT),
                                          z3.Or(OUTf(p) < OUTf(q), z3.And(OUTf(p) == OUTf(q), INNf(p) < INNf(q)))),
                       patterns=[z3.MultiPattern(OUTf(p), OUTf(q))]))
    # the length is positive as soon as one piece is not empty
    C.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n, LENf(k) > 0), TOT > 0), patterns=[LENf(k)]))

    def OUT(x):
        x = zint(x)
        t, i = OUTf(x), INNf(x)
        C.assume(z3.Implies(z3.And(x >= 0, x < TOT), z3.And(t >= 0, t < n, i >= 0, i < LENf(t), POSf(t, i) == x)))
        return t

    def INN(x):
        OUT(x)
        return INNf(zint(x))

    def POS(a, b):
        a, b = zint(a), zint(b)
        t = POSf(a, b)
        C.assume(z3.Implies(z3.And(a >= 0, a < n, b >= 0, b < LENf(a)),
                            z3.And(t >= 0, t < TOT, OUTf(t) == a, INNf(t) == b)))
        return t
    C.record('flat', OUTf, POSf)
    res = (TOT, OUT, INN, POS)
    entry = (n, inner_n, res)
    C.flats.append(entry)
    C.log(_DUMMY, 'memo', None, lambda: C.flats.remove(entry), None)
    return res


def sorted_ints(seq):
    """ strictly increasing sequence of the values of a sequence of integers: sorted(set(seq))

    elements E(0) < E(1) < ... < E(m - 1); POS: position of a value
    """
    if seq.concrete or 'increasing' in seq.hints or seq.hints.get('range', (0, 0))[1] == 1:
        return sorted_distinct(seq)
    for s2, r in C.intsets:
        if s2 is seq:
            return r
    I = z3.IntSort()
    n = zint(seq.n)
    IN, IDX = member_op(seq)
    m = C.fresh('ns', I)
    E = C.fresh_fun('elem', [I], I)
    POS = C.fresh_fun('pos', [I], I)
    C.assume(z3.And(m >= 0, m <= n, z3.Implies(n > 0, m > 0)))
    i, j = z3.Const(C._name('i'), I), z3.Const(C._name('j'), I)
    rj = z3.And(j >= 0, j < m)
    C.assume(z3.ForAll([j], z3.Implies(rj, z3.And(IN(E(j)), POS(E(j)) == j)), patterns=[E(j)]))
    C.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m), E(i) < E(j)),
                       patterns=[z3.MultiPattern(E(i), E(j))]))
    C.assume(z3.ForAll([j], z3.Implies(IN(j), z3.And(POS(j) >= 0, POS(j) < m, E(POS(j)) == j)), patterns=[IN(j)]))
    C.assume(z3.ForAll([j], z3.Implies(rj, z3.And(IDX(E(j)) >= 0, IDX(E(j)) < n)), patterns=[E(j)]))

    def origin(k):
        C.assume(z3.And(IDX(E(k)) >= 0, IDX(E(k)) < n))
        return eq(seq.get(IDX(E(k))), E(k))
    C.forall_fact(m, origin)

    def pos(v):
        t = POS(v)
        C.assume(z3.Implies(IN(v), z3.And(t >= 0, t < m, E(t) == v)))
        return t

    def get(k):
        k = zint(k)
        C.assume(z3.Implies(z3.And(k >= 0, k < m), z3.And(IN(E(k)), POS(E(k)) == k)))
        return E(k)

    def index_of(v):
        if not is_int(v):
            raise Unsupported('position of a %s in a sequence of integers' % kind_of(v))
        v = zint(v)
        return pos(v) if C.branch(IN(v)) else None
    r = SeqV(m, get)
    r.hints.update(increasing=True, distinct=True, index_of=index_of, contains=lambda v: IN(zint(v)), kind='int',
                   elem=E(i), intset=(seq, IN, IDX, pos))
    entry = (seq, r)
    C.intsets.append(entry)
    C.log(_DUMMY, 'memo', None, lambda: C.intsets.remove(entry), None)
    return r


def sorted_distinct(seq):
    """ strictly increasing sequence of the values of a sequence of numbers

    (np.unique, sorted(set(...)))
    """
    if seq.concrete:
        items = seq.list()
        reps = []
        for e in items:
            if not any(truth_eq(e, r) for r in reps):
                reps.append(e)
        r = seq_sorted(seq_of(reps))
        r.hints['distinct'] = True
        return r
    if 'increasing' in seq.hints or seq.hints.get('range', (0, 0))[1] == 1:
        return seq
    n = seq.n
    src = seq
    # strictly increasing already?
    if C.prove_forall(sub(n, 1), lambda k: as_formula(lambda: less(seq.get(k), seq.get(add(k, 1))))):
        r = SeqV(n, seq.get)
        r.hints.update(increasing=True, distinct=True)
        return r
    for (s2, res) in C.uniqs:
        if s2 is src:
            return res
        if C.decide(zint(n) == zint(s2.n)) is True and C.prove_forall(
                n, lambda k: as_formula(lambda: eq(src.get(k), s2.get(k)))):
            return res
    I = z3.IntSort()
    m = C.fresh('nu', I)
    SRC = C.fresh_fun('usrc', [I], I)      # result index -> source index
    DST = C.fresh_fun('udst', [I], I)      # source index -> result index
    C.assume(z3.And(m >= 0, m <= n, z3.Implies(n > 0, m > 0)))
    j = z3.Const(C._name('j'), I)
    C.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), z3.And(SRC(j) >= 0, SRC(j) < n, DST(SRC(j)) == j)),
                       patterns=[SRC(j)]))
    C.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(DST(j) >= 0, DST(j) < m)),
                       patterns=[DST(j)]))

    def SRCi(x):
        x = zint(x)
        t = SRC(x)
        C.assume(z3.Implies(z3.And(x >= 0, x < m), z3.And(t >= 0, t < n, DST(t) == x)))
        return t

    def DSTi(x):
        x = zint(x)
        t = DST(x)
        C.assume(z3.Implies(z3.And(x >= 0, x < n), z3.And(t >= 0, t < m)))
        return t
    C.forall_fact(n, lambda k: as_formula(lambda: eq(src.get(k), src.get(SRCi(DSTi(k))))))
    C.forall_fact(m, lambda a: C.forall_formula(m, lambda b: z3.Implies(
        zint(a) < zint(b), as_formula(lambda: less(src.get(SRCi(a)), src.get(SRCi(b)))))))
    res = SeqV(m, lambda k: src.get(SRCi(k)))

    def index_of(v):
        i = seq_index(src, v)
        return None if i is None else DSTi(i)
    res.hints.update(increasing=True, distinct=True, uniq=(src, SRCi, DSTi), index_of=index_of)
    entry = (src, res)
    C.uniqs.append(entry)
    C.log(_DUMMY, 'memo', None, lambda: C.uniqs.remove(entry), None)
    return res


# ---------------------------------------------------------------------------
# context extensions
# ---------------------------------------------------------------------------
def _forall_formula(self, n, fn):
    " the formula: fn(k) for all 0 <= k < n (facts included) "
    k, rng, phi, facts = self.generic_bool(n, fn)
    body = z3.And(*(facts + [phi])) if facts else phi
    if z3.is_true(body):
        return z3.BoolVal(True)
    return quantify(k, rng, body)


def _prove_forall(self, n, fn, timeout=1500):
    """ quiet attempt to prove fn(k) for all 0 <= k < n (on the current path) """
    if isinstance(n, int):
        if n <= 0:
            return True
    k = z3.Const(self._name('k'), z3.IntSort())
    nm = str(k)
    args = self.idx_args() + [k]
    ok = [True]
    n = zint(n)

    def thunk():
        self.assume(z3.And(k >= 0, k < n))

        def body():
            v = fn(k)
            if v is True:
                return
            if v is False:
                v = z3.BoolVal(False)
            if not self.valid(v, timeout):
                ok[0] = False
                raise PathEnd()
        self.in_scope(nm, args, body)
    try:
        paths = self.explore(thunk)
    except Unsupported:
        return False
    return ok[0] and not any(p.kind == 'raise' for p in paths)


def _valid_under(self, rng, phi, facts, timeout=800):
    if z3.is_true(phi):
        return True
    s = self.full
    s.push()
    try:
        s.add(rng, z3.Not(phi), *facts)
        s.set('timeout', timeout)
        return s.check() == z3.unsat
    finally:
        s.set('timeout', self.QTIMEOUT)
        s.pop()


def _effect_mode(self, obj):
    return bool(self.effect_stack) and obj.birth <= self.effect_stack[-1][0]


def _log_effect(self, obj, kind, data):
    self.effect_stack[-1][1].append((obj, kind, data))


type(C).forall_formula = _forall_formula
type(C).prove_forall = _prove_forall
type(C).valid_under = _valid_under
type(C).effect_mode = _effect_mode
type(C).log_effect = _log_effect
C.read_limit = None
C.poison = set()
C.filters, C.sorts, C.flats, C.uniqs, C.members, C.intsets, C.effect_stack = [], [], [], [], [], [], []
C.orders, C.records, C.regexes = [], [], []

INTERP = None      # set by interp.py
EXC = {}


def saturate(ctx):
    from . import arrays
    arrays.saturate(ctx)
