""" pyvc arrays: numpy / dask arrays of symbolic shape (element functions), elementwise
operations, indexing, views, reductions. """
from fractions import Fraction
import math
import z3

from . import values as V
from . import interp as I
from .values import (
    C, Unsupported, PathEnd, PyRaise, py_raise, XNum, SeqV, MList, SliceV, SetV, MSet, RangeV, Mutable, Obj,
    SymStr, seq_of, isz, is_int, is_num, is_bool, is_real, is_x, add, sub, mul, div, cmp, ite, band, bor, bnot,
    simp, zint, zreal, zbool, truth, conc, xnum,
)

INT = z3.IntSort()
REAL = z3.RealSort()


def dim_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return C.decide(zint(a) == zint(b)) is True


class DType:
    def __init__(self, kind, itemsize=8, name=None):
        self.kind, self.itemsize, self.name = kind, itemsize, name or kind

    def get_attr(self, interp, name):
        if name == 'itemsize':
            return self.itemsize
        if name == 'type':
            return self
        raise Unsupported('dtype.%s' % name)

    def eq(self, o):
        return isinstance(o, DType) and o.name == self.name

    def iter_seq(self):
        py_raise('TypeError')

    def __repr__(self):
        return 'dtype(%s)' % self.name


F8, I8, B1, C16, OBJ = (DType('float'), DType('int'), DType('bool', 1), DType('complex', 16), DType('object'))
RANK = {'bool': 0, 'int': 1, 'float': 2, 'complex': 3, 'object': 4}


def promote(*ds):
    d = max(ds, key=lambda d: RANK[d.kind])
    return d


def dtype_of_value(v):
    if is_bool(v):
        return B1
    if is_int(v):
        return I8
    if is_x(v):
        v = xnum(v)
        return F8 if conc(v.im) and v.im == 0 else C16
    if is_real(v):
        return F8
    return OBJ


def cast(v, d):
    if d.kind == 'float':
        if is_x(v):
            v = xnum(v)
            return V.xmk(v.re, 0, v.nan)
        if isinstance(v, float):
            return v if V.isinf(v) else V.exact(v)
        if isz(v) and z3.is_real(v):
            return v
        if isinstance(v, (int, Fraction)) and not isinstance(v, bool):
            return Fraction(v)
        if is_num(v):
            return simp(zreal(v))
        return v
    if d.kind == 'int':
        if is_int(v):
            return v
        if is_bool(v):
            return zint(v) if isz(v) else int(v)
        if is_real(v):
            if conc(v):
                return int(v)
            x = zreal(v)
            return simp(z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)))
        return v
    if d.kind == 'bool':
        if is_bool(v):
            return v
        if is_num(v):
            return cmp('!=', v, 0)
    return v


class Arr(Mutable):
    " array; element function on full index tuples "
    np_cmp = True

    def __init__(self, shape, fn, dtype=F8, scoped=False, base=None, vmap=None, vinv=None, name=None):
        super().__init__()
        self.shape = tuple(simp(s) for s in shape)
        self.dtype = dtype
        self.base, self.vmap, self.vinv = base, vmap, vinv
        self.hints = {}
        if scoped:
            fn = self.scoped(fn)
        self._fn = fn

    def scoped(self, fn):
        uid = C.uid()
        args = C.idx_args()
        limit = C.read_limit if C.read_limit is not None else C.clock

        def get(*idx):
            key = (uid,) + tuple(i if isinstance(i, int) else i.get_id() for i in idx) \
                + tuple(a.get_id() for a in args)
            hit = C.memo.get(key)
            if hit is not None:
                return hit[0]
            v = C.in_scope(uid, args + [zint(i) for i in idx], lambda: fn(*idx))
            C.memo[key] = (v, idx)
            C.log(V._DUMMY, 'memo', None, lambda: C.memo.pop(key, None), None)
            return v
        return get

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def fn(self):
        " immutable element function (snapshot of the content) "
        if self.base is not None:
            b, m = self.base.fn, self.vmap
            return lambda *i: b(*m(*i))
        self.read()
        return self._fn

    def get(self, *idx):
        return self.fn(*[simp(i) for i in idx])

    def __repr__(self):
        return 'Arr%s' % (self.shape,)

    # -- sequences
    def length(self):
        if not self.shape:
            py_raise('TypeError', 'len() of unsized object')
        return self.shape[0]

    def iter_seq(self):
        if not self.shape:
            py_raise('TypeError', 'iteration over a 0-d array')
        fn, rest = self.fn, self.shape[1:]
        n = self.shape[0]
        if not rest:
            r = SeqV(n, lambda k: fn(k))
        else:
            r = SeqV(n, lambda k: Arr(rest, lambda *i: fn(k, *i), self.dtype))
        for h in ('increasing', 'distinct', 'range', 'index_of'):
            if h in self.hints:
                r.hints[h] = self.hints[h]
        return r

    def truth(self):
        if all(isinstance(s, int) and s == 1 for s in self.shape):
            return truth(self.get(*([0] * self.ndim)))
        if self.shape == (0,):
            return False
        raise Unsupported('truth of an array')

    def contains(self, v):
        if self.ndim != 1:
            raise Unsupported('membership in an nd array')
        return V.seq_contains(self.iter_seq(), v)

    def item_scalar(self):
        if all(isinstance(s, int) and s == 1 for s in self.shape):
            return self.get(*([0] * self.ndim))
        py_raise('TypeError', 'only length-1 arrays can be converted')

    # -- writes
    def write(self, inside, value, kind='write'):
        " element idx becomes value(idx) where inside(idx) "
        if self.base is not None:
            m = self.vinv

            def ins(*bi):
                c, idx = m(*bi)
                return band(c, inside(*idx))

            def val(*bi):
                c, idx = m(*bi)
                return value(*idx)
            self.base.write(ins, val, kind)
            return
        self.read()
        old = self._fn

        def fn(*idx):
            c = inside(*idx)
            if c is True:
                return value(*idx)
            if c is False:
                return old(*idx)
            a = value(*idx)
            b = old(*idx)
            if b is UNINIT:
                return a if C.branch(c) else b
            return ite(c, a, b)
        self._fn = fn

        def undo():
            self._fn = old
        self.changed(kind, None, undo)

    def inplace(self, op, b):
        r = np_binop(op, self, b)
        fn = r.fn
        if len(r.shape) != self.ndim:
            raise Unsupported('in place broadcasting')
        if RANK[r.dtype.kind] > RANK[self.dtype.kind]:
            if self.dtype.kind == 'int' or (self.dtype.kind == 'float' and r.dtype.kind == 'complex'):
                py_raise('TypeError', 'cannot cast')
        d = self.dtype
        self.write(lambda *i: True, lambda *i: cast(fn(*i), d), 'inplace')
        return self

    def unary(self, op):
        if op == 'neg':
            return umap(V.neg, self)
        return umap(lambda v: bnot(zb(v)), self, B1)

    def getitem(self, index):
        return arr_getitem(self, index)

    def setitem(self, index, v):
        arr_setitem(self, index, v)

    def bulk_set(self, seq):
        raise Unsupported('array items set in a symbolic loop')


class _Uninit:
    def __repr__(self):
        return 'UNINIT'


UNINIT = _Uninit()


def zb(v):
    if is_bool(v):
        return v
    raise Unsupported('boolean array expected')


def seq_arr(seq, dtype=None):
    " 1d array of the elements of a sequence of numbers "
    seq = seq_of(seq)
    if dtype is None:
        dtype = F8
        if seq.concrete:
            items = seq.list()
            dtype = promote(*[dtype_of_value(v) for v in items]) if items else F8
        elif 'dtype' in seq.hints:
            dtype = seq.hints['dtype']
        else:
            dtype = probe_dtype(seq.n, seq.get)
    d = dtype
    a = Arr((seq.n,), lambda k: cast(seq.get(k), d), d)
    for h in ('increasing', 'distinct', 'range', 'index_of'):
        if h in seq.hints:
            a.hints[h] = seq.hints[h]
    return a


def probe_dtype(n, fn):
    k, rng, paths = C.generic(n, fn)
    ds = [dtype_of_value(p.value) for p in paths if p.kind == 'val']
    if not ds:
        return F8
    return promote(*ds)


def probe_kind(n, fn):
    " what fn gives on an arbitrary index: value of one path (for its type) "
    k, rng, paths = C.generic(n, fn)
    vals = [p.value for p in paths if p.kind == 'val']
    return vals


def asarray(x, dtype=None):
    if isinstance(x, Arr):
        if dtype is None or dtype.kind == x.dtype.kind:
            return x
        fn = x.fn
        return Arr(x.shape, lambda *i: cast(fn(*i), dtype), dtype)
    if is_num(x):
        return Arr((), lambda: cast(x, dtype) if dtype else x, dtype or dtype_of_value(x))
    if isinstance(x, RangeV):
        x = x.seq
    if isinstance(x, Obj) and x.cls.lookup('__array__') is not None:
        return asarray(I.the().call(x.cls.lookup('__array__'), [x], {}), dtype)
    if isinstance(x, (MList, tuple, list, SeqV)) or hasattr(x, 'iter_seq') or isinstance(x, Obj):
        s = I.the().iter_seq(x)
        if s.concrete:
            items = s.list()
            if not items:
                return Arr((0,), lambda k: Fraction(0), dtype or F8)
            if all(is_num(e) for e in items):
                return seq_arr(s, dtype)
            if any(V.is_str(e) or e is None for e in items):
                return Arr((len(items),), lambda k: s.get(k), OBJ)
            rows = [asarray(e, dtype) for e in items]
            return stack(rows, dtype)
        vals = probe_kind(s.n, s.get)
        if not vals:
            return Arr((s.n,), lambda k: s.get(k), dtype or F8)
        if all(is_num(v) for v in vals):
            return seq_arr(s, dtype)
        # rows
        d = None
        nd = None
        for v in vals:
            r = asarray(v, dtype)
            nd = r.ndim
            d = r.dtype if d is None else promote(d, r.dtype)
        # all rows must have the same shape
        if C.branch(cmp('==', s.n, 0)):
            return Arr((0,), lambda k: Fraction(0), dtype or F8)
        row0 = asarray(s.get(0), dtype)
        for ax in range(nd):
            if not C.forall_branch(s.n, lambda k: cmp('==', asarray(s.get(k), dtype).shape[ax], row0.shape[ax])):
                py_raise('ValueError', 'inhomogeneous shape')
        dd = d

        def fn(k, *i):
            return cast(asarray(s.get(k), dtype).fn(*i), dd)
        return Arr((s.n,) + row0.shape, fn, d)
    if x is None:
        return Arr((), lambda: None, OBJ)
    if hasattr(x, 'to_array'):
        return x.to_array()
    raise Unsupported('array of %s' % type(x).__name__)


def stack(rows, dtype=None):
    r0 = rows[0]
    for r in rows[1:]:
        if r.ndim != r0.ndim:
            py_raise('ValueError', 'inhomogeneous shape')
        for a, b in zip(r.shape, r0.shape):
            if not truth(cmp('==', a, b)):
                py_raise('ValueError', 'inhomogeneous shape')
    d = dtype or promote(*[r.dtype for r in rows])
    fns = [r.fn for r in rows]

    def fn(k, *i):
        if isinstance(k, int):
            return cast(fns[k](*i), d)
        j = C.select([zint(k) == t for t in range(len(fns))])
        return cast(fns[j](*i), d)
    return Arr((len(rows),) + r0.shape, fn, d)


def copy(a, dtype=None):
    a = asarray(a)
    fn = a.fn
    d = dtype or a.dtype
    r = Arr(a.shape, (lambda *i: cast(fn(*i), d)) if d is not a.dtype else fn, d)
    r.hints.update(a.hints)
    return r


# ---------------------------------------------------------------------------
# elementwise
# ---------------------------------------------------------------------------
def broadcast(*shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for ax in range(nd):
        dims = [s[len(s) - nd + ax] for s in shapes if len(s) - nd + ax >= 0]
        d = 1
        for x in dims:
            if isinstance(x, int) and x == 1:
                continue
            if isinstance(d, int) and d == 1:
                d = x
                continue
            if dim_eq(d, x):
                if isinstance(x, int):
                    d = x
                continue
            if C.branch(zint(d) == zint(x)):
                continue
            if C.branch(z3.Or(zint(d) == 1, zint(x) == 1)):
                raise Unsupported('broadcasting of a symbolic dimension')
            py_raise('ValueError', 'operands could not be broadcast together')
        out.append(d)
    return tuple(out)


def bget(a, nd):
    " element function of a seen through broadcasting to nd dimensions "
    fn = a.fn
    off = nd - a.ndim
    ones = [isinstance(s, int) and s == 1 for s in a.shape]

    def get(*i):
        return fn(*[0 if ones[k] else i[off + k] for k in range(a.ndim)])
    return get


def emap(f, dtype, *arrs):
    arrs = [asarray(a) for a in arrs]
    shape = broadcast(*[a.shape for a in arrs])
    nd = len(shape)
    gets = [bget(a, nd) for a in arrs]
    if nd == 0:
        return f(*[g() for g in gets])
    return Arr(shape, lambda *i: f(*[g(*i) for g in gets]), dtype)


def umap(f, a, dtype=None):
    a = asarray(a)
    return emap(f, dtype or a.dtype, a)


def np_div(a, b):
    " numpy division: division by zero gives inf / nan "
    if conc(b) and b == 0 or not conc(b):
        bz = cmp('==', b, 0)
        if truth(bz):
            if is_x(a):
                raise Unsupported('complex division by zero')
            if truth(cmp('==', a, 0)):
                return V.NAN
            return V.INF if truth(cmp('>', a, 0)) else -V.INF
    return div(a, b, False)


def np_binop(op, a, b):
    for x in (a, b):
        if isinstance(x, Obj) and x.cls.lookup('__array__') is None:
            # an object with reflected operators
            interp = I.the()
            y = b if x is a else a
            name = I.OPNAMES.get(op)
            m = x.cls.lookup('__%s%s__' % ('' if x is a else 'r', name)) if name else None
            if m is None:
                raise Unsupported('array %s object' % op)
            return interp.call(m, [x, y], {})
        if x is None or V.is_str(x):
            if op == '==':
                return False
            if op == '!=':
                return True
            py_raise('TypeError')
    A, B = asarray(a), asarray(b)
    pd = promote(A.dtype, B.dtype)
    if op in ('==', '!=', '<', '<=', '>', '>='):
        return emap(lambda x, y: cmp(op, x, y), B1, A, B)
    if op in ('|', '&', '^'):
        if pd.kind == 'bool':
            f = {'|': bor, '&': band}.get(op)
            if f is None:
                raise Unsupported('xor')
            return emap(f, B1, A, B)
        raise Unsupported('bitwise operation on numbers')
    if op == '/':
        d = pd if RANK[pd.kind] >= 2 else F8
        return emap(np_div, d, A, B)
    if op == '**':
        d = pd
        return emap(V.power, d, A, B)
    f = {'+': add, '-': sub, '*': mul, '//': V.floordiv, '%': V.mod}.get(op)
    if f is None:
        if op == '@':
            return dot(A, B)
        raise Unsupported('array operator %s' % op)
    if op == '+' and pd.kind == 'bool':
        return emap(bor, B1, A, B)
    d = pd
    return emap(lambda x, y: cast(f(x, y), d) if d.kind == 'float' else f(x, y), d, A, B)


# ---------------------------------------------------------------------------
# indexing
# ---------------------------------------------------------------------------
def norm_index(a, index):
    index = list(index) if isinstance(index, tuple) else [index]
    if isinstance(index, list) and len(index) == 1 and isinstance(index[0], SeqV):
        index = index[0].list()
    n_used = sum(1 for i in index if i is not None and i is not Ellipsis
                 and not (isinstance(i, Arr) and i.dtype.kind == 'bool' and i.ndim > 1))
    if Ellipsis in [i for i in index if i is Ellipsis]:
        p = next(j for j, i in enumerate(index) if i is Ellipsis)
        index[p:p + 1] = [SliceV(None, None, None)] * (a.ndim - n_used)
    else:
        index += [SliceV(None, None, None)] * (a.ndim - n_used)
    if sum(1 for i in index if i is not None) > a.ndim:
        py_raise('IndexError', 'too many indices for array')
    return index


def fancy(i):
    " index array as (Arr) or None "
    if isinstance(i, Arr):
        return i if i.ndim else None
    if isinstance(i, (MList, SeqV)) or isinstance(i, (list, tuple)):
        return asarray(i)
    if isinstance(i, RangeV):
        return asarray(i)
    if isinstance(i, Obj):
        return asarray(i)
    return None


def mask_to_index(m):
    " positions of the true elements of a 1d boolean array, as a SeqV "
    fn = m.fn
    n = m.shape[0]
    src = SeqV(n, lambda k: k)
    r = V.seq_filter(src, lambda k: zb(fn(k)))
    r.hints['increasing'] = True
    r.hints['distinct'] = True
    return r


def arr_getitem(a, index):
    if isinstance(index, Arr) and index.ndim == 0 and index.dtype.kind != 'bool':
        index = index.get()
    idx = norm_index(a, index)
    # boolean scalars are not supported
    maps, invs, shape = [], [], []
    ax = 0
    simple = True
    fancies = []
    plan = []
    for i in idx:
        if i is None:
            plan.append(('new',))
            continue
        n = a.shape[ax]
        f = fancy(i)
        if isinstance(i, SliceV):
            start, stop, step = i.indices(n)
            plan.append(('slice', ax, start, range_n(start, stop, step), step))
        elif f is not None:
            if f.dtype.kind == 'bool':
                if f.ndim != 1:
                    raise Unsupported('nd mask')
                if not truth(cmp('==', f.shape[0], n)):
                    py_raise('IndexError', 'boolean index did not match')
                sel = mask_to_index(f)
                plan.append(('fancy', ax, seq_arr(sel, I8), sel))
            else:
                if f.dtype.kind == 'float':
                    if not (len(f.shape) == 1 and dim_eq(f.shape[0], 0)
                            and isinstance(i, (MList, SeqV, tuple, list))):
                        py_raise('IndexError', 'arrays used as indices must be of integer type')
                ff = f.fn
                # bounds
                if f.ndim == 1:
                    m = f.shape[0]
                    ok = C.forall_branch(m if isinstance(m, int) else zint(m), lambda k: simp(z3.And(
                        zint(ff(k)) < zint(n), zint(ff(k)) >= -zint(n))))
                else:
                    raise Unsupported('nd index array')
                if not ok:
                    py_raise('IndexError', 'index out of bounds')
                plan.append(('fancy', ax, wrap_neg(f, n), None))
            simple = False
        else:
            if isinstance(i, Arr):
                i = i.get()
            if is_bool(i):
                raise Unsupported('boolean scalar index')
            if not is_int(i):
                py_raise('IndexError', 'only integers are valid indices')
            plan.append(('int', ax, V.index_bounds(i, n)))
        ax += 1
    nf = sum(1 for p in plan if p[0] == 'fancy')
    if nf > 1:
        raise Unsupported('several index arrays')
    for p in plan:
        if p[0] == 'new':
            shape.append(1)
        elif p[0] == 'slice':
            shape.append(p[3])
        elif p[0] == 'fancy':
            shape.extend(p[2].shape)
    if not shape and not any(p[0] == 'new' for p in plan):
        return a.get(*[p[2] for p in plan])

    def vmap(*o):
        res = []
        k = 0
        for p in plan:
            if p[0] == 'new':
                k += 1
            elif p[0] == 'slice':
                res.append(simp(add(p[2], mul(o[k], p[4]))))
                k += 1
            elif p[0] == 'int':
                res.append(p[2])
            else:
                res.append(p[2].fn(o[k]))
                k += 1
        return res
    if simple:
        def vinv(*bi):
            c = True
            o = []
            for p in plan:
                if p[0] == 'new':
                    o.append(0)
                elif p[0] == 'int':
                    c = band(c, cmp('==', bi[p[1]], p[2]))
                else:
                    _, ax, start, n, step = p
                    d = sub(bi[ax], start)
                    if step == 1:
                        c = band(c, band(cmp('>=', d, 0), cmp('<', d, n)))
                        o.append(d)
                    else:
                        q = V.floordiv(d, step)
                        c = band(c, band(cmp('==', mul(q, step), d), band(cmp('>=', q, 0), cmp('<', q, n))))
                        o.append(q)
            return c, o
        r = Arr(shape, None, a.dtype, base=a, vmap=vmap, vinv=vinv)
    else:
        fn = a.fn
        r = Arr(shape, lambda *o: fn(*vmap(*o)), a.dtype)
        sel = next((p[3] for p in plan if p[0] == 'fancy'), None)
        if sel is not None:
            r.hints['sel'] = sel
            if a.hints.get('increasing') and a.ndim == 1:
                r.hints['increasing'] = True
    if a.ndim == 1 and len(plan) == 1 and plan[0][0] == 'slice':
        if a.hints.get('range') and isinstance(plan[0][4], int):
            s, st = a.hints['range']
            r.hints['range'] = (add(s, mul(plan[0][2], st)), st * plan[0][4])
        if (a.hints.get('distinct')):
            r.hints['distinct'] = True
    return r


def range_n(start, stop, step):
    return V.range_len(start, stop, step)


def wrap_neg(f, n):
    fn = f.fn

    def g(k):
        v = fn(k)
        if isinstance(v, int) and v >= 0:
            return v
        if isinstance(v, int) and isinstance(n, int):
            return v % n if n else v
        if C.decide(zint(v) >= 0) is True:
            return v
        return ite(cmp('<', v, 0), add(v, n), v)
    r = Arr(f.shape, g, I8)
    r.hints.update({k: v for k, v in f.hints.items() if k in ('increasing', 'distinct')})
    return r


def arr_setitem(a, index, v):
    if C.effect_mode(a):
        raise Unsupported('array item assignment in a symbolic loop')
    if isinstance(index, Arr) and index.dtype.kind == 'bool' and index.ndim == a.ndim and a.ndim > 1:
        m = index.fn
        if not is_num(v):
            raise Unsupported('masked assignment')
        a.write(lambda *i: zb(m(*i)), lambda *i: cast(v, a.dtype))
        return
    idx = norm_index(a, index)
    if any(fancy(i) is not None for i in idx if i is not None and not isinstance(i, SliceV)):
        if a.ndim != 1 or len(idx) != 1:
            raise Unsupported('assignment with an index array in %dd' % a.ndim)
        f = fancy(idx[0])
        n = a.shape[0]
        if f.dtype.kind == 'bool':
            m = f.fn
            if is_num(v):
                a.write(lambda i: zb(m(i)), lambda i: cast(v, a.dtype))
                return
            src = asarray(v)
            sel = mask_to_index(f)
            raise Unsupported('masked assignment of an array')
        m = f.shape[0]
        if f.dtype.kind == 'float' and not dim_eq(m, 0):
            if not (isinstance(m, int) and m == 0):
                py_raise('IndexError', 'arrays used as indices must be of integer type')
        if dim_eq(m, 0):
            return
        ff = wrap_neg(f, n).fn
        if not C.forall_branch(m if isinstance(m, int) else zint(m), lambda k: simp(z3.And(
                zint(f.fn(k)) < zint(n), zint(f.fn(k)) >= -zint(n)))):
            py_raise('IndexError', 'index out of bounds')
        if not is_num(v):
            raise Unsupported('assignment of an array at an index array')
        seq = SeqV(m, lambda k: ff(k))
        if 'index_of' in f.hints:
            seq.hints['index_of'] = f.hints['index_of']
        if seq.concrete or 'index_of' in seq.hints:
            inside = lambda i: V.as_formula(lambda: V.seq_contains(seq, i))
        else:
            inside = membership(m, ff)
        a.write(inside, lambda i: cast(v, a.dtype))
        return
    view = arr_getitem_view(a, idx)
    if not view.shape:
        x = asarray(v)
        if x.shape:
            x = x.item_scalar() if True else x
        else:
            x = x.get()
        view.write(lambda: True, lambda: cast(x, a.dtype))
        return
    x = asarray(v)
    sh = broadcast(x.shape, view.shape)
    g = bget(x, len(view.shape)) if x.ndim <= len(view.shape) else None
    if g is None:
        raise Unsupported('assignment of more dimensions')
    for s, t in zip(sh, view.shape):
        if not truth(cmp('==', s, t)):
            py_raise('ValueError', 'could not broadcast')
    d = a.dtype
    view.write(lambda *i: True, lambda *i: cast(g(*i), d))


def arr_getitem_view(a, idx):
    r = arr_getitem(a, tuple(idx))
    if isinstance(r, Arr) and r.base is a:
        return r
    # all integers
    ints = []
    ax = 0
    for i in idx:
        ints.append(V.index_bounds(i if not isinstance(i, Arr) else i.get(), a.shape[ax]))
        ax += 1

    def vinv(*bi):
        c = True
        for b, i in zip(bi, ints):
            c = band(c, cmp('==', b, i))
        return c, []
    return Arr((), None, a.dtype, base=a, vmap=lambda: ints, vinv=vinv)


def transpose(a):
    a = asarray(a)
    if a.ndim < 2:
        return a
    return Arr(tuple(reversed(a.shape)), None, a.dtype, base=a, vmap=lambda *i: tuple(reversed(i)),
               vinv=lambda *b: (True, tuple(reversed(b))))


def concat(arrs, axis=0):
    arrs = [asarray(a) for a in arrs]
    if axis != 0:
        raise Unsupported('concatenate along axis %s' % axis)
    for a in arrs:
        if a.ndim == 0:
            py_raise('ValueError', 'zero-dimensional arrays cannot be concatenated')
    d = promote(*[a.dtype for a in arrs])
    rest = arrs[0].shape[1:]
    for a in arrs[1:]:
        if a.ndim != arrs[0].ndim:
            py_raise('ValueError', 'dimensions')
        for s, t in zip(a.shape[1:], rest):
            if not truth(cmp('==', s, t)):
                py_raise('ValueError', 'dimensions')
    offs = [0]
    for a in arrs:
        offs.append(add(offs[-1], a.shape[0]))
    fns = [a.fn for a in arrs]

    def fn(k, *i):
        j = C.select([z3.And(zint(k) >= zint(offs[t]), zint(k) < zint(offs[t + 1])) for t in range(len(arrs))]) \
            if len(arrs) > 1 else 0
        return cast(fns[j](sub(k, offs[j]), *i), d)
    r = Arr((offs[-1],) + rest, fn, d)
    return r


def concat_seq(seq, axis=0):
    " concatenation of a sequence (symbolic length) of 1d arrays "
    seq = seq_of(seq)
    if seq.concrete:
        if seq.n == 0:
            py_raise('ValueError', 'need at least one array to concatenate')
        return concat(seq.list(), axis)
    if C.branch(cmp('==', seq.n, 0)):
        py_raise('ValueError', 'need at least one array to concatenate')
    arrs = seq.map(asarray)
    vals = probe_kind(seq.n, arrs.get)
    if any(v.ndim != 1 for v in vals):
        raise Unsupported('concatenation of nd arrays')
    d = promote(*[v.dtype for v in vals]) if vals else F8
    outer = SeqV(arrs.n, lambda k: arrs.get(k).iter_seq())
    flat = V.seq_flatten(outer)
    r = Arr((flat.n,), lambda p: cast(flat.get(p), d), d)
    r.hints['flat'] = flat.hints.get('flat')
    return r


# ---------------------------------------------------------------------------
# reductions with extensional congruence
# ---------------------------------------------------------------------------
class Red:
    " application of an uninterpreted operation to symbolic arrays "
    def __init__(self, op, dims, bodies, scal, results):
        self.op, self.dims, self.bodies, self.scal, self.results = op, dims, bodies, scal, results


def generic_value(n, fn, sort=REAL):
    """ (k, term) : value of fn at an arbitrary index as a single term (paths merged) """
    k, rng, paths = C.generic(n, fn)
    term = None
    facts = []
    for p in paths:
        if p.kind == 'raise':
            raise Unsupported('exception in a reduced term')
        if p.facts:
            facts.append(z3.Implies(p.cond, z3.And(*p.facts)))
    vals = [(p.cond, p.value) for p in paths]
    return k, rng, vals, facts


def merge_vals(vals, part):
    term = None
    for c, v in reversed(vals):
        t = part(v)
        term = t if term is None else z3.If(c, t, term)
    return term


C.reds = []


def generic_nd(dims, fn):
    " value of fn(*idx) at arbitrary indices: (vars, range, [(cond, value)], facts) "
    if len(dims) == 1:
        k, rng, vals, facts = generic_value(dims[0], lambda k: fn(k))
        return [k], rng, vals, facts
    names = [C._name('g') for _ in dims]
    ks = [z3.Const(nm, INT) for nm in names]
    rng = z3.And(*[z3.And(k >= 0, k < zint(d)) for k, d in zip(ks, dims)])
    args = C.idx_args() + ks

    def thunk():
        C.assume(rng)
        return C.in_scope(names[0], args, lambda: fn(*ks))
    paths = C.explore(thunk)
    srng = z3.simplify(rng)
    facts, vals = [], []
    for p in paths:
        if p.kind == 'raise':
            raise Unsupported('exception in a reduced term')
        fs = [f for f in p.facts if not f.eq(srng)]
        if fs:
            facts.append(z3.Implies(p.cond, z3.And(*fs)))
        vals.append((p.cond, p.value))
    return ks, rng, vals, facts


MEMBER = z3.Function('member', INT, INT, z3.BoolSort())
WITNESS = z3.Function('member_at', INT, INT, INT)


def membership(m, fn):
    " the predicate: i is one of fn(k), 0 <= k < m (integers), without fork "
    tok, = uf_op('members', [((m,), fn)], [], ['tok'], [INT])
    C.forall_fact(zint(m), lambda k: MEMBER(tok, zint(fn(k))))

    def inside(i):
        i = zint(i)
        w = WITNESS(tok, i)
        e = V.as_formula(lambda: V.eq(fn(w), i))
        C.assume(z3.Implies(MEMBER(tok, i), z3.And(w >= 0, w < zint(m), e)))
        return MEMBER(tok, i)

    def at(k):
        k = zint(k)
        C.assume(z3.Implies(z3.And(k >= 0, k < zint(m)), MEMBER(tok, zint(fn(k)))))
    inside.at = at
    return inside


def uf_op(op, arrays, scalars=(), results=('r',), sorts=None):
    """ uninterpreted operation on arrays: equal results for (extensionally) equal arguments

    arrays: list of (dims, fn) ; scalars: terms. Returns one symbol per name of results.
    """
    bodies = []
    for dims, fn in arrays:
        if any(isinstance(d, int) and d == 0 for d in dims):
            bodies.append((dims, [], None, None, None))
            continue
        ks, rng, vals, facts = generic_nd(dims, fn)
        for f in facts:
            g = f
            for k in reversed(ks):
                pass
            C.assume(z3.ForAll(ks, z3.Implies(rng, g)))
        if not vals:
            bodies.append((dims, ks, rng, z3.RealVal(0), z3.RealVal(0)))
            continue
        if any(not is_num(v) for _, v in vals):
            raise Unsupported('reduction of non numbers')
        re = merge_vals(vals, lambda v: zreal(xnum(v).re))
        im = merge_vals(vals, lambda v: zreal(xnum(v).im))
        nan = merge_vals(vals, lambda v: zbool(xnum(v).nan))
        bodies.append((dims, ks, rng, re, im, nan))
    scal = [zreal(s) if is_num(s) else s for s in scalars]
    sorts = sorts or [REAL] * len(results)
    key, consts = canonical(bodies, scal)
    key = (op,) + tuple(results) + tuple(map(str, sorts)) + key
    num = TEMPLATES.setdefault(key, len(TEMPLATES))
    res = []
    for nm, so in zip(results, sorts):
        f = z3.Function('%s_%s#%d' % (op, nm, num), *([c.sort() for c in consts] + [so])) if consts else \
            z3.Const('%s_%s#%d' % (op, nm, num), so)
        res.append(f(*consts) if consts else f)
    # the same application
    for r in C.reds:
        if r.op == op and len(r.results) == len(res) and all(x.eq(y) for x, y in zip(r.results, res)):
            return r.results
    red = Red(op, None, bodies, scal, res)
    C.reds.append(red)
    C.log(V._DUMMY, 'memo', None, lambda: C.reds.remove(red), None)
    return res


TEMPLATES = {}
COMM = (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT)


def canonical(bodies, scal):
    """ (key, constants): the arguments of an operation as a template over its free constants

    Two applications with the same template are the same function of their constants, whatever the
    names of the bound variables (operands of commutative operators are ordered by their structure).
    """
    bound = {}
    terms = []
    shape = []
    for body in bodies:
        terms += [zint(d) for d in body[0]]
        for k in body[1]:
            bound[k.get_id()] = 'b%d' % len(bound)
        if body[2] is None:
            shape.append((len(body[0]), 'empty'))
            continue
        shape.append((len(body[0]), len(body[1])))
        # the range is determined by the dimensions
        terms += [p if z3.is_expr(p) else z3.BoolVal(p) for p in body[3:]]
    terms += list(scal)
    terms = [z3.simplify(t) for t in terms]
    masked = {}

    def mask(t):
        i = t.get_id()
        if i in masked:
            return masked[i][0]
        if z3.is_quantifier(t) or z3.is_var(t):
            r = t.sexpr()
        elif t.num_args() == 0:
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                r = bound.get(i, '_' + str(t.sort()))
            else:
                r = t.sexpr()
        else:
            ch = [mask(c) for c in t.children()]
            if t.decl().kind() in COMM:
                ch.sort()
            r = hash_of((t.decl().name(), tuple(ch)))
        masked[i] = (r, t)
        return r
    consts, numbers, out = [], {}, {}

    def emit(t):
        i = t.get_id()
        if i in out:
            return out[i]
        if z3.is_quantifier(t) or z3.is_var(t):
            return t.sexpr()
        if t.num_args() == 0:
            if t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                return t.sexpr()
            if i in bound:
                return bound[i]
            if i not in numbers:
                numbers[i] = 'c%d' % len(consts)
                consts.append(t)
            return numbers[i]
        ch = t.children()
        if t.decl().kind() in COMM:
            ch = sorted(ch, key=mask)
        d = t.decl()
        r = hash_of((d.name(), str(d.params()) if d.params() else '', tuple(emit(c) for c in ch)))
        out[i] = r
        return r
    key = (tuple(shape), tuple(emit(t) for t in terms))
    return key, consts


HASHES = {}


def hash_of(x):
    " short name of a structure "
    return HASHES.setdefault(x, 'h%d' % len(HASHES))


def same_bodies(a, b):
    for x, y in zip(a, b):
        if len(x[0]) != len(y[0]) or not all(dim_eq(d, e) for d, e in zip(x[0], y[0])):
            return False
        if x[2] is None or y[2] is None:
            if x[2] is not y[2]:
                return False
            continue
        s = list(zip(y[1], x[1]))
        for p, q in zip(x[3:], y[3:]):
            if not z3.simplify(p).eq(z3.simplify(z3.substitute(q, *s))):
                return False
    return True


def saturate(ctx):
    " congruence axioms between the applications met on this path "
    done = getattr(ctx, 'sat_done', None)
    n = len(ctx.reds)
    for i in range(n):
        for j in range(i):
            a, b = ctx.reds[j], ctx.reds[i]
            if a.op != b.op or len(a.bodies) != len(b.bodies) or len(a.scal) != len(b.scal):
                continue
            key = (id(a), id(b))
            if key in ctx.red_pairs:
                continue
            ctx.red_pairs.add(key)
            ctx.log(V._DUMMY, 'memo', None, lambda key=key: ctx.red_pairs.discard(key), None)
            diff = [x != y for x, y in zip(a.scal, b.scal)]
            ok = True
            for x, y in zip(a.bodies, b.bodies):
                if len(x[0]) != len(y[0]):
                    ok = False
                    break
                for d, e in zip(x[0], y[0]):
                    dd = z3.simplify(zint(d) != zint(e))
                    if not z3.is_false(dd):
                        diff.append(dd)
                if x[2] is None or y[2] is None:
                    continue
                ws = [C.fresh('diff', INT) for _ in x[1]]
                s1, s2 = list(zip(x[1], ws)), list(zip(y[1], ws))
                parts = [z3.substitute(p, *s1) != z3.substitute(q, *s2) for p, q in zip(x[3:], y[3:])]
                diff.append(z3.And(z3.substitute(x[2], *s1), z3.Or(*parts)))
            if not ok:
                continue
            eqs = z3.And(*[p == q for p, q in zip(a.results, b.results)])
            C.assume(z3.Or(*(diff + [eqs])))


C.red_pairs = set()


def sum_red(n, fn):
    " sum of fn(k), 0 <= k < n "
    if isinstance(n, int) and n <= 4:
        r = 0
        for k in range(n):
            r = add(r, fn(k))
        return r
    k, rng, vals, facts = generic_value(n, fn)
    cplx = any(is_x(v) and not (conc(xnum(v).im) and xnum(v).im == 0) for _, v in vals)
    isint = bool(vals) and all(is_int(v) or is_bool(v) for _, v in vals)
    if any(is_x(v) and xnum(v).nan is not False for _, v in vals):
        raise Unsupported('sum with NaN')
    re, = uf_op('sum', [((n,), lambda k: xnum(fn(k)).re)], [zint(n)])
    if isint:
        pass
    if not cplx:
        return re
    im, = uf_op('sum', [((n,), lambda k: xnum(fn(k)).im)], [zint(n)])
    return XNum(re, im)


def dot(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        return np_binop('*', a, b)
    n = a.shape[-1]
    m = b.shape[0] if b.ndim == 1 else b.shape[-2]
    if not dim_eq(n, m):
        if not C.branch(zint(n) == zint(m)):
            py_raise('ValueError', 'shapes not aligned')
    fa, fb = a.fn, b.fn
    na = a.ndim - 1
    shape = a.shape[:-1] + (b.shape[:-2] + b.shape[-1:] if b.ndim > 1 else ())

    def elem(*i):
        ia, ib = i[:na], i[na:]
        if b.ndim == 1:
            return sum_red(n, lambda k: mul(fa(*ia, k), fb(k)))
        return sum_red(n, lambda k: mul(fa(*ia, k), fb(*ib[:-1], k, ib[-1])))
    d = promote(a.dtype, b.dtype)
    if not shape:
        return elem()
    return Arr(shape, elem, d, scoped=True)


def np_sum(a, axis=None):
    a = asarray(a)
    fn = a.fn
    if axis is None:
        if a.ndim == 1:
            return sum_red(a.shape[0], fn)
        if a.ndim == 0:
            return a.get()
        raise Unsupported('sum over all axes')
    if axis < 0:
        axis += a.ndim
    n = a.shape[axis]
    shape = a.shape[:axis] + a.shape[axis + 1:]
    elem = lambda *i: sum_red(n, lambda k: fn(*i[:axis], k, *i[axis:]))
    if not shape:
        return elem()
    return Arr(shape, elem, a.dtype if a.dtype.kind != 'bool' else I8, scoped=True)


def arr_eq_all(a, b):
    raise NotImplementedError


I.Interp.np_binop = lambda self, op, a, b: np_binop(op, a, b)
