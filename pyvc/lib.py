""" pyvc models of the builtins and of the library functions used by razorback.

These models are the trusted part of the verification (see trusted_base in the evidence).
"""
import math
import ast
from fractions import Fraction
import z3

from . import values as V
from . import interp as I
from . import arrays as A
from .values import (
    C, Unsupported, PathEnd, PyRaise, ExcV, py_raise, EXC, Obj, MList, MDict, MSet, SetV, SeqV, SliceV, RangeV,
    SymStr, Opaque, UFn, XNum, Mutable, seq_of, isz, is_int, is_num, is_str, is_bool, is_real, is_tuple, is_x,
    add, sub, mul, div, neg, cmp, ite, band, bor, bnot, simp, zint, zreal, zbool, truth, eq, conc, xnum,
)
from .interp import (
    Builtin, ClassV, ModV, FuncV, BoundM, PropV, ClassM, StaticM, SuperV, StarArg, MultiMap, MultiMapItem,
    CounterV, ObjDict, OBJECT, BUILTINS, Env,
)
from .arrays import Arr, F8, I8, B1, C16, OBJ, DType, asarray

MODELS_USED = set()


def it():
    return V.INTERP


def star_args(args):
    " positional arguments with possible StarArg -> SeqV "
    if not any(isinstance(a, StarArg) for a in args):
        return seq_of(list(args))
    return V.seq_concat(*[a.seq if isinstance(a, StarArg) else seq_of([a]) for a in args])


# ---------------------------------------------------------------------------
# types as builtins: they are ClassV with __new__
# ---------------------------------------------------------------------------
def builtin_type(name, new, bases=None):
    c = ClassV(name, bases or [OBJECT], {'__new__': Builtin(name, new)})
    BUILTINS[name] = c
    return c


def seqv(x):
    return it().iter_seq(x)


def new_tuple(cls, x=()):
    s = seqv(x)
    return tuple(s.list()) if s.concrete else s


def new_list(cls, x=()):
    return MList(seqv(x))


def new_set(cls, x=()):
    if isinstance(x, (SetV, MSet)):
        return MSet(V.as_set(x))
    if isinstance(x, RangeV) and x.step == 1:
        return MSet(SetV(rng=x))
    if isinstance(x, (MDict,)):
        return MSet(SetV(x.keys()))
    return MSet(SetV(seqv(x)))


def new_frozenset(cls, x=()):
    if isinstance(x, (SetV, MSet)):
        return V.as_set(x)
    if isinstance(x, RangeV) and x.step == 1:
        return SetV(rng=x)
    return SetV(seqv(x))


def new_dict(cls, x=None, **kw):
    d = MDict()
    if x is not None:
        if isinstance(x, MDict) or (isinstance(x, Obj) and x.cls.lookup('keys') is not None):
            it().dict_update(d, x)
            if isinstance(x, MDict):
                d.excluded = x.excluded
        else:
            s = seqv(x)
            d = it().dict_from_pairs(s)
    extra = kw.pop('**', None)
    for k, v in kw.items():
        d.setitem(k, v)
    if extra is not None:
        if isinstance(extra, list):
            for k, v in extra:
                d.setitem(k, v)
        else:
            it().dict_update(d, extra)
    return d


def new_int(cls, x=0):
    if isinstance(x, Arr):
        x = x.item_scalar()
    if is_bool(x):
        return zint(x) if isz(x) else int(x)
    if is_int(x):
        return x
    if is_real(x):
        if conc(x):
            if x != x:
                py_raise('ValueError', 'cannot convert float NaN to integer')
            if V.isinf(x):
                py_raise('OverflowError', 'cannot convert float infinity to integer')
            return int(x)
        if z3.is_app_of(x, z3.Z3_OP_TO_REAL):
            return x.arg(0)
        x = zreal(x)
        t = simp(z3.ToInt(x))
        if C.decide(x >= 0) is True:
            return t
        return simp(z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)))
    if isinstance(x, str):
        try:
            return int(x)
        except ValueError:
            py_raise('ValueError', 'int')
    if isinstance(x, SymStr):
        t = z3.Function('str_int', z3.IntSort(), z3.IntSort())(x.id)
        ok = z3.Function('str_is_int', z3.IntSort(), z3.BoolSort())(x.id)
        if not C.branch(ok):
            py_raise('ValueError', 'int')
        return t
    if isinstance(x, SliceV) or x is None or is_tuple(x) or isinstance(x, (MList, FuncV)):
        py_raise('TypeError', 'int')
    if isinstance(x, Obj) and x.cls.lookup('__int__') is not None:
        return it().call(x.cls.lookup('__int__'), [x], {})
    raise Unsupported('int(%s)' % type(x).__name__)


def new_float(cls, x=0):
    if isinstance(x, Arr):
        x = x.item_scalar()
    if isinstance(x, str):
        return float(x)
    if is_x(x):
        x = xnum(x)
        if conc(x.im) and x.im == 0:
            return x
        py_raise('TypeError')
    if is_real(x):
        return x
    if is_bool(x) or is_int(x):
        return float(x) if conc(x) else simp(zreal(x))
    if x is None or is_tuple(x) or isinstance(x, (MList, SliceV, FuncV)):
        py_raise('TypeError', 'float')
    raise Unsupported('float(%s)' % type(x).__name__)


def new_bool(cls, x=False):
    if is_bool(x):
        return x
    return truth(x)


def new_str(cls, x=''):
    if is_str(x):
        return x
    if isinstance(x, int):
        return str(x)
    return SymStr(C.fresh('str', z3.IntSort()))


def new_complex(cls, re=0, im=0):
    return XNum(re, im)


def new_range(cls, a, b=None, c=1):
    if b is None:
        a, b = 0, a
    for v in (a, b, c):
        if isinstance(v, Arr):
            raise Unsupported('range of arrays')
        if not (is_int(v) or is_bool(v)):
            py_raise('TypeError', 'range')
    if C.branch(cmp('==', c, 0)):
        py_raise('ValueError')
    return RangeV(a, b, c)


def new_slice(cls, a, b=Ellipsis, c=None):
    if b is Ellipsis:
        a, b = None, a
    return SliceV(a, b, c)


def new_enumerate(cls, x, start=0):
    s = seqv(x)
    r = s.map(lambda e: e) if False else (
        seq_of([(i + start, e) for i, e in enumerate(s.list())]) if s.concrete and isinstance(start, int)
        else SeqV(s.n, lambda k: (add(k, start), s.get(k))))
    return r


def common_len(seqs):
    n = seqs[0].n
    for s in seqs[1:]:
        if A.dim_eq(n, s.n):
            if isinstance(s.n, int):
                n = s.n
            continue
        n = V.num_min(n, s.n)
    return n


def new_zip(cls, *args):
    if any(isinstance(a, StarArg) for a in args):
        outer = star_args(args)
        return zip_star(outer)
    if not args:
        return seq_of([])
    seqs = [seqv(a) for a in args]
    n = common_len(seqs)
    if isinstance(n, int):
        return seq_of([tuple(s.get(k) for s in seqs) for k in range(n)])
    return SeqV(n, lambda k: tuple(s.get(k) for s in seqs))


def zip_star(outer):
    " zip(*outer): transposition, outer has a symbolic number of elements "
    if C.branch(cmp('==', outer.n, 0)):
        return seq_of([])
    first = seqv(outer.get(0))
    m = first.n
    same = C.forall_branch(zint(outer.n), lambda k: cmp('==', seqv(outer.get(k)).n, m))
    if not same:
        raise Unsupported('zip of sequences of different lengths')
    col = lambda j: SeqV(outer.n, lambda k: seqv(outer.get(k)).get(j))
    if isinstance(m, int):
        return seq_of([col(j) for j in range(m)])
    return SeqV(m, col)


def new_map(cls, f, *args):
    if any(isinstance(a, StarArg) for a in args):
        raise Unsupported('map(*)')
    seqs = [seqv(a) for a in args]
    n = common_len(seqs)
    if len(seqs) == 1 and f is BUILTINS['tuple'] and False:
        pass
    return it().map_seq(n, lambda k: it().call(f, [s.get(k) for s in seqs], {}))


def new_filter(cls, f, x):
    s = seqv(x)
    if f is None:
        cond = lambda k: truth(s.get(k))
    else:
        cond = lambda k: truth(it().call(f, [s.get(k)], {}))
    if not s.concrete:
        it().no_raise(s.n, cond)
    return V.seq_filter(s, cond)


NONE_TYPE = ClassV('NoneType', [OBJECT], {})


def new_type(cls, x, *a):
    if a:
        raise Unsupported('type()')
    if isinstance(x, Obj):
        return x.cls
    if isinstance(x, ExcV):
        return x.cls
    t = type_name(x)
    if t == 'NoneType':
        return NONE_TYPE
    if t not in BUILTINS:
        raise Unsupported('type()')
    return BUILTINS[t]


def type_name(x):
    if is_bool(x):
        return 'bool'
    if is_int(x):
        return 'int'
    if is_real(x):
        return 'float'
    if is_x(x):
        return 'complex'
    if is_str(x):
        return 'str'
    if is_tuple(x):
        return 'tuple'
    if isinstance(x, MList):
        return 'list'
    if isinstance(x, MDict):
        return 'dict'
    if isinstance(x, MSet):
        return 'set'
    if isinstance(x, SetV):
        return 'frozenset'
    if isinstance(x, SliceV):
        return 'slice'
    if isinstance(x, RangeV):
        return 'range'
    if x is None:
        return 'NoneType'
    raise Unsupported('type of %s' % type(x).__name__)


def new_super(cls, c=None, o=None):
    return SuperV(c, o)


def new_object(cls):
    return Obj(OBJECT)


def new_property(cls, fget=None, fset=None):
    return PropV(fget, fset)


def isinstance_(o, cls):
    if is_tuple(cls):
        r = False
        for c in seq_of(cls).list():
            r = r or isinstance_(o, c)
        return r
    if isinstance(o, Obj):
        return isinstance(cls, ClassV) and o.cls.is_sub(cls)
    if isinstance(o, ExcV):
        return isinstance(cls, ClassV) and o.cls.is_sub(cls)
    if isinstance(cls, ClassV):
        n = cls.name
        if n == 'object':
            return True
        if isinstance(o, Opaque) and hasattr(o, 'pytype'):
            return n == o.pytype
        if isinstance(o, UFn) or isinstance(o, (FuncV, BoundM, Builtin, ClassV)):
            return False
        if isinstance(o, Arr):
            return n == 'ndarray' and not getattr(o, 'dask', False)
        try:
            t = type_name(o)
        except Unsupported:
            raise Unsupported('isinstance(%s, %s)' % (type(o).__name__, n))
        return n == t or (n == 'int' and t == 'bool')
    raise Unsupported('isinstance with %r' % (cls,))


def b_len(x):
    return it().len(x)


def b_sum(x, start=0):
    s = seqv(x)
    if is_tuple(start) or isinstance(start, MList):
        parts = s
        if s.concrete:
            r = start
            for e in s.list():
                r = it().binop('+', r, e)
            return r
        r = V.seq_flatten(s)
        if not (seq_of(start).concrete and seq_of(start).n == 0):
            r = V.seq_concat(seq_of(start), r)
        return MList(r) if isinstance(start, MList) else r
    if s.concrete:
        r = start
        for e in s.list():
            r = it().binop('+', r, e)
        return r
    if isinstance(start, CounterV):
        return CounterSum(s, start)
    if is_num(start):
        return add(start, A.sum_red(s.n, s.get)) if not (conc(start) and start == 0) else A.sum_red(s.n, s.get)
    raise Unsupported('sum of a symbolic sequence')


class CounterSum(CounterV):
    " sum(Counter(keys_k) for k) "
    def __init__(self, outer, start):
        self.outer, self.start = outer, start


def fold_cmp(args, key, default, op):
    if len(args) == 1 and not isinstance(args[0], StarArg):
        s = seqv(args[0])
    else:
        s = star_args(args)
    f = (lambda e: it().call(key, [e], {})) if key is not None else (lambda e: e)
    if s.concrete:
        if s.n == 0:
            if default is not None:
                return default[0]
            py_raise('ValueError', 'empty sequence')
        r = s.get(0)
        for e in s.list()[1:]:
            if key is None and is_num(r) and is_num(e) and not is_x(r) and not is_x(e):
                r = V.num_max(r, e) if op == '>' else V.num_min(r, e)
            else:
                r = e if truth(V.less(f(r), f(e)) if op == '>' else V.less(f(e), f(r))) else r
        return r
    if C.branch(cmp('==', s.n, 0)):
        if default is not None:
            return default[0]
        py_raise('ValueError', 'empty sequence')
    # extremum: attained, bounds all elements
    w = C.fresh('arg', z3.IntSort())
    C.assume(z3.And(w >= 0, w < s.n))
    r = s.get(w)
    C.forall_fact(s.n, lambda k: bnot(V.as_formula(
        lambda: V.less(f(r), f(s.get(k))) if op == '>' else V.less(f(s.get(k)), f(r)))))
    return r


def b_max(*args, key=None, **kw):
    d = [kw['default']] if 'default' in kw else None
    return fold_cmp(args, key, d, '>')


def b_min(*args, key=None, **kw):
    d = [kw['default']] if 'default' in kw else None
    return fold_cmp(args, key, d, '<')


def b_all(x):
    s = seqv(x)
    if s.concrete:
        for e in s.list():
            if not truth(e):
                return False
        return True
    return C.forall_branch(zint(s.n), lambda k: as_cond(s.get(k)))


def b_any(x):
    s = seqv(x)
    if s.concrete:
        for e in s.list():
            if truth(e):
                return True
        return False
    return not C.forall_branch(zint(s.n), lambda k: bnot(as_cond(s.get(k))))


def as_cond(v):
    return v if is_bool(v) else truth(v)


def b_sorted(x, key=None, reverse=False):
    if isinstance(x, (SetV, MSet)):
        s = V.as_set(x)
        if s.rng is not None:
            return MList(s.rng.seq)
        if key is None and not s.seq.concrete and V.elem_kind(s.seq) == 'int':
            return MList(V.sorted_ints(s.seq))
        if key is None and not s.seq.concrete and is_numeric(s.seq):
            return MList(V.sorted_distinct(s.seq))
    q = seqv(x)
    k = (lambda e: it().call(key, [e], {})) if key is not None else None
    if key is None and q.concrete and all(isinstance(e, (str, int)) for e in q.list()):
        return MList(seq_of(sorted(q.list(), reverse=bool(reverse))))
    return MList(V.seq_sorted(q, k, reverse))


def is_numeric(q):
    vals = A.probe_kind(q.n, q.get)
    return all(is_num(v) for v in vals)


def b_reversed(x):
    s = seqv(x)
    if s.concrete:
        return seq_of(s.list()[::-1])
    return SeqV(s.n, lambda k: s.get(sub(sub(s.n, 1), k)))


def b_abs(x):
    if is_num(x):
        return V.absv(x)
    if isinstance(x, Arr):
        d = F8 if x.dtype.kind == 'complex' else x.dtype
        return A.umap(V.absv, x, d)
    raise Unsupported('abs(%s)' % type(x).__name__)


def b_callable(x):
    if isinstance(x, (FuncV, BoundM, Builtin, ClassV, UFn, StaticM, ClassM)):
        return True
    if isinstance(x, Obj):
        return x.cls.lookup('__call__') is not None
    if isinstance(x, Opaque):
        raise Unsupported('callable(opaque)')
    return False


def b_getattr(o, name, *default):
    if isinstance(name, SymStr):
        raise Unsupported('getattr with a symbolic name')
    if default:
        return it().getattr(o, name, default[0], True)
    return it().getattr(o, name)


def b_hasattr(o, name):
    m = object()
    return it().getattr(o, name, m, True) is not m


def b_divmod(a, b):
    return (it().binop('//', a, b), it().binop('%', a, b))


def b_round(x, n=None):
    if n is not None:
        raise Unsupported('round with digits')
    return V.zround(x)


def b_iter(x):
    return seqv(x)


def b_next(x, *default):
    s = seqv(x)
    if C.branch(cmp('==', s.n, 0)):
        if default:
            return default[0]
        py_raise('StopIteration')
    return s.get(0)


def b_print(*a, **k):
    return None


def b_repr(x):
    return SymStr(C.fresh('str', z3.IntSort()))


def b_id(x):
    raise Unsupported('id()')


def b_hash(x):
    raise Unsupported('hash()')


def _b(name, fn):
    BUILTINS[name] = Builtin(name, fn)


for _n, _f in dict(
        len=b_len, sum=b_sum, max=b_max, min=b_min, all=b_all, any=b_any, sorted=b_sorted, reversed=b_reversed,
        abs=b_abs, callable=b_callable, getattr=b_getattr, hasattr=b_hasattr, divmod=b_divmod, round=b_round,
        iter=b_iter, next=b_next, print=b_print, repr=b_repr, id=b_id, hash=b_hash, isinstance=isinstance_,
        setattr=lambda o, n, v: it().setattr(o, n, v), delattr=lambda o, n: it().delattr(o, n),
        issubclass=lambda a, b: a.is_sub(b), ).items():
    _b(_n, _f)

for _n, _f in dict(tuple=new_tuple, list=new_list, set=new_set, frozenset=new_frozenset, dict=new_dict,
                   int=new_int, float=new_float, bool=new_bool, str=new_str, complex=new_complex,
                   range=new_range, slice=new_slice, enumerate=new_enumerate, zip=new_zip, map=new_map,
                   filter=new_filter, type=new_type, super=new_super, property=new_property).items():
    builtin_type(_n, _f)
BUILTINS['object'] = OBJECT
BUILTINS['classmethod'] = Builtin('classmethod', ClassM)
BUILTINS['staticmethod'] = Builtin('staticmethod', StaticM)
BUILTINS['NotImplemented'] = Opaque(z3.IntVal(-7), 'NotImplemented')
BUILTINS['__name__'] = '__main__'

OBJECT.attrs.update({
    '__getattribute__': Builtin('object.__getattribute__', lambda o, n: it().obj_getattr(o, n)),
    '__setattr__': Builtin('object.__setattr__', lambda o, n, v: it().obj_setattr(o, n, v)),
    '__delattr__': Builtin('object.__delattr__', lambda o, n: _obj_delattr(o, n)),
    '__init__': Builtin('object.__init__', lambda o, *a, **k: None),
})


def _obj_delattr(o, n):
    if n not in o.attrs:
        py_raise('AttributeError', n)
    o.delattr(n)


# ---------------------------------------------------------------------------
# methods of the builtin types
# ---------------------------------------------------------------------------
def m(f):
    return Builtin(f.__name__, f)


def builtin_attr(interp, o, name):
    if hasattr(o, 'get_attr'):
        return o.get_attr(interp, name)
    table = None
    if isinstance(o, MList):
        table = LIST
    elif isinstance(o, MDict):
        table = DICT
    elif isinstance(o, (SetV, MSet)):
        table = SET
    elif is_str(o):
        table = STR
    elif isinstance(o, Arr):
        return arr_attr(o, name)
    elif is_tuple(o):
        table = TUPLE
    elif isinstance(o, SliceV):
        if name in ('start', 'stop', 'step'):
            return getattr(o, name)
        if name == 'indices':
            return Builtin('indices', lambda n: o.indices(n))
        py_raise('AttributeError', name)
    elif isinstance(o, ObjDict):
        if name == 'update':
            def update(*a, **kw):
                for k, v in kw.items():
                    o.o.setattr(k, v)
            return Builtin('update', update)
    elif isinstance(o, MultiMapItem):
        if name == 'add':
            def madd(v):
                mm = o.mm
                if C.effect_mode(mm):
                    C.log_effect(mm, 'mm_add', (o.key, v))
                    return
                raise Unsupported('add in a grouped dict')
            return Builtin('add', madd)
    elif isinstance(o, MultiMap):
        return multimap_attr(o, name)
    elif isinstance(o, CounterV):
        if name == 'items':
            return Builtin('items', lambda: counter_items(o))
    elif is_num(o):
        return num_attr(o, name)
    elif isinstance(o, RangeV):
        if name in ('start', 'stop', 'step'):
            return getattr(o, name)
    elif isinstance(o, Builtin):
        if name == '__name__':
            return o.name
        key = o.name + '.' + name
        if key in LIBFUN:
            return LIBFUN[key]
    elif isinstance(o, Opaque):
        if name in getattr(o, 'attrs', {}):
            return o.attrs[name]
        if getattr(o, 'closed', True):
            py_raise('AttributeError', name)
    elif o is None:
        py_raise('AttributeError', name)
    elif hasattr(o, 'enter'):
        pass
    if table is not None:
        if name in table:
            return Builtin(name, lambda *a, **k: table[name](o, *a, **k))
        py_raise('AttributeError', name)
    raise Unsupported('attribute %s of %s' % (name, type(o).__name__))


def num_attr(o, name):
    if name == 'real':
        return xnum(o).re if is_x(o) else o
    if name == 'imag':
        return xnum(o).im if is_x(o) else 0
    if name in ('conjugate', 'conj'):
        return Builtin(name, lambda: conj(o))
    if name == 'ndim':
        return 0
    if name == 'shape':
        return ()
    if name == 'flat':               # numpy scalar
        return seq_of([o])
    if name == 'dtype':
        return A.dtype_of_value(o)
    if name == 'is_integer':
        return Builtin(name, lambda: cmp('==', V.zfloor(o), o))
    if name == 'item':
        return Builtin(name, lambda: o)
    if name in ('size',):
        return 1
    py_raise('AttributeError', name)


def conj(v):
    if is_x(v):
        v = xnum(v)
        return V.xmk(v.re, neg(v.im), v.nan)
    return v


# list
def list_pop(o, i=-1):
    s = o.seq
    if C.branch(cmp('==', s.n, 0)):
        py_raise('IndexError')
    j = V.index_bounds(i, s.n)
    v = s.get(j)
    if s.concrete and isinstance(j, int):
        items = s.list()
        del items[j]
        o.set_seq(items, 'pop')
    else:
        o.set_seq(V.seq_concat(V.seq_slice(s, 0, j), V.seq_slice(s, add(j, 1), sub(sub(s.n, j), 1))), 'pop')
    return v


def list_insert(o, i, v):
    s = o.seq
    if not (s.concrete and isinstance(i, int)):
        raise Unsupported('list.insert')
    items = s.list()
    items.insert(i, v)
    o.set_seq(items, 'insert')


def list_sort(o, key=None, reverse=False):
    k = (lambda e: it().call(key, [e], {})) if key is not None else None
    o.set_seq(V.seq_sorted(o.seq, k, reverse), 'sort')


def list_index(o, v):
    i = V.seq_index(seqv(o), v)
    if i is None:
        py_raise('ValueError')
    return i


def list_count(o, v):
    s = seqv(o)
    if s.concrete:
        r = 0
        for e in s.list():
            r = add(r, 1 if truth(eq(e, v)) else 0)
        return r
    raise Unsupported('count')


def list_remove(o, v):
    i = list_index(o, v)
    list_pop(o, i)


LIST = dict(append=lambda o, v: o.append(v), extend=lambda o, s: o.extend(seqv(s)), pop=list_pop,
            insert=list_insert, sort=list_sort, index=list_index, count=list_count, remove=list_remove,
            copy=lambda o: MList(o.seq), reverse=lambda o: o.set_seq(b_reversed(o), 'reverse'),
            clear=lambda o: o.set_seq((), 'clear'))
TUPLE = dict(index=list_index, count=list_count)


# dict
def dict_get(d, k, default=None):
    i = d.find(k)
    return default if i is None else d.get_at(i)


def dict_setdefault(d, k, default=None):
    i = d.find(k)
    if i is None:
        d.setitem(k, default)
        return default
    return d.get_at(i)


def dict_pop(d, k, *default):
    i = d.find(k)
    if i is None:
        if default:
            return default[0]
        py_raise('KeyError', k)
    v = d.get_at(i)
    d.delitem(k)
    return v


def dict_update(d, *a, **kw):
    for o in a:
        if isinstance(o, (MDict, Obj)):
            it().dict_update(d, o)
        else:
            s = seqv(o)
            if s.concrete:
                for e in s.list():
                    e = seq_of(e)
                    d.setitem(e.get(0), e.get(1))
            else:
                it().dict_bulk(d, s)
    for k, v in kw.items():
        d.setitem(k, v)


def dict_items(d):
    s = d.items()
    if d.sym:
        s.hints['keys'] = d.keys()
    return s


def dict_keys(d):
    k = d.keys()
    k.hints['distinct'] = True
    return k


def dict_clear(d):
    d.set_content(('c', []), 'clear')


DICT = dict(get=dict_get, setdefault=dict_setdefault, pop=dict_pop, update=dict_update, items=dict_items,
            keys=dict_keys, values=lambda d: d.values(), copy=lambda d: new_dict(None, d), clear=dict_clear,
            __contains__=lambda d, k: d.find(k) is not None)


# set
def set_union(s, *others):
    o = star_args(others)
    if o.concrete:
        return MSet(SetV(V.seq_concat(V.as_set(s).seq, *[seqv_set(x) for x in o.list()])))
    flat = V.seq_flatten(SeqV(o.n, lambda k: seqv_set(o.get(k))))
    return MSet(SetV(V.seq_concat(V.as_set(s).seq, flat)))


def seqv_set(x):
    " elements of an iterable, order irrelevant "
    if isinstance(x, (SetV, MSet)):
        return V.as_set(x).seq
    return seqv(x)


def to_set(x):
    if isinstance(x, (SetV, MSet)):
        return V.as_set(x)
    if isinstance(x, RangeV) and x.step == 1:
        return SetV(rng=x)
    return SetV(seqv(x))


def set_pop(s):
    e = it().set_elems(s.set)
    if C.branch(cmp('==', e.n, 0)):
        py_raise('KeyError')
    v = e.get(0)
    s.assign(SetV(V.seq_slice(e, 1, sub(e.n, 1))), 'pop')
    return v


def set_add(s, v):
    if C.effect_mode(s):
        C.log_effect(s, 'add', v)
        return
    s.assign(SetV(V.seq_concat(s.set.seq, [v])), 'add', v)


def set_update(s, *others):
    s.assign(set_union(s, *others).set, 'update')


def set_disc(s, v, strict=False):
    q = it().set_elems(s.set)
    if strict and not truth(s.set.contains(v)):
        py_raise('KeyError')
    s.assign(SetV(V.seq_filter(q, lambda k: bnot(V.as_formula(lambda: eq(q.get(k), v))))), 'discard')


def set_sub(a, b):
    r = V.set_subset(to_set(a), to_set(b))
    return r


SET = dict(union=set_union, pop=set_pop, add=set_add, update=set_update,
           issubset=lambda s, o: set_sub(s, o), issuperset=lambda s, o: set_sub(o, s),
           intersection=lambda s, o: it().set_binop('&', V.as_set(s), to_set(o)),
           difference=lambda s, o: it().set_binop('-', V.as_set(s), to_set(o)),
           isdisjoint=lambda s, o: V.seq_eq(it().set_binop('&', V.as_set(s), to_set(o)).set.seq, seq_of([])),
           copy=lambda s: MSet(V.as_set(s)), discard=set_disc, remove=lambda s, v: set_disc(s, v, True))


# str
def str_meth(name):
    def f(s, *args, **kw):
        if isinstance(s, str) and all(isinstance(a, (str, int)) for a in args) and not kw:
            r = getattr(s, name)(*args)
            if isinstance(r, list):
                return MList(r)
            if isinstance(r, tuple):
                return r
            return r
        tag = name + ''.join('_' + str(a) for a in args if isinstance(a, (str, int)))
        extra = [V.zterm(a) for a in args if not isinstance(a, (str, int))]
        dom = [z3.IntSort()] * (1 + len(extra))
        if name in ('isalpha', 'startswith', 'endswith', 'isidentifier', 'isdigit'):
            return z3.Function('str_' + tag, *(dom + [z3.BoolSort()]))(V.zterm(s), *extra)
        if name in ('lower', 'upper') and not args:
            # the case does not depend on the blanks around: strip first
            e = V.zterm(s)
            if z3.is_app(e) and e.decl().name() == 'str_' + name:
                return s
            return SymStr(z3.Function('str_' + name, z3.IntSort(), z3.IntSort())(e))
        if name == 'strip' and not args:
            e = V.zterm(s)
            if z3.is_app(e) and e.decl().name() == 'str_strip':
                return s
            if z3.is_app(e) and e.decl().name() in ('str_lower', 'str_upper'):
                return SymStr(e.decl()(z3.Function('str_strip', z3.IntSort(), z3.IntSort())(e.arg(0))))
        if name in ('lower', 'upper', 'strip', 'rstrip', 'lstrip', 'replace'):
            return SymStr(z3.Function('str_' + tag, *(dom + [z3.IntSort()]))(V.zterm(s), *extra))
        if name == 'split':
            n = z3.Function('str_nsplit_' + tag, *(dom + [z3.IntSort()]))(V.zterm(s), *extra)
            C.assume(n >= 1)
            g = z3.Function('str_split_' + tag, *(dom + [z3.IntSort(), z3.IntSort()]))
            return MList(SeqV(n, lambda k: SymStr(g(V.zterm(s), *(extra + [zint(k)])))))
        raise Unsupported('str.%s' % name)
    return f


def str_join(s, x):
    q = seqv(x)
    if isinstance(s, str) and q.concrete and all(isinstance(e, str) for e in q.list()):
        return s.join(q.list())
    return SymStr(C.fresh('str', z3.IntSort()))


def str_format(s, *a, **k):
    h = getattr(it(), 'str_format_hook', None)
    if h is not None:
        return h(s, a, k)
    if isinstance(s, str) and all(isinstance(x, (str, int)) for x in list(a) + list(k.values())) and '**' not in k:
        return s.format(*a, **k)
    if isinstance(s, str) and not a and '**' not in k and all(is_str(x) for x in k.values()):
        import string
        fields = list(string.Formatter().parse(s))
        if not any(f[2] or f[3] for f in fields):
            for f in fields:
                if f[1] is not None and f[1] not in k:
                    if not f[1].isidentifier():
                        raise Unsupported('field of a format')
                    V.py_raise('KeyError', f[1])
            if all(f[1] is None for f in fields):
                return ''.join(f[0] for f in fields)
            return V.format_text(s, [k[f[1]] for f in fields if f[1] is not None])
    return SymStr(C.fresh('str', z3.IntSort()))


class FormatterV:
    " string.Formatter() "
    def get_attr(self, interp, name):
        import string
        if name != 'parse':
            raise Unsupported('Formatter.' + name)

        def parse(s):
            if not isinstance(s, str):
                raise Unsupported('Formatter.parse')
            try:
                return seq_of([seq_of(list(x)) for x in string.Formatter().parse(s)])
            except ValueError as e:
                V.py_raise('ValueError', str(e))
        return Builtin('parse', parse)


def f_translate(p):
    import fnmatch
    if not isinstance(p, str):
        raise Unsupported('fnmatch.translate')
    return fnmatch.translate(p)


STR = {n: str_meth(n) for n in ('isalpha', 'startswith', 'endswith', 'isidentifier', 'isdigit', 'lower', 'upper',
                                'strip', 'rstrip', 'lstrip', 'replace', 'split', 'rjust', 'ljust')}
STR.update(join=str_join, format=str_format)


def multimap_attr(o, name):
    raise Unsupported('grouped dict .%s' % name)


def counter_items(c):
    raise Unsupported('Counter.items')


# ---------------------------------------------------------------------------
# numpy
# ---------------------------------------------------------------------------
def arr_attr(a, name):
    if name == 'shape':
        return a.shape
    if name == 'ndim':
        return a.ndim
    if name == 'dtype':
        return a.dtype
    if name == 'size':
        r = 1
        for s in a.shape:
            r = mul(r, s)
        return r
    if name == 'T':
        return A.transpose(a)
    if name == 'real':
        return np_real(a)
    if name == 'imag':
        return np_imag(a)
    if name == 'flat':
        return flat(a)
    f = ARR.get(name)
    if f is not None:
        return Builtin(name, lambda *args, **k: f(a, *args, **k))
    raise Unsupported('array attribute %s' % name)


def flat(a):
    if a.ndim == 1:
        return a.iter_seq()
    if a.ndim == 0:
        return seq_of([a.get()])
    if a.ndim == 2:
        n, w = a.shape
        fn = a.fn
        if isinstance(w, int):
            return V.seq_flatten(SeqV(n, lambda k: tuple(fn(k, j) for j in range(w)))) if not isinstance(n, int) \
                else seq_of([fn(i, j) for i in range(n) for j in range(w)])
        if isinstance(n, int) and n == 1:
            return SeqV(w, lambda k: fn(0, k))
        if isinstance(n, int):
            return V.seq_concat(*[SeqV(w, lambda k, i=i: fn(i, k)) for i in range(n)])
    raise Unsupported('flat of %dd array' % a.ndim)


def np_real(a):
    if is_num(a):
        return num_attr(a, 'real')
    return A.umap(lambda v: num_attr(v, 'real'), asarray(a), F8)


def np_imag(a):
    if is_num(a):
        return num_attr(a, 'imag')
    return A.umap(lambda v: num_attr(v, 'imag'), asarray(a), F8)


def get_dtype(d):
    if d is None or isinstance(d, DType):
        return d
    if d is BUILTINS['float']:
        return F8
    if d is BUILTINS['int']:
        return I8
    if d is BUILTINS['bool']:
        return B1
    if d is BUILTINS['complex']:
        return C16
    if isinstance(d, Builtin) and hasattr(d, 'dtype'):
        return d.dtype
    if isinstance(d, Opaque) and hasattr(d, 'dtype'):
        return d.dtype
    raise Unsupported('dtype %r' % (d,))


def np_array(x, dtype=None, copy=True, **kw):
    d = get_dtype(dtype)
    a = asarray(x, d)
    if copy is False:
        return a
    return A.copy(a, d)


def np_asarray(x, dtype=None, **kw):
    return asarray(x, get_dtype(dtype))


def np_ndim(x):
    if is_num(x):
        return 0
    if isinstance(x, Arr):
        return x.ndim
    if is_tuple(x) or isinstance(x, (MList, RangeV)):
        s = seqv(x)
        if isinstance(s.n, int) and s.n == 0:
            return 1
        if not s.concrete:
            vals = A.probe_kind(s.n, s.get)
            if vals and all(is_num(v) for v in vals):
                return 1
            if not vals:
                return 1
            return 1 + max(np_ndim(v) for v in vals)
        return 1 + max(np_ndim(e) for e in s.list())
    return asarray(x).ndim


def np_shape(x):
    return asarray(x).shape


def np_arange(a, b=None, c=1, dtype=None):
    if b is None:
        a, b = 0, a
    if any(isinstance(v, Arr) for v in (a, b, c)):
        a, b, c = [v.item_scalar() if isinstance(v, Arr) else v for v in (a, b, c)]
    if not all(is_int(v) for v in (a, b, c)):
        if conc(c) and c == 1 and conc(a) and a == 0 and is_real(b):
            n = V.num_max(V.zceil(b), 0)
            return Arr((n,), lambda k: simp(zreal(k)) if isz(k) else Fraction(k), F8)
        raise Unsupported('arange of reals')
    n = V.range_len(a, b, c)
    r = Arr((n,), lambda k: add(a, mul(k, c)), I8)
    if isinstance(c, int):
        r.hints['range'] = (a, c)
        if c > 0:
            r.hints['increasing'] = True
            r.hints['distinct'] = True
    return r


def shape_of(s):
    if is_int(s):
        return (s,)
    return tuple(seqv(s).list())


def np_full(shape, v, dtype):
    sh = shape_of(shape)
    for s in sh:
        if not is_int(s):
            py_raise('TypeError', 'shape')
        if C.branch(cmp('<', s, 0)):
            py_raise('ValueError', 'negative dimensions')
    return Arr(sh, lambda *i: v, dtype)


def np_zeros(shape, dtype=None, **kw):
    d = get_dtype(dtype) or F8
    return np_full(shape, A.cast(0, d), d)


def np_ones(shape, dtype=None, **kw):
    d = get_dtype(dtype) or F8
    return np_full(shape, A.cast(1, d), d)


def np_empty(shape, dtype=None, **kw):
    d = get_dtype(dtype) or F8
    r = np_full(shape, None, d)
    sort = {'int': z3.IntSort(), 'bool': z3.BoolSort()}.get(d.kind, z3.RealSort())
    f = C.fresh_fun('uninit', [z3.IntSort()] * len(r.shape), sort)
    if r.shape:
        r._fn = lambda *i: f(*[zint(x) for x in i])
    return r


def np_tile(v, reps):
    if is_num(v):
        sh = shape_of(reps)
        return Arr(sh, lambda *i: v, A.dtype_of_value(v))
    raise Unsupported('tile')


def fl_elem(f):
    def g(x, **kw):
        if is_num(x):
            return f(x)
        a = asarray(x)
        return A.umap(f, a, F8) if a.ndim else f(a.get())
    return g


def as_float(v):
    return simp(zreal(v)) if isz(v) else (Fraction(v) if not isinstance(v, float) else v)


def np_floor(v):
    if V.isinf(v) or is_x(v):
        return v
    return as_float(V.zfloor(v))


def np_ceil(v):
    if V.isinf(v) or is_x(v):
        return v
    return as_float(V.zceil(v))


def np_rint(v):
    if V.isinf(v) or is_x(v):
        return v
    return as_float(V.zround(v))


SPACING = z3.Function('spacing', z3.RealSort(), z3.RealSort())


def np_spacing(v):
    """ distance to the next representable number: an arbitrary non-negative number for |v| """
    if V.isinf(v) or is_x(v):
        return V.NAN
    x = V.zreal(V.absv(v))
    t = SPACING(x)
    C.assume(t >= 0)
    lst = C.terms.setdefault('spacing', [])
    if not any(a.eq(x) for a, _ in lst):
        lst.append((x, t))
    return t


def np_trunc(v):
    raise Unsupported('trunc')


def np_where(c, a=None, b=None):
    c = asarray(c)
    if a is None:
        if c.ndim != 1:
            raise Unsupported('where of nd arrays')
        if c.dtype.kind != 'bool':
            c = A.umap(lambda v: cmp('!=', v, 0), c, B1)
        return (A.seq_arr(A.mask_to_index(c), I8),)
    a, b = asarray(a), asarray(b)
    d = A.promote(a.dtype, b.dtype)
    return A.emap(lambda x, y, z: ite(A.zb(x), A.cast(y, d), A.cast(z, d)), d, c, a, b)


def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        if is_x(x) or is_x(y):
            x, y = xnum(x), xnum(y)
            d = V.absv(sub(XNum(x.re, x.im), XNum(y.re, y.im)))
            lim = add(atol, mul(rtol, V.absv(XNum(y.re, y.im) if not (conc(y.im) and y.im == 0) else y.re)))
            return band(bnot(bor(x.nan, y.nan)), cmp('<=', d, lim))
        if V.isinf(x) or V.isinf(y):
            return cmp('==', x, y)
        return cmp('<=', V.absv(sub(x, y)), add(atol, mul(rtol, V.absv(y))))
    r = A.emap(f, B1, asarray(a), asarray(b))
    return r


def np_unique(x, **kw):
    if kw:
        raise Unsupported('unique options')
    a = asarray(x)
    s = V.sorted_distinct(a.iter_seq()) if a.ndim == 1 else V.sorted_distinct(flat(a))
    r = A.seq_arr(s, a.dtype)
    r.hints.update({k: v for k, v in s.hints.items()})
    return r


def np_union1d(a, b):
    a, b = asarray(a), asarray(b)
    d = A.promote(a.dtype, b.dtype)
    s = V.seq_concat(a.iter_seq(), b.iter_seq())
    if A.dim_eq(a.shape[0], 0):
        s = b.iter_seq()
    elif A.dim_eq(b.shape[0], 0):
        s = a.iter_seq()
    s = V.sorted_distinct(s)
    r = A.seq_arr(SeqV(s.n, lambda k: A.cast(s.get(k), d)) if not s.concrete else
                  seq_of([A.cast(e, d) for e in s.list()]), d)
    r.hints.update(s.hints)
    return r


def np_concatenate(x, axis=0):
    if isinstance(x, Arr):
        x = x.iter_seq()
    return A.concat_seq(seqv(x), axis)


def np_hstack(x):
    return A.concat_seq(seqv(x), 0)


def np_delete(a, idx, axis=None):
    a = asarray(a)
    if axis is None and a.ndim != 1:
        raise Unsupported('delete without axis')
    if axis not in (None, 0):
        raise Unsupported('delete along axis %s' % axis)
    n = a.shape[0]
    if is_int(idx):
        idx = seq_of([idx])
    ia = asarray(idx)
    if ia.ndim == 0:
        ia = Arr((1,), lambda k: ia.get(), ia.dtype)
    if ia.dtype.kind == 'bool':
        if not truth(cmp('==', ia.shape[0], n)):
            py_raise('ValueError')
        g = ia.fn
        keep = lambda k: bnot(A.zb(g(k)))
    else:
        m_ = ia.shape[0]
        f = ia.fn
        if A.dim_eq(m_, 0):
            return a
        if ia.dtype.kind == 'float':
            if C.branch(cmp('>', m_, 0)):
                py_raise('IndexError', 'arrays used as indices must be of integer (or boolean) type')
            return a
        ok = C.forall_branch(m_ if isinstance(m_, int) else zint(m_),
                             lambda k: simp(z3.And(zint(f(k)) < zint(n), zint(f(k)) >= -zint(n))))
        if not ok:
            py_raise('IndexError', 'index out of bounds')
        w = A.wrap_neg(ia, n)
        wf = w.fn
        seq = SeqV(m_, lambda k: wf(k)) if not isinstance(m_, int) else seq_of([wf(k) for k in range(m_)])
        if 'index_of' in ia.hints:
            seq.hints['index_of'] = ia.hints['index_of']
        if seq.concrete or 'index_of' in seq.hints:
            keep = lambda k: bnot(V.as_formula(lambda: V.seq_contains(seq, k)))
        else:
            inside = A.membership(m_, wf)
            keep = lambda k: z3.Not(inside(k))
    src = SeqV(n, lambda k: k) if not isinstance(n, int) else seq_of(list(range(n)))
    sel = V.seq_filter(src, keep)
    hook = getattr(it(), 'delete_hook', None)
    if hook is not None:
        hook(a, ia, sel)            # ghost: lemmas of the case on this deletion
    fn = a.fn
    r = Arr((sel.n,) + a.shape[1:], lambda k, *i: fn(sel.get(k), *i), a.dtype)
    if a.hints.get('increasing') or a.hints.get('range', (0, 0))[1] == 1:
        r.hints['increasing'] = True
        r.hints['distinct'] = True
    r.hints['sel'] = sel
    return r


def np_nonzero(a):
    return np_where(a)


def np_minimum(a, b):
    def f(x, y):
        if is_x(x) or is_x(y):
            x, y = xnum(x), xnum(y)
            r = ite(cmp('<', y.re, x.re), y.re, x.re)
            return V.xmk(r, 0, bor(x.nan, y.nan))
        return V.num_min(x, y)
    return lift2(f, a, b)


def np_maximum(a, b):
    def f(x, y):
        if is_x(x) or is_x(y):
            x, y = xnum(x), xnum(y)
            r = ite(cmp('>', y.re, x.re), y.re, x.re)
            return V.xmk(r, 0, bor(x.nan, y.nan))
        return V.num_max(x, y)
    return lift2(f, a, b)


def lift2(f, a, b):
    if is_num(a) and is_num(b):
        return f(a, b)
    a, b = asarray(a), asarray(b)
    return A.emap(f, A.promote(a.dtype, b.dtype), a, b)


def lift1(f, dtype=None):
    def g(x, **kw):
        if is_num(x):
            return f(x)
        x = asarray(x)
        d = dtype or (F8 if A.RANK[x.dtype.kind] < 2 else x.dtype)
        return A.umap(f, x, d) if x.ndim else f(x.get())
    return g


def np_abs(x):
    return b_abs(asarray(x) if not is_num(x) else x)


def np_max(x, axis=None):
    a = asarray(x)
    if a.ndim == 0:
        return a.get()
    if a.ndim == 1 and axis in (None, 0):
        return fold_cmp([a.iter_seq()], None, None, '>')
    raise Unsupported('max')


def no_axis(axis):
    if axis is not None:
        raise Unsupported('reduction along an axis')


def np_all(x, axis=None):
    no_axis(axis)
    a = asarray(x)
    if a.ndim == 0:
        return as_cond(a.get())
    if a.ndim > 1:
        fn = a.fn
        return b_all(SeqV(a.shape[0], lambda k: V.as_formula(lambda: V.truth(np_all(
            Arr(a.shape[1:], lambda *i: fn(k, *i), a.dtype))))))
    return b_all(a.iter_seq())


def np_any(x, axis=None):
    no_axis(axis)
    a = asarray(x)
    if a.ndim == 0:
        return as_cond(a.get())
    if a.ndim > 1:
        fn = a.fn
        return b_any(SeqV(a.shape[0], lambda k: V.as_formula(lambda: V.truth(np_any(
            Arr(a.shape[1:], lambda *i: fn(k, *i), a.dtype))))))
    return b_any(a.iter_seq())


def np_nanmedian(x):
    a = asarray(x)
    if a.ndim != 1:
        raise Unsupported('nanmedian')
    r, = A.uf_op('nanmedian', [(a.shape, a.fn)], [])
    return r


def np_diag(a):
    a = asarray(a)
    if a.ndim == 2:
        fn = a.fn
        return Arr((a.shape[0],), lambda k: fn(k, k), a.dtype)
    raise Unsupported('diag of 1d')


def la_solve(A_, b, **kw):
    a, b = asarray(A_), asarray(b)
    if set(kw) - {'check_finite'}:
        raise Unsupported('options of solve')
    return linear_op('solve', a, b)


def batched_solve(a, b):
    " stack of systems; numpy 1.26: b is a stack of vectors when it has one dimension less "
    if a.ndim != 3 or b.ndim != 2:
        raise Unsupported('stack of systems')
    K, n, m2 = a.shape
    if not truth(cmp('==', n, m2)):
        py_raise('LinAlgError', 'square matrix expected')
    if not truth(cmp('==', b.shape[1], n)) or not truth(cmp('==', b.shape[0], K)):
        py_raise('ValueError', 'incompatible dimensions')
    if C.branch(C.fresh('singular', z3.BoolSort())):
        py_raise('LinAlgError', 'singular matrix')
    cplx = a.dtype.kind == 'complex' or b.dtype.kind == 'complex'
    dom = [z3.IntSort()] * 2
    fre = z3.Function('solve_re1', *(dom + [z3.RealSort()]))
    fim = z3.Function('solve_im1', *(dom + [z3.RealSort()]))
    fa, fb = a.fn, b.fn

    def fn(k, q):
        tok, = A.uf_op('solve', [((n, n), lambda i, j: fa(k, i, j)), ((n,), lambda i: fb(k, i))], [], ['tok'], [z3.IntSort()])
        t = [tok, zint(q)]
        return XNum(fre(*t), fim(*t)) if cplx else fre(*t)
    r = Arr((K, n), fn, C16 if cplx else F8, scoped=True)
    it().solves.append(('batch', a, b, r))
    return r


def np_einsum(spec, *ops):
    if not isinstance(spec, str) or '->' not in spec or '.' in spec:
        raise Unsupported('einsum subscripts')
    lhs, out = spec.replace(' ', '').split('->')
    subs = lhs.split(',')
    ops = [asarray(o) for o in ops]
    if len(subs) != len(ops) or any(len(set(s)) != len(s) for s in subs) or len(set(out)) != len(out):
        raise Unsupported('einsum subscripts')
    dims = {}
    for s, o in zip(subs, ops):
        if len(s) != o.ndim:
            py_raise('ValueError', 'einsum: number of subscripts')
        for c, n in zip(s, o.shape):
            if c in dims and not A.dim_eq(dims[c], n):
                if not C.valid(zint(dims[c]) == zint(n)):
                    raise Unsupported('einsum: broadcast')
            dims.setdefault(c, n)
    inner = [c for c in dims if c not in out]
    fns = [o.fn for o in ops]

    def elem(*i):
        at = dict(zip(out, i))

        def level(cs):
            if not cs:
                r = None
                for s, f in zip(subs, fns):
                    x = f(*[at[c] for c in s])
                    r = x if r is None else mul(r, x)
                return r

            def term(k):
                at[cs[0]] = k
                return level(cs[1:])
            return A.sum_red(dims[cs[0]], term)
        return level(inner)
    shape = tuple(dims[c] for c in out)
    d = A.promote(*[o.dtype for o in ops])
    return Arr(shape, elem, d, scoped=True) if shape else elem()


def np_sign(v):
    if is_x(v):
        raise Unsupported('sign of a complex number')
    return ite(cmp('>', v, 0), 1, ite(cmp('<', v, 0), -1, 0))


def linear_op(op, a, b):
    if op == 'solve' and a.ndim > 2:
        return batched_solve(a, b)
    n, m2 = a.shape
    if not truth(cmp('==', n, m2)):
        py_raise('ValueError', 'square matrix expected')
    arrays = [(a.shape, a.fn)]
    if b is not None:
        if not truth(cmp('==', b.shape[0], n)):
            py_raise('ValueError', 'incompatible dimensions')
        arrays.append((b.shape, b.fn))
    if C.branch(C.fresh('singular', z3.BoolSort())):
        py_raise('LinAlgError', 'singular matrix')
    tok, = A.uf_op(op, arrays, [], ['tok'], [z3.IntSort()])
    shape = b.shape if b is not None else a.shape
    cplx = a.dtype.kind == 'complex' or (b is not None and b.dtype.kind == 'complex')
    dom = [z3.IntSort()] * (1 + len(shape))
    fre = z3.Function(op + '_re%d' % len(shape), *(dom + [z3.RealSort()]))
    fim = z3.Function(op + '_im%d' % len(shape), *(dom + [z3.RealSort()]))

    def fn(*i):
        t = [tok] + [zint(x) for x in i]
        return XNum(fre(*t), fim(*t)) if cplx else fre(*t)
    r = Arr(shape, fn, C16 if cplx else F8)
    r.hints['solve'] = (a, b)
    it().solves.append((op, a, b, r))
    return r


def la_inv(a):
    return linear_op('inv', asarray(a), None)


def la_norm(x, ord=None, axis=None):
    a = asarray(x)
    if ord is not None or axis is not None:
        raise Unsupported('norm options')
    if a.ndim != 1:
        raise Unsupported('norm of nd arrays')
    fn = a.fn

    def sq(k):
        v = fn(k)
        if is_x(v):
            v = xnum(v)
            return add(mul(v.re, v.re), mul(v.im, v.im))
        return mul(v, v)
    return V.sqrt(A.sum_red(a.shape[0], sq))


def np_transpose(x):
    return A.transpose(asarray(x))


def arr_reshape(a, *shape):
    sh = shape_of(shape[0]) if len(shape) == 1 and not is_int(shape[0]) else shape
    sh = list(sh)
    if a.ndim == 1 and sh and conc(sh[0]) and sh[0] == -1 and all(conc(s) and s == 1 for s in sh[1:]):
        n = a.shape[0]
        return Arr((n,) + tuple(sh[1:]), None, a.dtype, base=a, vmap=lambda k, *i: (k,),
                   vinv=lambda k: (True, (k,) + (0,) * (len(sh) - 1)))
    if len(sh) == a.ndim and all(truth(cmp('==', s, t)) if not (conc(s) and s == -1) else True
                                 for s, t in zip(sh, a.shape)):
        return a
    if len(sh) == 2 and a.ndim >= 1:
        # split of the first axis in blocks
        nb, size = sh
        n = a.shape[0]
        if truth(cmp('==', mul(nb, size), n)) and a.ndim == 1:
            return Arr((nb, size), None, a.dtype, base=a, vmap=lambda i, j: (add(mul(i, size), j),),
                       vinv=lambda k: (True, (V.floordiv(k, size), V.mod(k, size))))
    if len(sh) == a.ndim + 1 and a.ndim >= 2:
        nb, size = sh[:2]
        if truth(cmp('==', mul(nb, size), a.shape[0])):
            return Arr(tuple(sh), None, a.dtype, base=a, vmap=lambda i, j, *r: (add(mul(i, size), j),) + r,
                       vinv=lambda k, *r: (True, (V.floordiv(k, size), V.mod(k, size)) + r))
    raise Unsupported('reshape')


def arr_ravel(a):
    if a.ndim == 1:
        return a
    if a.ndim == 2:
        n, w = a.shape
        fn = a.fn
        if isinstance(w, int):
            if isinstance(n, int):
                return A.seq_arr(flat(a), a.dtype)
            return Arr((mul(n, w),), lambda k: pick(fn, V.floordiv(k, w), V.mod(k, w), w), a.dtype)
    raise Unsupported('ravel')


def pick(fn, i, j, w):
    if isinstance(j, int):
        return fn(i, j)
    t = C.select([zint(j) == x for x in range(w)])
    return fn(i, t)


def arr_astype(a, d, **kw):
    return A.copy(a, get_dtype(d))


def arr_mean(a):
    s = A.np_sum(a)
    return div(s, a.shape[0])


def arr_conj(a):
    if is_num(a):
        return conj(a)
    return A.umap(conj, asarray(a))


ARR = dict(conjugate=arr_conj, conj=arr_conj, dot=lambda a, b: A.dot(a, b), reshape=arr_reshape, ravel=arr_ravel,
           astype=arr_astype, sum=lambda a, axis=None: A.np_sum(a, axis), mean=arr_mean, copy=lambda a: A.copy(a),
           any=lambda a: np_any(a), all=lambda a: np_all(a), max=lambda a, axis=None: np_max(a, axis),
           transpose=lambda a: A.transpose(a), tolist=lambda a: MList(a.iter_seq()),
           compute=lambda a, **k: a, rechunk=lambda a, *x, **k: a, item=lambda a: a.item_scalar(),
           flatten=lambda a: arr_ravel(A.copy(a)))


class ErrState:
    def enter(self):
        return None, (lambda: None)


def np_add_outer(a, b):
    a, b = asarray(a), asarray(b)
    fa, fb = a.fn, b.fn
    if a.ndim == 1 and b.ndim == 1:
        return Arr(a.shape + b.shape, lambda i, j: add(fa(i), fb(j)), A.promote(a.dtype, b.dtype))
    raise Unsupported('add.outer')


def np_true_divide(a, b):
    if is_num(a) and is_num(b):
        return A.np_div(a, b)
    return A.np_binop('/', a, b)


def np_sum(x, axis=None):
    return A.np_sum(asarray(x), axis)


def np_angle(v, deg=False):
    v = xnum(v)
    r = V.ANGLE(zreal(v.re), zreal(v.im))
    return np_degrees(r) if deg else r


def np_arctan2(y, x):
    if not (is_num(x) and is_num(y)) or is_x(x) or is_x(y):
        raise Unsupported('arctan2')
    return V.ANGLE(zreal(x), zreal(y))


def np_degrees(x):
    " degrees(x) * pi == 180 * x "
    x = zreal(x)
    d = z3.Function('degrees', z3.RealSort(), z3.RealSort())(x)
    C.assume(z3.And(d * V.PI == 180 * x, V.PI > 3))
    return d


def np_median_dummy(*a):
    raise Unsupported('median')


NP = dict(
    array=np_array, asarray=np_asarray, ndim=np_ndim, shape=np_shape, arange=np_arange, zeros=np_zeros,
    ones=np_ones, empty=np_empty, tile=np_tile, floor=fl_elem(np_floor), ceil=fl_elem(np_ceil),
    round=fl_elem(np_rint), rint=fl_elem(np_rint), around=fl_elem(np_rint), spacing=fl_elem(np_spacing),
    where=np_where, isclose=np_isclose, unique=np_unique, union1d=np_union1d, concatenate=np_concatenate,
    hstack=np_hstack, delete=np_delete, nonzero=np_nonzero, minimum=np_minimum, maximum=np_maximum,
    exp=lift1(V.exp), log=lift1(V.log, F8), sqrt=lift1(V.sqrt), abs=np_abs, absolute=np_abs, max=np_max, amax=np_max,
    all=np_all, any=np_any, nanmedian=np_nanmedian, diag=np_diag, transpose=np_transpose, real=np_real, imag=np_imag,
    errstate=lambda **k: ErrState(), true_divide=np_true_divide, divide=np_true_divide, sum=np_sum,
    einsum=np_einsum, sign=lift1(np_sign), dot=A.dot, conj=arr_conj, conjugate=arr_conj, atleast_1d=lambda x: asarray(x) if asarray(x).ndim else
    Arr((1,), lambda k: asarray(x).get(), asarray(x).dtype), isnan=lift1(lambda v: xnum(v).nan if is_x(v) else False, B1),
    sort=lambda x: A.seq_arr(V.seq_sorted(asarray(x).iter_seq()), asarray(x).dtype),
    array_equal=None, full=lambda s, v, dtype=None: np_full(s, v, get_dtype(dtype) or A.dtype_of_value(v)),
    logical_or=lambda a, b: A.np_binop('|', a, b), logical_and=lambda a, b: A.np_binop('&', a, b),
    logical_not=lambda a: asarray(a).unary('invert'), flatnonzero=lambda a: np_where(a)[0],
    stack=lambda x, axis=0: A.stack([asarray(e) for e in seqv(x).list()]) if axis == 0 else None,
    take=lambda a, i: asarray(a).getitem(i if V.is_num(i) else asarray(i)), vstack=None, cumsum=None, diff=None, setdiff1d=None,
    count_nonzero=lambda a: A.mask_to_index(asarray(a)).n,
    size=lambda a: arr_attr(asarray(a), 'size'), angle=np_angle, square=lift1(lambda v: mul(v, v)),
    isin=None, in1d=None, copy=lambda a: A.copy(a), ravel=lambda a: arr_ravel(asarray(a)),
    zeros_like=lambda a: np_full(asarray(a).shape, A.cast(0, asarray(a).dtype), asarray(a).dtype),
    isfinite=lift1(lambda v: not V.isinf(v) if not is_x(v) else bnot(xnum(v).nan), B1),
)


def np_isin(a, b):
    a, b = asarray(a), asarray(b)
    s = b.iter_seq()
    return A.umap(lambda v: V.as_formula(lambda: V.seq_contains(s, v)), a, B1)


NP['isin'] = NP['in1d'] = np_isin
NP = {k: v for k, v in NP.items() if v is not None}

LIBFUN = {}


def sliding_window_view(x, window_shape, axis=None):
    " windows of a 1d array (every start position) "
    a = asarray(x)
    if a.ndim != 1:
        raise Unsupported('sliding windows of an nd array')
    L = window_shape
    if is_tuple(L):
        L, = seqv(L).list()
    if not is_int(L):
        py_raise('TypeError')
    if C.branch(V.zbool(V.bor(cmp('<', L, 0), cmp('>', L, a.shape[0])))):
        py_raise('ValueError', 'window shape cannot be larger than input array shape')
    fn = a.fn
    return Arr((V.add(V.sub(a.shape[0], L), 1), L), lambda i, j: fn(V.simp(V.add(i, j))), a.dtype)


def install(interp):
    interp.solves = []
    np = ModV('numpy')
    for k, f in NP.items():
        np.attrs[k] = Builtin('numpy.' + k, f)
    np.attrs['add'] = Builtin('numpy.add', lambda a, b: A.np_binop('+', a, b))
    np.attrs['multiply'] = Builtin('numpy.multiply', lambda a, b: A.np_binop('*', a, b))
    np.attrs['subtract'] = Builtin('numpy.subtract', lambda a, b: A.np_binop('-', a, b))
    LIBFUN['numpy.add.outer'] = Builtin('numpy.add.outer', np_add_outer)
    np.attrs['angle'] = Builtin('numpy.angle', np_angle)
    np.attrs['arctan2'] = Builtin('numpy.arctan2', np_arctan2)
    for k in ('degrees', 'rad2deg'):
        np.attrs[k] = Builtin('numpy.' + k, lift1(np_degrees, F8))
    for k in ('radians', 'deg2rad'):
        np.attrs[k] = Builtin('numpy.' + k, lift1(lambda x: V.div(mul(x, V.PI), 180), F8))
    np.attrs['inf'] = V.INF
    np.attrs['nan'] = V.NAN
    np.attrs['pi'] = V.PI
    np.attrs['newaxis'] = None
    np.attrs['ndarray'] = ClassV('ndarray', [OBJECT], {})

    def dt(name, d):
        b = Builtin('numpy.' + name, lambda x=0: A.cast(x, d))
        b.dtype = d
        return b
    np.attrs['int32'] = dt('int32', DType('int', 4, 'int32'))
    np.attrs['int64'] = dt('int64', I8)
    np.attrs['float64'] = dt('float64', F8)
    np.attrs['dtype'] = Builtin('numpy.dtype', get_dtype)
    la = ModV('numpy.linalg', dict(norm=Builtin('norm', la_norm), inv=Builtin('inv', la_inv),
                                   solve=Builtin('solve', la_solve), LinAlgError=EXC['LinAlgError']))
    np.attrs['linalg'] = la
    interp.lib['numpy'] = np
    interp.lib['numpy.linalg'] = la
    sp = ModV('scipy', dict(linalg=ModV('scipy.linalg', dict(solve=Builtin('solve', la_solve),
                                                             inv=Builtin('inv', la_inv)))))
    interp.lib['scipy'] = sp
    interp.lib['scipy.linalg'] = sp.attrs['linalg']
    win = ModV('scipy.signal.windows', {})
    sp.attrs['signal'] = ModV('scipy.signal', dict(windows=win))
    interp.lib['scipy.signal'] = sp.attrs['signal']
    sp.attrs['interpolate'] = ModV('scipy.interpolate', {})
    interp.lib['scipy.interpolate'] = sp.attrs['interpolate']
    sp.attrs['special'] = ModV('scipy.special', {})
    interp.lib['scipy.special'] = sp.attrs['special']
    interp.lib['dask'] = ModV('dask')
    interp.lib['dask.array'] = ModV('dask.array', dict(
        asarray=Builtin('dask.asarray', np_asarray), arange=Builtin('dask.arange', np_arange),
        dot=Builtin('dask.dot', A.dot),
        compute=Builtin('dask.compute', lambda *a, **k: _compute(a)),
        from_array=Builtin('dask.from_array', lambda a, *x, **k: np_asarray(a)),
        concatenate=Builtin('dask.concatenate', np_concatenate),
        overlap=ModV('dask.array.overlap', dict(sliding_window_view=Builtin('sliding_window_view', sliding_window_view))),
        lib=ModV('dask.array.lib', dict(stride_tricks=ModV('st', dict(
            sliding_window_view=Builtin('sliding_window_view', sliding_window_view))))),
    ))
    interp.lib['dask'].attrs['array'] = interp.lib['dask.array']
    for name in ('warnings', 'fnmatch', 'os', 'sys', 're', 'string', 'struct', 'glob', 'pathlib', 'datetime',
                 'typing', 'functools', 'itertools', 'collections', 'collections.abc', 'click', 'pkg_resources',
                 'os.path', 'math', 'numbers'):
        interp.lib[name] = ModV(name)
    L = interp.lib
    L['collections'].attrs['abc'] = L['collections.abc']
    L['os'].attrs['path'] = L['os.path']
    L['typing'].attrs['NamedTuple'] = Builtin('NamedTuple', I._unmodelled('NamedTuple'))
    L['functools'].attrs['reduce'] = Builtin('reduce', f_reduce)
    L['functools'].attrs['partial'] = Builtin('partial', f_partial)
    L['itertools'].attrs['chain'] = Builtin('itertools.chain', f_chain)
    LIBFUN['itertools.chain.from_iterable'] = Builtin('from_iterable', lambda x: V.seq_flatten(
        seqv(x).map(lambda e: seqv(e))))
    L['itertools'].attrs['starmap'] = Builtin('starmap', f_starmap)
    L['collections'].attrs['Counter'] = Builtin('Counter', f_counter)
    L['collections'].attrs['namedtuple'] = Builtin('namedtuple', f_namedtuple)
    L['warnings'].attrs['warn'] = Builtin('warn', lambda *a, **k: interp.effect('warn', a))
    L['fnmatch'].attrs['filter'] = Builtin('fnmatch.filter', f_fnfilter)
    L['fnmatch'].attrs['translate'] = Builtin('fnmatch.translate', f_translate)
    L['string'].attrs['Formatter'] = Builtin('string.Formatter', FormatterV)
    # names are not changed by normcase on this platform
    for k in ('fnmatch', 'fnmatchcase'):
        L['fnmatch'].attrs[k] = Builtin('fnmatch.' + k, f_fnmatch)
    for mname, fs in (('math', dict(floor=V.zfloor, ceil=V.zceil, sqrt=V.sqrt, isnan=lambda v: False,
                                    fabs=V.absv)),):
        for k, f in fs.items():
            L[mname].attrs[k] = Builtin(mname + '.' + k, f)
    L['math'].attrs['inf'] = V.INF
    L['math'].attrs['pi'] = V.PI
    from . import fs
    fs.install(interp)
    interp.effects = []
    interp.effect = lambda kind, data: interp.effects.append((kind, data))
    prelude(interp)


def _compute(args):
    s = star_args(args)
    return tuple(s.list()) if s.concrete else s


def f_reduce(f, seq, *init):
    s = seqv(seq)
    if not s.concrete:
        h = getattr(it(), 'reduce_hook', None)
        if h is not None:
            r = h(f, s, init)
            if r is not None:
                return r[0]
        return reduce_sym(f, s, init)
    items = s.list()
    if init:
        acc = init[0]
    else:
        if not items:
            py_raise('TypeError', 'reduce of empty sequence')
        acc = items.pop(0)
    for e in items:
        acc = it().call(f, [acc, e], {})
    return acc


def reduce_sym(f, s, init):
    if isinstance(f, Builtin) and f.fn is np_union1d and init:
        # union of all
        parts = SeqV(s.n, lambda k: asarray(s.get(k)).iter_seq())
        return np_union1d(init[0], A.seq_arr(V.sorted_distinct(V.seq_flatten(parts)), asarray(init[0]).dtype))
    raise Unsupported('reduce over a symbolic sequence')


def f_partial(f, *a, **k):
    return Builtin('partial', lambda *b, **kk: it().call(f, list(a) + list(b), {**k, **kk}))


def f_chain(*args):
    s = star_args(args)
    if s.concrete:
        return V.seq_concat(*[seqv(e) for e in s.list()])
    return V.seq_flatten(SeqV(s.n, lambda k: seqv(s.get(k))))


def f_starmap(f, x):
    s = seqv(x)
    return it().map_seq(s.n, lambda k: it().call(f, seqv(s.get(k)).list(), {}))


def f_counter(x=None):
    if x is None:
        return CounterV([])
    return CounterV([seqv(x)])


def f_namedtuple(name, fields):
    c = ClassV(name, [OBJECT], {})
    c.fields = fields.split() if isinstance(fields, str) else seqv(fields).list()
    return c


FNMATCH = z3.Function('fnmatch', z3.IntSort(), z3.IntSort(), z3.BoolSort())


def f_fnfilter(names, pat):
    s = seqv(names)
    if s.concrete and isinstance(pat, str) and all(isinstance(e, str) for e in s.list()):
        import fnmatch
        return MList(fnmatch.filter(s.list(), pat))
    return MList(V.seq_filter(s, lambda k: FNMATCH(V.zterm(s.get(k)), V.zterm(pat))))


def f_fnmatch(name, pat):
    if isinstance(name, str) and isinstance(pat, str):
        import fnmatch
        return fnmatch.fnmatchcase(name, pat)
    return FNMATCH(V.zterm(name), V.zterm(pat))


PRELUDE = '''
class MutableMapping:
    def __contains__(self, key):
        try:
            self[key]
        except KeyError:
            return False
        else:
            return True
    def get(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            return default
    def update(self, other=(), /, **kwds):
        for key in other:
            self[key] = other[key]
        for key, value in kwds.items():
            self[key] = value
    def pop(self, key, *default):
        try:
            value = self[key]
        except KeyError:
            if not default:
                raise
            return default[0]
        else:
            del self[key]
            return value
    def setdefault(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            self[key] = default
        return default
    def keys(self):
        return _keys_view(self)
    def values(self):
        return _values_view(self)
    def items(self):
        return _items_view(self)
    def clear(self):
        for key in list(self):
            del self[key]
    def popitem(self):
        raise NotImplementedError
'''


def prelude(interp):
    mod = ModV('collections.abc')
    mod.attrs['_keys_view'] = Builtin('keys', lambda o: keys_view(o))
    mod.attrs['_values_view'] = Builtin('values', lambda o: it().mapping_of(o).values())
    mod.attrs['_items_view'] = Builtin('items', lambda o: dict_items(it().mapping_of(o)))
    env = Env(None, mod)
    env.vars = mod.attrs
    src = PRELUDE
    tree = ast.parse(src)
    for st in tree.body:
        interp.exec(st, env)
    interp.lib['collections.abc'].attrs['MutableMapping'] = mod.attrs['MutableMapping']
    interp.lib['collections.abc'].attrs['Mapping'] = mod.attrs['MutableMapping']


def keys_view(o):
    k = it().iter_seq(o)
    k.hints['distinct'] = True
    return k
