""" io/binary_file_array.py: C23 (indexing a file-backed array) """
from .base import *
from pyvc import fs
from pyvc.values import SliceV

KINDS = ('int', 'step None', 'step > 0', 'step < 0')


def index(v, kind, nm=''):
    " an arbitrary index of the kind "
    if kind == 'int':
        return v.int('i' + nm)
    a, b = z3.Int('start' + nm), z3.Int('stop' + nm)
    C.inputs.update({'start' + nm: a, 'stop' + nm: b})
    if not C.select([z3.Bool('start%s is None' % nm), Not(z3.Bool('start%s is None' % nm))]):
        a = None
    if not C.select([z3.Bool('stop%s is None' % nm), Not(z3.Bool('stop%s is None' % nm))]):
        b = None
    s = None
    if kind != 'step None':
        s = v.int('step' + nm)
        C.assume(s > 0 if kind == 'step > 0' else s < 0)
    return SliceV(a, b, s)


def out_of_range(i, d):
    return Or(i < -d, i >= d)


def to_slice(v, kind):
    d = v.int('dim', 1)
    ind = index(v, kind)
    proxy = Obj(v.func('io.binary_file_array.BinaryFileArray_1D'), {})
    st, r = v.attempt('io.binary_file_array.BaseArrayProxy._to_slice', proxy, ind, d)
    if st == 'raise':
        v.prove('only an integer out of range is rejected', out_of_range(ind, d) if kind == 'int' else z3.BoolVal(False))
        v.prove('rejected with IndexError', z3.BoolVal(r == 'IndexError'))
        v.reached('rejection')
        return
    if kind == 'int':
        v.prove('integer in range', Not(out_of_range(ind, d)))
    sl, fin = seq_of(r).list()
    F = z3.Function('F', INT, REAL)
    arr = Arr((d,), lambda k: F(zint(k)), F8)
    v.expect('the first index is a slice', isinstance(sl, SliceV))
    ok = all(e is not None and V.is_int(e) for e in (sl.start, sl.stop, sl.step))
    v.expect('with integer bounds', ok)
    v.prove('forward, inside the array', And(zint(sl.start) >= 0, zint(sl.stop) <= d, zint(sl.step) >= 1))
    same_array(v, A.arr_getitem(arr, ind), A.arr_getitem(A.asarray(A.arr_getitem(arr, sl)), fin))
    v.reached()


def same_array(v, want, got):
    if not isinstance(want, Arr):
        v.prove('a scalar', z3.BoolVal(V.is_num(got)))
        v.prove('same value', cmp('==', want, got))
        return
    v.prove('an array of the same rank', z3.BoolVal(isinstance(got, Arr) and got.ndim == want.ndim))
    v.prove('same shape', And(*[zint(a) == zint(b) for a, b in zip(want.shape, got.shape)]))
    if want.ndim == 1:
        v.forall('same values', want.shape[0], lambda k: cmp('==', want.get(k), got.get(k)))
    else:
        v.forall2('same values', want.shape[0], want.shape[1], lambda k, j: cmp('==', want.get(k, j), got.get(k, j)))


for kind in KINDS:
    case('C23', 'io.binary_file_array.BaseArrayProxy._to_slice', kind,
         reach=('normal end',) + (('rejection',) if kind == 'int' else ()))(lambda v, kind=kind: to_slice(v, kind))


def any_dtype(v):
    size = v.int('itemsize', 1)
    return A.DType('float', size, 'any')


def file(v):
    path = SymStr(z3.Int('path'))
    offset, size = v.int('offset', 0), v.int('size', 1)
    C.inputs['file size'] = fs.FSIZE(path.id)
    return path, offset, size, any_dtype(v)


def avail(path, offset, d):
    return V.floordiv(sub(fs.FSIZE(path.id), offset), d.itemsize)


def make(v):
    " a file-backed array, built by its constructor "
    path, offset, size, d = file(v)
    st, o = v.attempt('io.binary_file_array.BinaryFileArray_1D', path, offset, size, d)
    return st, o, path, offset, size, d


@case('C23', 'io.binary_file_array.BinaryFileArray_1D.__init__', 'exposed size', reach=('normal end', 'rejection'))
def _(v):
    st, o, path, offset, size, d = make(v)
    n = avail(path, offset, d)
    if st == 'raise':
        v.prove('rejected only without file or without value', Or(Not(fs.ISFILE(path.id)), n < 1))
        v.reached('rejection')
        return
    sh = seq_of(v.attr(o, 'shape'))
    v.prove('one dimension', cmp('==', sh.n, 1))
    n1 = sh.get(0)
    v.prove('values requested or available', zint(n1) == If(n < size, n, size))
    warned = any(k == 'warn' for k, _ in v.interp.effects)
    v.prove('a warning if and only if the file is too short', (n < size) == warned)
    v.prove('dtype', z3.BoolVal(v.attr(o, 'dtype') is d))
    v.reached()


def getitem(v, kind):
    st, o, path, offset, size, d = make(v)
    if st == 'raise':
        raise PathEnd()
    n, = seq_of(v.attr(o, 'shape')).list()
    full = Arr((n,), lambda k: fs.value_at(d, path.id, add(offset, mul(k, d.itemsize))), d)
    multi = kind.startswith('tuple ')
    ind = index(v, kind[6:] if multi else kind)
    del v.interp.effects[:]
    st, r = v.attempt(v.attr(o, '__getitem__'), SeqV(1, lambda k: ind, items=[ind]) if multi else ind)
    if st == 'raise':
        v.prove('only an integer out of range is rejected', out_of_range(ind, zint(n)) if V.is_int(ind) else z3.BoolVal(False))
        v.prove('rejected with IndexError', z3.BoolVal(r == 'IndexError'))
        v.reached('rejection')
        return
    if V.is_int(ind):
        v.prove('integer in range', Not(out_of_range(ind, zint(n))))
    same_array(v, A.arr_getitem(full, ind), r)
    reads = [e for k, e in v.interp.effects if k == 'read']
    # only the requested part is read: between the first and the last value requested
    if V.is_int(ind):
        pos = If(ind < 0, ind + zint(n), ind)
        lo, cnt = pos, z3.IntVal(1)
    elif ind.step is None or kind.endswith('step > 0'):
        a, b, _ = ind.indices(n)
        lo, cnt = zint(a), zint(V.num_max(sub(b, a), 0))
    else:
        lo, cnt = z3.IntVal(0), zint(n)
    for t, p, m in reads:
        v.prove('reads this file only', t == path.id)
        v.prove('reads only the requested part', Or(zint(m) == 0, And(
            zint(p) >= offset + lo * d.itemsize, zint(p) + zint(m) <= offset + (lo + cnt) * d.itemsize)))
    v.reached()


for kind in KINDS + tuple('tuple ' + k for k in KINDS):
    case('C23', 'io.binary_file_array.BaseArrayProxy.__getitem__', kind,
         reach=('normal end',) + (('rejection',) if kind.endswith('int') else ()))(lambda v, kind=kind: getitem(v, kind))


@case('C23', 'io.binary_file_array.BaseArrayProxy.__getitem__', 'empty tuple and too many indices')
def _(v):
    st, o, path, offset, size, d = make(v)
    if st == 'raise':
        raise PathEnd()
    n, = seq_of(v.attr(o, 'shape')).list()
    full = Arr((n,), lambda k: fs.value_at(d, path.id, add(offset, mul(k, d.itemsize))), d)
    r = v.call(v.attr(o, '__getitem__'), ())
    same_array(v, full, r)
    st, r = v.attempt(v.attr(o, '__getitem__'), (v.int('i'), v.int('j')))
    v.prove('too many indices are rejected', z3.BoolVal((st, r) == ('raise', 'IndexError')))
    v.reached()


def getitem2(v, k0, k1):
    " any subclass with two dimensions, whose extract(slices) gives the part of its array "
    n, m = v.int('n', 1), v.int('m', 1)
    cls = v.func('io.binary_file_array.BaseArrayProxy')
    full = v.array('F', (n, m), F8)
    sub_ = I.ClassV('Sub', [cls], {'extract': I.Builtin('extract', lambda o, idx: A.arr_getitem(full, tuple(seq_of(idx).list())))})
    o = v.call(sub_, None, (n, m), I.Builtin('float64', None) if False else v.interp.lib['numpy'].attrs['float64'])
    i0 = index(v, k0, '0')
    ind = [i0]
    if k1 is not None:
        ind.append(index(v, k1, '1'))
    st, r = v.attempt(v.attr(o, '__getitem__'), tuple(ind))
    bad = Or(*[out_of_range(i, d) for i, d in zip(ind, (n, m)) if V.is_int(i)] + [z3.BoolVal(False)])
    if st == 'raise':
        v.prove('only an integer out of range is rejected', bad)
        v.prove('rejected with IndexError', z3.BoolVal(r == 'IndexError'))
        return
    v.prove('integers in range', Not(bad))
    same_array(v, A.arr_getitem(full, tuple(ind)), r)
    v.reached()


for k0 in KINDS:
    for k1 in (None,) + KINDS:
        case('C23', 'io.binary_file_array.BaseArrayProxy.__getitem__', 'two dimensions: %s, %s' % (k0, k1 or 'nothing'))(
            lambda v, k0=k0, k1=k1: getitem2(v, k0, k1))
