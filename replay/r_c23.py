" C23: file-backed arrays "
import os
import shutil
import tempfile
import warnings
import numpy as np
from .core import scenario, Skip, expect_raise
from razorback.io.binary_file_array import BinaryFileArray_1D, BaseArrayProxy, to_dask_array

DTYPES = ['<i4', '<i2', '<f8', '>i4', '<u1', '<f4']


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='verif-c23-')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def make(t, d):
    " (path, offset, dtype, whole array, size announced) "
    r, g = t.rng, t.np
    dt = np.dtype(r.choice(DTYPES))
    off = r.choice([0, 1, 7, 16, 1024])
    n = r.choice([1, 2, 3, 7, 20, 113])
    full = np.frombuffer(g.bytes(n * dt.itemsize), dt) if dt.kind != 'f' else g.normal(size=n).astype(dt)
    extra = r.randrange(dt.itemsize)
    path = os.path.join(d, 'f.bin')
    with open(path, 'wb') as f:
        f.write(g.bytes(off) + full.tobytes() + g.bytes(extra))
    size = r.choice([n, n, max(1, n - 1), max(1, n // 2), n + 1, n + 50])
    return path, off, dt, full, size


def bound(r, n):
    return r.choice([None, 0, 1, -1, n, -n, n - 1, n + 1, -n - 1, n + 37, -n - 40, r.randint(-n - 2, n + 2), r.randint(-n, n)])


def rslice(r, n, positive=False):
    step = r.choice([None, 1, 2, 3, n, n + 5] + ([] if positive else [-1, -2, -3, -n, -n - 4]))
    return slice(bound(r, n), bound(r, n), step)


def rindex(r, n):
    k = r.random()
    if k < .25:
        i = r.randint(-n, n - 1)
        return r.choice([i, np.int64(i)])
    if k < .8:
        return rslice(r, n)
    if k < .95:
        return (r.choice([rslice(r, n), r.randint(-n, n - 1)]),)
    return ()


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()


@scenario('C23', 'file array', 500)
def file_array(t):
    r = t.rng
    with Scratch() as d:
        path, off, dt, full, size = make(t, d)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            arr = BinaryFileArray_1D(path, off, size, dt)
        ref = full[:size]
        n = len(ref)
        inp = dict(dtype=dt, offset=off, announced=size, available=len(full))
        t.check(arr.shape == (n,) and arr.dtype == dt and arr.ndim == 1, 'size exposed', got=arr.shape, **inp)
        t.check((len(w) > 0) == (size > len(full)), 'warning', warnings=[str(x.message) for x in w], **inp)
        t.check(same(np.asarray(arr), ref), 'whole array', **inp)
        done = []
        for _ in range(25):
            i = rindex(r, n)
            done.append(i)
            t.check(same(arr[i], ref[i]), 'index %r' % (i,), got=arr[i], expected=ref[i], **inp)
        for i in (n, -n - 1, n + r.randint(1, 50), -n - r.randint(2, 50)):
            t.check(expect_raise(lambda: arr[i], IndexError), 'index %r out of range accepted' % i, **inp)
            t.check(expect_raise(lambda: arr[(i,)], IndexError), 'index (%r,) out of range accepted' % i, **inp)
        t.check(expect_raise(lambda: arr[0, 0], IndexError), 'too many indices accepted', **inp)
        t.note((str(dt), off, n, size, repr(done)))


@scenario('C23', 'only the requested part is read', 300)
def part(t):
    r = t.rng
    with Scratch() as d:
        path, off, dt, full, size = make(t, d)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            arr = BinaryFileArray_1D(path, off, size, dt)
        ref = full[:size]
        n = len(ref)
        i = r.choice([r.randint(-n, n - 1), rslice(r, n, True)])
        if isinstance(i, slice):
            a, b, _ = i.indices(n)
            end = max(a, b) if len(ref[i]) else 0
        else:
            end = i % n + 1
        # nothing after the requested part is needed
        with open(path, 'r+b') as f:
            f.truncate(off + end * dt.itemsize)
        t.note((str(dt), off, n, repr(i)))
        t.check(same(arr[i], ref[i]), 'needs data beyond the requested part', index=i, size=n, dtype=dt)


class Proxy(BaseArrayProxy):
    def __init__(self, x):
        super().__init__(x, x.shape, x.dtype)

    def extract(self, index):
        assert len(index) == self.ndim and all(isinstance(i, slice) for i in index)
        assert all(type(v) is int for i in index for v in (i.start, i.stop, i.step))
        return self.source[index]


@scenario('C23', 'several dimensions', 300)
def dims(t):
    r, g = t.rng, t.np
    shape = tuple(r.randint(1, 6) for _ in range(r.randint(1, 3)))
    x = g.integers(0, 10**6, size=shape)
    p = Proxy(x)
    done = []
    for _ in range(15):
        k = r.randint(1, len(shape))
        i = tuple(r.choice([rslice(r, n), rslice(r, n), r.randint(-n, n - 1)]) for n in shape[:k])
        if k == 1 and r.random() < .5:
            i = i[0]
        done.append(i)
        t.check(same(p[i], x[i]), 'index %r' % (i,), shape=shape, got=p[i], expected=x[i])
    t.check(same(np.asarray(p), x), 'whole array', shape=shape)
    t.check(expect_raise(lambda: p[(0,) * (len(shape) + 1)], IndexError), 'too many indices accepted', shape=shape)
    t.note((shape, repr(done)))


@scenario('C23', 'through dask', 60)
def dask(t):
    r = t.rng
    with Scratch() as d:
        path, off, dt, full, size = make(t, d)
        size = min(size, len(full))
        arr = to_dask_array(BinaryFileArray_1D(path, off, size, dt))
        ref = full[:size]
        if r.random() < .5:
            arr = arr.rechunk(r.randint(1, size))
        for _ in range(5):
            # dask mishandles some reversed slices of plain arrays too: not used here
            i = r.choice([rslice(r, size, True), r.randint(-size, size - 1), slice(None, None, -1)])
            t.check(same(arr[i].compute(), ref[i]), 'index %r' % (i,), size=size, dtype=dt, offset=off)
        t.note((str(dt), off, size, repr(i)))
