" C24: the ATS files are read as recorded (io/ats.py) "
from .base import *
from .sets import given_cals
from .sigs import sync_fields, inp
from pyvc import fs

# little-endian fields of the ATS header: offset, type
FIELDS = dict(header_length=(0, 'int16'), header_version=(2, 'int16'), sample_length=(4, 'int32'),
              sampling_rate=(8, 'float32'), start=(12, 'int32'), lsbval=(16, 'float64'))
HEADER = 1024               # size of the fixed part of the header


def field(name, t):
    off, typ = FIELDS[name]
    return at(typ, t, off)


def at(typ, t, pos):
    return z3.Function('file_' + typ, INT, INT, INT if 'int' in typ else REAL)(zint(t), zint(pos))


@case('C24', 'io.ats.read_ats_header', 'fields', reach=('normal end', 'rejection'))
def header(v):
    t = z3.Int('path')
    st, h = v.attempt('io.ats.read_ats_header', SymStr(t))
    length = at('uint16', t, 0)
    if st == 'raise':
        v.prove('only unreadable headers are rejected', Or(
            Not(fs.ISFILE(t)), fs.FSIZE(t) < HEADER, length < HEADER))
        v.reached('rejection')
        return
    for name in FIELDS:
        v.prove('field ' + name, cmp('==', v.interp.getitem(h, name), field(name, t)))
    reads = [e for k, e in v.interp.effects if k == 'read']
    for t2, p, m in reads:
        v.prove('reads the header of this file', And(t2 == t, zint(p) >= 0, Or(zint(p) + zint(m) <= length, zint(m) == 2)))
    v.reached()


def available(t):
    return V.floordiv(fs.FSIZE(t) - field('header_length', t), 4)


def samples_of(t):
    " number of samples of a file: those announced, or those it holds when there are fewer "
    a, n = zint(available(t)), field('sample_length', t)
    return If(a < n, a, n)


def readable(t):
    return And(fs.ISFILE(t), fs.FSIZE(t) >= HEADER, field('header_length', t) >= HEADER, samples_of(t) >= 1)


def contents(v, t, arr):
    v.prove('number of samples', cmp('==', arr.shape[0], samples_of(t)))
    v.forall('samples', samples_of(t), lambda k: cmp('==', arr.get(k), mul(
        field('lsbval', t), zreal(at('int32', t, field('header_length', t) + 4 * zint(k))))))


@case('C24', 'io.ats.read_ats_sample', 'samples, rate and start', reach=('normal end', 'rejection'))
def sample(v):
    t = z3.Int('path')
    st, r = v.attempt('io.ats.read_ats_sample', SymStr(t))
    if st == 'raise':
        v.prove('only unreadable files are rejected', Not(readable(t)))
        v.reached('rejection')
        return
    arr, rate, start = seq_of(r).list()
    v.expect('an array', isinstance(arr, Arr))
    v.prove('one dimension', z3.BoolVal(arr.ndim == 1))
    v.prove('sampling rate', cmp('==', rate, field('sampling_rate', t)))
    v.prove('start', cmp('==', start, field('start', t)))
    contents(v, t, arr)
    warned = any(k == 'warn' for k, _ in v.interp.effects)
    v.prove('a warning if and only if samples are missing',
            (zint(available(t)) < field('sample_length', t)) == warned)
    v.reached()


def sample_contract(v):
    " contract of read_ats_sample (proved above) "
    def summary(it, f, args, kwargs):
        p = bound(f, args, kwargs)['filename']
        t = fs.file_facts(p)
        if C.branch(Not(readable(t))):
            V.py_raise('ValueError', 'file')
        arr = Arr((samples_of(t),), lambda k: mul(field('lsbval', t), zreal(
            at('int32', t, field('header_length', t) + 4 * zint(k)))), F8)
        return (arr, field('sampling_rate', t), field('start', t))
    v.interp.contracts['io.ats.read_ats_sample'] = summary


def load(v, n, cals_kind):
    sample_contract(v)
    path = z3.Function('path', INT, INT)
    if n is None:
        n = v.int('n', 0)
        files = SeqV(n, lambda c: SymStr(path(zint(c))))
    else:
        files = seq_of([SymStr(path(zint(c))) for c in range(n)])
    files = inp(V.MList(files))
    cals, ncal, fn = given_cals(v, cals_kind, n)
    st, r = v.attempt('io.ats.load_ats', files, *([cals] if cals_kind != 'none' else []))
    a, b = z3.Ints('a b')
    pair = lambda f: z3.Exists([a, b], And(0 <= a, a < zint(n), 0 <= b, b < zint(n), f(path(a)) != f(path(b))))
    if st == 'raise':
        v.prove('only invalid lists of files are rejected', Or(
            zint(n) == 0, z3.Exists([a], And(0 <= a, a < zint(n), Not(readable(path(a))))),
            pair(lambda t: field('start', t)), pair(lambda t: field('sampling_rate', t)), pair(samples_of),
            zint(ncal) != zint(n)))
        v.reached('rejection')
        return
    v.prove('at least one file', zint(n) >= 1)
    v.prove('one calibration per file', zint(ncal) == zint(n))
    data, cals, rate, start, size = sync_fields(v, r)
    v.prove('one channel per file', cmp('==', data.n, n))
    v.prove('number of calibrations', cmp('==', cals.n, n))
    f = v.real('f')

    def channel(c):
        c = zint(c)
        t = path(c)
        v.prove('sampling rate', cmp('==', rate, field('sampling_rate', t)))
        v.prove('start', cmp('==', start, field('start', t)))
        contents(v, t, A.asarray(data.get(c)))
        got, want = V.xnum(v.call(cals.get(c), f)), fn(c, f)
        v.prove('calibration', And(zreal(got.re) == zreal(want.re), zreal(got.im) == zreal(want.im)))
        return True
    v.forall('channel', n, channel)
    v.frame()
    v.reached()


for n in (1, 2, None):
    for cals_kind in ('none', 'list'):
        case('C24 C10', 'io.ats.load_ats', '%s files, calibrations %s' % ('any number of' if n is None else n, cals_kind),
             reach=('normal end', 'rejection'))(lambda v, n=n, c=cals_kind: load(v, n, c))
