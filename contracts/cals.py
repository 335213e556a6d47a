" C25, C26: calibration functions read from files (calibrations.py) "
from .base import *
from pyvc import fs
from .paths import dirs

INTOF = z3.Function('str_int', INT, INT)
ISINT = z3.Function('str_is_int', INT, BOOL)
COS, SIN = V.COS, V.SIN
NONEMPTY = z3.Function('str_nonempty', INT, BOOL)
STRIP = z3.Function('str_strip', INT, INT)


def part(y, i):
    y = V.xnum(y)
    return zreal(y.im if i else y.re)


def generalized(goal, tuples, hyp):
    " the goal holds for any values in place of these terms (of equal values in each column) "
    s = z3.Solver()
    s.set('timeout', 5000)
    pairs = []
    consts = [C.fresh('gen', REAL) for _ in tuples[0]]
    for t in tuples:
        for c, e, first in zip(consts, t, tuples[0]):
            if not e.eq(first) and not C.valid(e == first, 3000):
                return False
            pairs.append((e, c))
    pairs = [(a, b) for a, b in pairs if not z3.is_rational_value(a)]
    s.add(hyp(*consts), Not(z3.substitute(goal, *pairs)))
    return s.check() == z3.unsat


def interpolation(v, f, n, x, y, call, ok=lambda r: z3.BoolVal(True)):
    """ call(f) follows the table of the rows r < n with ok(r): abscissas x(r) (distinct), complex values y(r)

    value of the row at its abscissa, linear between consecutive abscissas, ValueError outside
    """
    k, r, s = z3.Int(C._name('k')), z3.Int(C._name('r')), z3.Int(C._name('s'))
    inrange = lambda e: And(e >= 0, e < zint(n), ok(e))
    st, got = call()
    if st == 'raise':
        v.prove('error out of the table', z3.BoolVal(got == 'ValueError'))

        def inside(a, b):
            C.assume(And(ok(a), ok(b)))
            return Or(x(a) > f, f > x(b))
        v.forall2('fails only out of the table', n, n, inside)
        v.reached('out of the table')
        return

    def at(k):
        C.assume(And(ok(k), x(k) == f))
        want = y(k)
        g = V.xnum(got)
        v.prove('value of a row', zreal(g.re) == want[0])
        v.prove('value of a row', zreal(g.im) == want[1])
        return True
    v.forall('row', n, at)

    def between(a, b):
        a, b = zint(a), zint(b)
        C.assume(And(ok(a), ok(b), x(a) < f, f < x(b)))
        C.assume(z3.ForAll([k], Implies(inrange(k), Or(x(k) <= x(a), x(k) >= x(b))), patterns=[x(k)]))
        ya, yb = y(a), y(b)
        w = (f - x(a)) / (x(b) - x(a))
        g = V.xnum(got)
        for i, (g, p, q) in enumerate(((g.re, ya[0], yb[0]), (g.im, ya[1], yb[1]))):
            goal = zreal(g) == p + (q - p) * w
            if generalized(goal, [(x(a), x(b), p, q)] + [(e, h, part(u, i), part(z, i))
                                                         for e, h, u, z in C.terms.get('interp1d', ())],
                           lambda e, h, *_: And(e < f, f < h)):
                C.assume(goal)
            v.prove('linear between two rows', goal)
        return True
    v.forall2('between two rows', n, n, between)

    def below():
        C.assume(z3.ForAll([k], Implies(inrange(k), x(k) > f), patterns=[x(k)]))
        return z3.BoolVal(False)

    def above():
        C.assume(z3.ForAll([k], Implies(inrange(k), x(k) < f), patterns=[x(k)]))
        return z3.BoolVal(False)
    v.prove('fails below the table', below)
    v.prove('fails above the table', above)
    v.reached('in the table')


@case('C26', 'calibrations.phoenix', 'rows of the level, columns of the channel',
      reach=('rejection', 'normal end', 'in the table', 'out of the table'))
def phoenix(v):
    t = z3.Int('path')
    level = v.int('level')
    comma = V.zterm(',')

    # header: the fields of the first line
    split = v.interp.iter_seq(lib.STR['split'](lib.STR['strip'](SymStr(fs.LINE(t, z3.IntVal(0)))), ','))
    field = lambda p: STRIP(V.zterm(split.get(zint(p))))
    k = z3.Int(C._name('k'))

    class Spec:
        " the number of channels in the header, the rows of the level in the table under the header lines "
        def __init__(self):
            p = [C.fresh('p', INT) for _ in range(4)]
            C.assume(And(p[0] >= 0, p[0] < p[1], p[1] < p[2], p[2] < p[3], p[3] < zint(split.n)))
            for q in p:
                C.assume(NONEMPTY(field(q)))
            C.assume(z3.ForAll([k], Implies(And(k >= 0, k < zint(split.n), NONEMPTY(field(k))), Or(*[k == q for q in p])),
                               patterns=[NONEMPTY(field(k))]))
            for n, _, phi, (m, SEL, RANK), _ in C.filters:
                for q in p:
                    RANK(q)
                for j in range(6):
                    SEL(j)
                SEL(m - 1)
            self.n = n = INTOF(field(p[3]))
            C.assume(And(ISINT(field(p[3])), n >= 1))
            key = lambda skip: (t, z3.IntVal(skip), fs.END, comma)
            readable = lambda skip: And(fs.TABLE_OK(*key(skip)), fs.TABLE_COLS(*key(skip)) >= 2 + 2 * n)
            first = C.branch(readable(1))
            if not first:
                C.assume(readable(2))
            key = key(1 if first else 2)
            self.table = table = lambda r, c: fs.TABLE(*key, zint(r), zint(c))
            self.rows = rows = fs.TABLE_ROWS(*key)
            self.of_level = lambda r: table(r, 1) == zreal(level)
            r, s = z3.Int(C._name('r')), z3.Int(C._name('s'))
            self.inrange = ok = lambda e: And(e >= 0, e < rows, self.of_level(e))
            C.assume(z3.ForAll([r, s], Implies(And(ok(r), ok(s), r != s), table(r, 0) != table(s, 0)),
                               patterns=[z3.MultiPattern(table(r, 0), table(s, 0))]))

    st, calibs = v.attempt('calibrations.phoenix', SymStr(t), level)
    if st == 'raise':
        def reason():
            s = Spec()
            C.assume(And(fs.ISFILE(t), s.rows > 1))
            e = C.fresh('e', INT)
            C.assume(s.inrange(e))
            return z3.BoolVal(False)
        v.prove('rejects only a bad file or a missing level', reason)
        v.reached('rejection')
        return

    def missing():
        s = Spec()
        r = z3.Int(C._name('r'))
        C.assume(z3.ForAll([r], Not(s.inrange(r)), patterns=[s.table(r, 1)]))
        return z3.BoolVal(False)
    v.prove('a missing level is rejected', missing)
    res = v.interp.iter_seq(calibs)
    v.prove('one function per channel', lambda: Spec().n == zint(res.n))
    f = v.real('f')
    i = C.fresh('i', INT)

    def channel():
        s = Spec()
        C.assume(And(i >= 0, i < s.n))
        interpolation(v, f, s.rows, lambda r: s.table(r, 0),
                      lambda r: (s.table(r, 2 + 2 * i), s.table(r, 3 + 2 * i)),
                      lambda: v.attempt(res.get(i), f), s.of_level)
        return True
    v.prove('channel', channel)
    v.reached()


ON, OFF = r'chopper\s+on', r'chopper\s+off'
VERSION = r".*(MFS\d\d).*"
MATCH = z3.Function('re_match', INT, INT, BOOL)
GROUP = z3.Function('re_match_group', INT, INT, INT, INT)
LOWER = z3.Function('str_lower', INT, INT)

FOLDER = 'metronix_calibration'
ALPHAS = {'MFS06': 4, 'MFS07': 32}


def metronix_case(v, options, chopper):
    name = z3.Int('filename')
    rate = v.real('rate')
    kw, limit, pattern, alphas = {}, z3.RealVal(512), V.zterm(VERSION), [(V.zterm(k), z3.RealVal(a)) for k, a in ALPHAS.items()]
    if options:
        limit, pattern = v.real('limit'), z3.Int('pattern')
        alphas = [(z3.Int('version%d' % i), v.real('alpha%d' % i)) for i in range(2)]
        C.assume(alphas[0][0] != alphas[1][0])
        kw = dict(chopper_on_limit=limit, version_pattern=SymStr(pattern),
                  alpha_map=V.MDict([(SymStr(k), a) for k, a in alphas]))
    # the data file (C27)
    local, default = dirs(v, FOLDER)
    local_file, default_file = local.join(SymStr(name)).t, default.join(SymStr(name)).t
    has_local = And(fs.ISDIR(local.t), fs.EXISTS(local_file))
    t = C.fresh('file', INT)
    C.assume(t == If(has_local, zint(local_file), zint(default_file)))
    found = fs.ISFILE(t)

    def get_data_file(it, f, args, kwargs):
        " contract (C27): the local file when it exists, else the shipped one, else ValueError "
        b = bound(f, args, kwargs)
        if not (not b.get('**') and b.get('dirname') == FOLDER and isinstance(b.get('filename'), SymStr)
                and b['filename'].id.eq(name)):
            return NotImplemented
        p = fs.PathV(t, base=fs.PathV(C.fresh('folder', INT)))
        p.last = name
        if not C.branch(Or(has_local, fs.EXISTS(default_file))):
            I.py_raise('ValueError', 'data file')
        C.assume(fs.EXISTS(p.t))
        return p
    v.interp.contracts['data.get_data_file'] = get_data_file
    nl = fs.NLINES(t)
    C.assume(rate <= limit if chopper else rate > limit)
    mark = V.zterm(ON if chopper else OFF)
    text = lambda k: STRIP(fs.LINE(t, k))
    marked = lambda k: MATCH(mark, LOWER(text(k)))
    blank = lambda k: Not(NONEMPTY(text(k)))
    k = z3.Int(C._name('k'))
    stem = V.str_fun('path_stem')(name)
    version = GROUP(pattern, stem, z3.IntVal(1))

    class Spec:
        " the table of the section of the chopper state, the alpha of the version in the name of the file "
        def __init__(self):
            a, b = C.fresh('first', INT), C.fresh('last', INT)
            C.assume(And(a >= 0, a < nl, marked(a)))
            C.assume(z3.ForAll([k], Implies(And(k >= 0, k < a), Not(marked(k))), patterns=[fs.LINE(t, k)]))
            C.assume(And(a < b, b <= nl, Or(b == nl, blank(b))))
            C.assume(z3.ForAll([k], Implies(And(k > a, k < b), Not(blank(k))), patterns=[fs.LINE(t, k)]))
            for n, _, phi, (m, SEL, RANK), _ in list(C.filters):
                RANK(a), RANK(b), RANK(b - a - 1), SEL(0)
            key = (t, a + 1, b, z3.IntVal(0))
            self.table = lambda r, c: fs.TABLE(*key, zint(r), zint(c))
            self.rows = rows = fs.TABLE_ROWS(*key)
            C.assume(And(fs.TABLE_OK(*key), rows > 1, fs.TABLE_COLS(*key) >= 3))
            i, j = z3.Int(C._name('i')), z3.Int(C._name('j'))
            C.assume(z3.ForAll([i, j], Implies(And(0 <= i, i < j, j < rows), self.table(i, 0) < self.table(j, 0)),
                               patterns=[z3.MultiPattern(self.table(i, 0), self.table(j, 0))]))
            C.assume(MATCH(pattern, stem))
            C.assume(Or(*[version == w for w, _ in alphas]))
            self.alpha = If(version == alphas[0][0], alphas[0][1], alphas[1][1])

    st, calib = v.attempt('calibrations.metronix', SymStr(name), rate, **kw)
    for how, p in C.terms.get('re', ()):
        v.expect('regular expressions', how == 'match' and (not isinstance(p, str) or p in (ON, OFF, VERSION)))
    if st == 'raise':
        def reason():
            C.assume(found)
            Spec()
            return z3.BoolVal(False)
        v.prove('rejects only a bad file, a missing section or an unknown version', reason)
        v.reached('rejection')
        return
    v.prove('the file exists', found)
    v.prove('an unknown version is rejected', And(MATCH(pattern, stem), Or(*[version == w for w, _ in alphas])))

    def section():
        C.assume(z3.ForAll([k], Implies(And(k >= 0, k < nl), Not(marked(k))), patterns=[fs.LINE(t, k)]))
        return z3.BoolVal(False)
    v.prove('a missing section is rejected', section)
    f = v.real('f')

    def values():
        s = Spec()
        below = C.branch(f < s.table(0, 0))
        if not (below and chopper):
            def value(r):
                p = zreal(s.table(r, 2)) * V.PI / 180
                p = z3.simplify(p, som=True)
                m = s.table(r, 0) * s.table(r, 1)
                return m * COS(p), m * SIN(p)
            interpolation(v, f, s.rows, lambda r: s.table(r, 0), value, lambda: v.attempt(calib, f))
            return True
        # below the table, with chopper
        a = V.ANGLE(f, s.alpha)
        h = C.fresh('h', REAL)
        C.assume(And(h >= 0, h * h == f * f + s.alpha * s.alpha, h * COS(a) == f, h * SIN(a) == s.alpha))
        C.assume(s.alpha > 0)
        st, got = v.attempt(calib, f)
        v.prove('a value below the table, with chopper', z3.BoolVal(st == 'ok'))
        if st == 'ok':
            got = V.xnum(got)
            m = f * s.table(0, 1)
            v.prove('value below the table', zreal(got.re) == m * COS(a))
            v.prove('value below the table', zreal(got.im) == m * SIN(a))
            v.reached('below the table')
        return True
    v.prove('value', values)
    v.reached()


for options in (False, True):
    for chopper in (True, False):
        @case('C25', 'calibrations.metronix', '%s, chopper %s' % ('options' if options else 'defaults', 'on' if chopper else 'off'),
              reach=('rejection', 'normal end', 'in the table', 'out of the table') + (('below the table',) if chopper else ()),
              budget=120)
        def _(v, options=options, chopper=chopper):
            metronix_case(v, options, chopper)
