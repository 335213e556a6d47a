""" model of the files: paths denote files by their term, contents are uninterpreted

A binary file P holds size(P) bytes; the value of type D at byte offset o is D(P, o).
The working directory does not change: abspath / expanduser / str denote the same file.
"""
import os
import struct

import z3

from . import values as V
from .core import C, Unsupported
from .values import (SeqV, SymStr, Opaque, zint, add, sub, mul, cmp, simp, py_raise, is_int, is_str)

INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()
ISFILE = z3.Function('isfile', INT, BOOL)
ISDIR = z3.Function('isdir', INT, BOOL)
EXISTS = z3.Function('exists', INT, BOOL)
FSIZE = z3.Function('file_size', INT, INT)


# text files: lines, tables of numbers
NLINES = z3.Function('file_nlines', INT, INT)
LINE = z3.Function('file_line', INT, INT, INT)
TABLE_OK = z3.Function('table_ok', INT, INT, INT, INT, BOOL)        # file, first line, last line, delimiter
TABLE_ROWS = z3.Function('table_rows', INT, INT, INT, INT, INT)
TABLE_COLS = z3.Function('table_cols', INT, INT, INT, INT, INT)
TABLE = z3.Function('table', INT, INT, INT, INT, INT, INT, REAL)
END = z3.IntVal(-1)


def np_loadtxt(fname, dtype=None, comments='#', delimiter=None, converters=None, skiprows=0, usecols=None, **kw):
    """ numbers of the lines of a text file (or of a list of its lines)

    the table of the file from line a to line b, for a delimiter: uninterpreted numbers
    """
    from . import arrays as A
    if dtype is not None or comments != '#' or converters is not None or kw:
        raise Unsupported('loadtxt options')
    if delimiter is not None and not isinstance(delimiter, str):
        raise Unsupported('delimiter')
    d = z3.IntVal(0) if delimiter is None else V.zterm(delimiter)
    if isinstance(fname, V.MList) or V.is_tuple(fname):
        s = V.seq_of(fname)
        t, a = lines_of(s)
        a, b = zint(add(a, skiprows)), zint(add(a, s.n))
    else:
        f = fname if isinstance(fname, FileV) else py_open(fname, 'r')
        t, a, b = f.t, zint(add(f.line, skiprows)), END
    key = (t, a, b, d)
    if C.branch(z3.Not(TABLE_OK(*key))):
        py_raise('ValueError', 'loadtxt')
    rows, cols = TABLE_ROWS(*key), TABLE_COLS(*key)
    C.assume(z3.And(rows >= 0, cols >= 0))
    col = lambda j: j
    if usecols is not None:
        u = V.seq_of(usecols.seq if isinstance(usecols, V.RangeV) else usecols)
        if not C.forall_branch(u.n, lambda k: z3.And(zint(u.get(k)) >= 0, zint(u.get(k)) < cols)):
            py_raise('ValueError', 'loadtxt')
        cols, col = u.n, u.get
    get = lambda r, c: TABLE(*key, zint(r), zint(col(c)))
    if C.branch(V.zbool(cmp('==', rows, 1))):
        if C.branch(V.zbool(cmp('==', cols, 1))):
            return A.Arr((), lambda: get(0, 0), A.F8)
        return A.Arr((cols,), lambda c: get(0, c), A.F8)
    if C.branch(V.zbool(cmp('==', cols, 1))):
        return A.Arr((rows,), lambda r: get(r, 0), A.F8)
    return A.Arr((rows, cols), get, A.F8)


def lines_of(s):
    " (file, number of the first line) of consecutive lines of a file "
    k = C.fresh('line', INT)
    x = s.get(k)
    e = V.zterm(x) if is_str(x) else None
    if e is None or not z3.is_app(e) or not e.decl().eq(LINE):
        raise Unsupported('lines of a table')
    a = simp(e.arg(1) - k)
    if str(k) in V.constants(zint(a)) or str(k) in V.constants(e.arg(0)):
        raise Unsupported('lines of a table')
    return e.arg(0), a


def interp1d(x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=None, assume_sorted=False):
    """ linear interpolation of a table

    between the two nearest abscissas; ValueError outside
    """
    from . import arrays as A
    from .interp import Builtin
    x, y = A.asarray(x), A.asarray(y)
    if x.ndim != 1 or y.ndim != 1 or kind != 'linear' or not isinstance(assume_sorted, bool):
        raise Unsupported('interp1d')
    if C.branch(V.zbool(cmp('!=', x.shape[0], y.shape[0]))):
        py_raise('ValueError', 'interp1d')
    n = x.shape[0]
    xs = lambda k: V.zreal(x.get(k))
    if assume_sorted and not C.forall_branch(n, lambda k: z3.Or(zint(k) == 0, xs(sub(k, 1)) < xs(k))):
        # any value
        return Builtin('interp1d', lambda f: V.XNum(C.fresh('unsorted', REAL), C.fresh('unsorted', REAL)))

    def call(f):
        if not V.is_num(f):
            raise Unsupported('interpolation at %s' % type(f).__name__)
        f = V.zreal(f)
        found = []

        def inside():
            p, q = C.fresh('p', INT), C.fresh('q', INT)
            C.assume(z3.And(p >= 0, p < zint(n), q >= 0, q < zint(n)))
            a, b = xs(p), xs(q)
            C.assume(z3.And(a <= f, f <= b, z3.Implies(a == b, p == q)))
            C.forall_fact(n, lambda k: z3.Or(xs(k) <= a, xs(k) >= b))
            found.append((p, q, a, b))
        if not C.fork(inside, lambda: None):
            if C.fork(lambda: None, lambda: None):
                C.forall_fact(n, lambda k: xs(k) > f)
            else:
                C.forall_fact(n, lambda k: xs(k) < f)
            if fill_value is not None or bounds_error is False:
                return V.XNum(C.fresh('fill', REAL), C.fresh('fill', REAL))
            py_raise('ValueError', 'interp1d')
        p, q, a, b = found[-1]
        if C.branch(a == b):
            return y.get(p)
        yp, yq = y.get(p), y.get(q)
        C.terms.setdefault('interp1d', []).append((a, b, yp, yq))
        return add(yp, mul(sub(yq, yp), V.div(f - a, b - a)))
    return Builtin('interp1d', call)


def path_term(p):
    p = strip(p)
    if isinstance(p, PathV):
        return p.term
    return V.zterm(p)


def strip(p):
    return p


def file_facts(p):
    t = path_term(p)
    C.assume(FSIZE(t) >= 0)
    C.assume(z3.Implies(ISFILE(t), EXISTS(t)))
    C.assume(z3.Implies(ISDIR(t), z3.And(EXISTS(t), z3.Not(ISFILE(t)))))
    return t


JOIN = z3.Function('path_join', INT, INT, INT)
PARENT = z3.Function('path_parent', INT, INT)
CWD = z3.Int('working_directory')


class PathV:
    """ pathlib.Path: the term of a path, or (concrete) its text

    A path and its resolution denote the same file.
    """
    def __init__(self, term, text=None, base=None):
        self.term, self.text, self.base = term, text, base
        self.last = None          # the last part, when known

    @property
    def t(self):
        return file_facts(self)

    def join(self, s):
        if isinstance(s, PathV):
            if s.text is None:
                raise Unsupported('joining paths')
            s = s.text
        if not is_str(s):
            py_raise('TypeError', 'path')
        parts = [x for x in s.split('/') if x not in ('', '.')] if isinstance(s, str) else [s]
        if isinstance(s, str) and (s.startswith('/') or '..' in parts):
            raise Unsupported('path %s' % s)
        r = self
        for x in parts:
            r = PathV(simp(JOIN(zint(r.term), V.zterm(x))), base=r)
        return r

    def binop(self, op, other, reverse):
        if op != '/' or reverse:
            py_raise('TypeError', 'unsupported operand')
        return self.join(other)

    def eq(self, other):
        if not isinstance(other, PathV):
            return False
        return simp(zint(self.term) == zint(other.term))

    def get_attr(self, interp, name):
        from .interp import Builtin
        if name == 'parent':
            if self.base is not None:
                return self.base
            if self.text is not None:
                import os
                return path_of(os.path.dirname(self.text))
            return PathV(PARENT(zint(self.term)))
        if name in ('name', 'stem', 'suffix'):
            e = zint(self.term if self.last is None else self.last)
            while z3.is_app(e) and e.decl().eq(JOIN):
                e = e.arg(1)            # the last part
            return SymStr(V.str_fun('path_' + name)(e))
        ms = dict(
            resolve=lambda strict=False: self, absolute=lambda: self, expanduser=lambda: self,
            is_dir=lambda: simp(ISDIR(self.t)), is_file=lambda: simp(ISFILE(self.t)), exists=lambda: simp(EXISTS(self.t)),
            joinpath=lambda *a: self.joinpath(a), mkdir=lambda *a, **k: mkdir(interp, self, *a, **k),
            open=lambda *a, **k: py_open(self, *a, **k), stat=lambda: os_stat(self), as_posix=lambda: SymStr(self.term))
        if name not in ms:
            raise Unsupported('Path.' + name)
        return Builtin(name, ms[name])

    def joinpath(self, a):
        r = self
        for x in a:
            r = r.join(x)
        return r


def path_of(*a):
    " pathlib.Path(...) "
    if not a:
        return PathV(CWD)
    p = a[0]
    if isinstance(p, PathV):
        r = p
    elif isinstance(p, str):
        r = PathV(V.zterm(p), p) if p not in ('', '.') else PathV(CWD)
        if not p.startswith('/') and p not in ('', '.'):
            r = PathV(CWD).join(p)
    elif is_str(p):
        r = PathV(V.zterm(p))
    else:
        py_raise('TypeError', 'path')
    return r.joinpath(a[1:])


def mkdir(interp, p, mode=0o777, parents=False, exist_ok=False):
    t = p.t
    if not parents:
        if p.base is None:
            raise Unsupported('parent of a path')
        if C.branch(z3.Not(EXISTS(p.base.t))):
            py_raise('FileNotFoundError')
    if C.branch(EXISTS(t)):
        if exist_ok and C.branch(ISDIR(t)):
            return None
        py_raise('FileExistsError')
    interp.effect('mkdir', t)


class StatV:
    def __init__(self, p):
        self.p = p

    def get_attr(self, interp, name):
        if name == 'st_size':
            return FSIZE(file_facts(self.p))
        raise Unsupported('stat.' + name)


class FileV:
    def __init__(self, path, mode):
        self.path, self.mode = path, mode
        self.t = file_facts(path)
        self.pos = 0
        self.closed_ = False

    def enter(self):
        return self, self.close

    def close(self):
        self.closed_ = True

    def get_attr(self, interp, name):
        from .interp import Builtin
        if 'b' not in self.mode:
            ms = dict(close=self.close, readline=self.readline, readlines=self.readlines)
        else:
            ms = dict(seek=self.seek, tell=lambda: self.pos, close=self.close, read=self.read)
        if ms.get(name) is None:
            raise Unsupported('file.' + name)
        return Builtin(name, ms[name])

    line = 0

    def readline(self):
        if self.closed_:
            py_raise('ValueError')
        i, self.line = self.line, self.line + 1
        return SymStr(LINE(self.t, zint(i)))

    def readlines(self):
        if self.closed_:
            py_raise('ValueError')
        t, i = self.t, self.line
        C.assume(NLINES(t) >= 0)
        return V.MList(SeqV(V.num_max(sub(NLINES(t), i), 0), lambda k: SymStr(LINE(t, zint(add(k, i))))))

    def iter_seq(self):
        if 'b' in self.mode:
            raise Unsupported('lines of a binary file')
        return self.readlines().seq

    def seek(self, n, whence=0):
        if whence == 1:
            n = add(self.pos, n)
        elif whence == 2:
            n = add(FSIZE(self.t), n)
        elif whence != 0:
            raise Unsupported('seek')
        if C.branch(V.zbool(cmp('<', n, 0))):
            py_raise('OSError')
        self.pos = n
        return n

    def avail(self):
        return V.num_max(sub(FSIZE(self.t), self.pos), 0)

    def log(self, interp, pos, n):
        interp.effect('read', (self.t, pos, n))

    def read(self, n=-1):
        from . import lib
        if self.closed_:
            py_raise('ValueError')
        if not is_int(n):
            raise Unsupported('read')
        av = self.avail()
        m = V.ite(cmp('<', n, 0), av, V.num_min(n, av))
        b = BytesV(self.t, self.pos, m)
        self.log(lib.it(), self.pos, m)
        self.pos = add(self.pos, m)
        return b


class BytesV:
    def __init__(self, t, pos, n):
        self.t, self.pos, self.n = t, pos, n

    def length(self):
        return self.n

    def __repr__(self):
        return 'bytes(%s, %s, %s)' % (self.t, self.pos, self.n)


def value_at(dtype, t, pos):
    " value of the type at a byte offset of the file "
    t, pos = zint(t), zint(pos)
    size = dtype.itemsize
    nm = 'file_%s' % dtype.name
    if dtype.kind == 'int':
        return z3.Function(nm, INT, INT, INT)(t, pos)
    if dtype.kind == 'float':
        return z3.Function(nm, INT, INT, REAL)(t, pos)
    raise Unsupported('file of %s' % dtype.kind)


# native codes of struct on this machine (little-endian, aligned); other byte orders are other symbols
CODES = dict(b=('int', 'int8', 1), B=('int', 'uint8', 1), h=('int', 'int16', 2), H=('int', 'uint16', 2),
             i=('int', 'int32', 4), I=('int', 'uint32', 4), q=('int', 'int64', 8), Q=('int', 'uint64', 8),
             l=('int', 'int64', 8), L=('int', 'uint64', 8), f=('float', 'float32', 4), d=('float', 'float64', 8))


def struct_fields(fmt):
    " (size, [(offset, code, length)]) of a format, as struct packs it here "
    order = fmt[0] if fmt[:1] in '@=<>!' and fmt else '@'
    body = fmt[1:] if fmt[:1] in tuple('@=<>!') else fmt
    fields, done, i = [], order, 0
    body = body.replace(' ', '')
    while i < len(body):
        j = i
        while body[j].isdigit():
            j += 1
        num, code = body[i:j], body[j]
        i = j + 1
        if code == 's':
            done += num + code
            n = int(num or 1)
            fields.append((struct.calcsize(done) - n, 's', n))
        elif code == 'x':
            done += num + code
        else:
            for _ in range(int(num or 1)):
                done += code
                fields.append((struct.calcsize(done) - struct.calcsize(order.replace('@', '=') + code)
                               if code not in 'lL' else struct.calcsize(done) - struct.calcsize(order + code), code, 1))
    return struct.calcsize(done), order, fields


def struct_values(fmt, b, at):
    from .arrays import DType
    out = []
    for off, code, n in struct_fields(fmt)[2]:
        pos = add(add(b.pos, at), off)
        if code == 's':
            out.append(SymStr(z3.Function('file_bytes', INT, INT, INT, INT)(b.t, zint(pos), n)))
            continue
        if code not in CODES:
            raise Unsupported('struct code %s' % code)
        kind, name, size = CODES[code]
        if fmt[:1] in ('>', '!') and size > 1:
            name = 'be_' + name
        if kind == 'int':
            # the signed and the unsigned values of the same bytes
            bits, u = 8 * size, 'u' in name
            w = value_at(DType(kind, size, name.replace('u', '') if u else name.replace('int', 'uint')), b.t, pos)
            x = value_at(DType(kind, size, name), b.t, pos)
            sg, un = (w, x) if u else (x, w)
            C.assume(z3.And(un >= 0, un < 2**bits, sg == z3.If(un >= 2**(bits - 1), un - 2**bits, un)))
        out.append(value_at(DType(kind, size, name), b.t, pos))
    return V.seq_of(out)


def py_unpack(fmt, b):
    if not isinstance(fmt, str) or not isinstance(b, BytesV):
        raise Unsupported('struct.unpack')
    if C.branch(V.zbool(cmp('!=', b.n, struct_fields(fmt)[0]))):
        py_raise('struct.error')
    return struct_values(fmt, b, 0)


def py_unpack_from(fmt, buffer, offset=0):
    if not isinstance(fmt, str) or not isinstance(buffer, BytesV):
        raise Unsupported('struct.unpack_from')
    if C.branch(V.zbool(cmp('<', offset, 0))):
        raise Unsupported('negative offset')
    if C.branch(V.zbool(cmp('<', sub(buffer.n, offset), struct_fields(fmt)[0]))):
        py_raise('struct.error')
    return struct_values(fmt, buffer, offset)


def np_fromfile(f, dtype=None, count=-1, sep='', offset=0):
    from . import lib, arrays as A
    d = lib.get_dtype(dtype) or A.F8
    if sep != '':
        raise Unsupported('fromfile of a text file')
    if not isinstance(f, FileV):
        f = py_open(f, 'rb')
    if f.closed_:
        py_raise('ValueError')
    if 'b' not in f.mode:
        raise Unsupported('fromfile in text mode')
    pos = add(f.pos, offset)
    av = V.floordiv(V.num_max(sub(FSIZE(f.t), pos), 0), d.itemsize)
    m = V.ite(cmp('<', count, 0), av, V.num_min(count, av))
    t = f.t
    f.log(lib.it(), pos, mul(m, d.itemsize))
    f.pos = add(pos, mul(m, d.itemsize))
    return A.Arr((m,), lambda k: value_at(d, t, add(pos, mul(k, d.itemsize))), d)


def py_open(path, mode='r', *a, **k):
    t = file_facts(path)
    if not isinstance(mode, str) or set(mode) - set('rbt'):
        raise Unsupported('open mode %r' % (mode,))
    if C.branch(z3.Not(ISFILE(t))):
        py_raise('FileNotFoundError', path)
    return FileV(path, mode)


def os_stat(path, **k):
    t = file_facts(path)
    if C.branch(z3.Not(EXISTS(t))):
        py_raise('FileNotFoundError', path)
    return StatV(path)


def same(p, *a):
    if a:
        raise Unsupported('path function with several arguments')
    return p


def install(interp):
    from .interp import Builtin
    from . import lib
    L = interp.lib
    P = L['os.path'].attrs
    B = lambda n, f: Builtin(n, f)
    P['abspath'] = P['realpath'] = P['expanduser'] = B('os.path.abspath', same)
    P['normpath'] = B('os.path.normpath', lambda p: os.path.normpath(p) if isinstance(p, str) else same(p))
    P['sep'] = L['os'].attrs['sep'] = os.sep
    P['isfile'] = B('os.path.isfile', lambda p: simp(ISFILE(file_facts(p))))
    P['isdir'] = B('os.path.isdir', lambda p: simp(ISDIR(file_facts(p))))
    P['exists'] = B('os.path.exists', lambda p: simp(EXISTS(file_facts(p))))
    P['getsize'] = B('os.path.getsize', lambda p: os_stat(p).get_attr(interp, 'st_size'))
    L['os'].attrs['stat'] = B('os.stat', os_stat)
    L['os'].attrs['SEEK_SET'], L['os'].attrs['SEEK_CUR'], L['os'].attrs['SEEK_END'] = 0, 1, 2
    P['join'] = B('os.path.join', lambda a, *b: path_of(a).joinpath(b).get_attr(interp, 'as_posix').fn())
    path = B('pathlib.Path', path_of)
    lib.LIBFUN['pathlib.Path.cwd'] = B('Path.cwd', lambda: PathV(CWD))
    L['pathlib'].attrs.update(Path=path, PurePath=path)
    L['os'].attrs['getcwd'] = B('os.getcwd', lambda: SymStr(CWD))
    install_click(interp)
    install_re(interp)
    L['numpy'].attrs['loadtxt'] = B('numpy.loadtxt', np_loadtxt)
    L['scipy.interpolate'].attrs['interp1d'] = B('scipy.interp1d', interp1d)
    L['struct'].attrs.update(
        unpack=B('struct.unpack', py_unpack), unpack_from=B('struct.unpack_from', py_unpack_from),
        calcsize=B('struct.calcsize', lambda f: struct_fields(f)[0]))
    L['numpy'].attrs['fromfile'] = B('numpy.fromfile', np_fromfile)
    lib.BUILTINS['open'] = B('open', py_open)


class MatchV:
    " a match of a regular expression: the texts of its groups "
    def __init__(self, pattern, how, s, compiled=None):
        self.pattern, self.how, self.s, self.compiled = pattern, how, s, compiled

    def truth(self):
        return True

    def group(self, i=0):
        if not isinstance(i, int):
            raise Unsupported('named group')
        f = z3.Function('re_%s_group' % self.how, INT, INT, INT, INT)
        if self.compiled is not None and i > self.compiled.groups:
            py_raise('IndexError', 'no such group')
        return SymStr(f(V.zterm(self.pattern), V.zterm(self.s), z3.IntVal(i)))

    def groups(self):
        if self.compiled is None:
            raise Unsupported('groups of an unknown pattern')
        return V.seq_of([self.group(i + 1) for i in range(self.compiled.groups)])

    def get_attr(self, interp, name):
        from .interp import Builtin
        ms = dict(group=lambda *a: self.group(*a) if len(a) < 2 else V.seq_of([self.group(i) for i in a]),
                  groups=self.groups)
        if name not in ms:
            raise Unsupported('Match.' + name)
        return Builtin(name, ms[name])


def re_match(how):
    def f(pattern, s, flags=0):
        import re
        if not is_str(pattern) or not is_str(s):
            py_raise('TypeError', 're')
        if flags != 0:
            raise Unsupported('flags of a regular expression')
        try:
            compiled = re.compile(pattern) if isinstance(pattern, str) else None
        except re.error as e:
            raise Unsupported('invalid regular expression: %s' % e)
        if compiled is not None and isinstance(s, str):
            m = getattr(compiled, how)(s)
            return None if m is None else TextMatchV(m)
        p = z3.Function('re_' + how, INT, INT, z3.BoolSort())(V.zterm(pattern), V.zterm(s))
        C.regexes.append((how, pattern))
        C.terms.setdefault('re', []).append((how, pattern))
        if not C.branch(p):
            return None
        return MatchV(pattern, how, s, compiled)
    return f


class TextMatchV:
    def __init__(self, m):
        self.m = m

    def truth(self):
        return True

    def get_attr(self, interp, name):
        from .interp import Builtin
        if name == 'group':
            return Builtin(name, lambda *a: self.m.group(*a) if len(a) < 2 else V.seq_of(list(self.m.group(*a))))
        if name == 'groups':
            return Builtin(name, lambda: V.seq_of(list(self.m.groups())))
        raise Unsupported('Match.' + name)


class PatternV:
    " compiled regular expression "
    def __init__(self, pattern):
        self.pattern = pattern

    def get_attr(self, interp, name):
        from .interp import Builtin
        if name in ('match', 'fullmatch', 'search'):
            return Builtin(name, lambda s: re_match(name)(self.pattern, s))
        if name == 'pattern':
            return self.pattern
        raise Unsupported('Pattern.' + name)


def install_re(interp):
    import re
    from .interp import Builtin as B
    R = interp.lib['re'].attrs
    for how in ('match', 'fullmatch', 'search'):
        R[how] = B('re.' + how, re_match(how))

    def conc(name):
        def f(*a):
            if not all(isinstance(x, (str, int)) for x in a):
                raise Unsupported('re.' + name)
            r = getattr(re, name)(*a)
            return V.MList(r) if isinstance(r, list) else r
        return B('re.' + name, f)
    for name in ('split', 'sub', 'escape', 'findall'):
        R[name] = conc(name)

    def compile_(p, flags=0):
        if not is_str(p) or flags != 0:
            raise Unsupported('re.compile')
        return PatternV(p)
    R['compile'] = B('re.compile', compile_)


class CommandV:
    " a command of the command line: its function "
    def __init__(self, f):
        self.f = f

    def get_attr(self, interp, name):
        from .interp import Builtin
        if name in ('command', 'group'):
            return Builtin(name, lambda *a, **k: Builtin('decorator', CommandV))
        if name == 'callback':
            return self.f
        raise Unsupported('click command.' + name)


def install_click(interp):
    from . import interp as I
    B = I.Builtin
    ident = B('decorator', lambda f: f)
    deco = B('decorator', CommandV)
    interp.lib['click'].attrs.update(
        group=B('click.group', lambda *a, **k: deco), command=B('click.command', lambda *a, **k: deco),
        option=B('click.option', lambda *a, **k: ident), argument=B('click.argument', lambda *a, **k: ident),
        pass_context=ident, echo=B('click.echo', lambda *a, **k: interp.effect('echo', a)),
        Group=I.ClassV('Group', [I.OBJECT], {}), Context=I.ClassV('Context', [I.OBJECT], {}))
    interp.lib['pkg_resources'].attrs['iter_entry_points'] = B('iter_entry_points', I._unmodelled('iter_entry_points'))
