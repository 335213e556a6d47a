""" pyvc interpreter: symbolic execution of the real source text of razorback.

The modules are parsed with ast from /repo/src/razorback on every run; their top level is
executed by this interpreter, library modules being replaced by the models of lib.py.
"""
import ast
import os
import z3

from . import values as V
from .values import (
    C, Unsupported, PathEnd, PyRaise, ExcV, py_raise, EXC, Obj, MList, MDict, MSet, SetV, SeqV, SliceV,
    RangeV, SymStr, Opaque, UFn, XNum, Mutable, seq_of, isz, is_int, is_num, is_str, is_bool, is_real, is_tuple,
    add, sub, mul, truth, zint, cmp, eq, simp,
)


class ReturnX(Exception):
    def __init__(self, value):
        self.value = value


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class Poison:
    def __init__(self, name):
        self.name = name


class Env:
    " variables of a function call, comprehension or module "
    def __init__(self, parent, module, func=None):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.func = func
        self.yields = None
        self.cls = None
        self.exc = None
        self.nonlocals = set()
        self.late = None        # name -> value seen by the closures once the loop is over
        self.origin = None      # environment copied by this one
        self.lazy = ()          # names read by a generator not consumed yet

    def lookup(self, name):
        e = self
        closed = False
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if e.late is not None:
                    v = e.late(name, v)
                elif closed and e.origin is not None:
                    o = e.origin
                    while o.origin is not None and name in o.origin.vars:
                        o = o.origin
                    if o.vars.get(name) is not v:
                        raise Unsupported('variable %s of a closure assigned again' % name)
                if isinstance(v, Poison):
                    raise Unsupported('loop-carried variable %s' % name)
                return v
            closed = closed or e.late is not None
            e = e.parent
        g = self.module.attrs
        if name in g:
            return g[name]
        if name in BUILTINS:
            return BUILTINS[name]
        py_raise('NameError', name)

    def store(self, name, value):
        if name in self.nonlocals:
            e = self.parent
            while e is not None and name not in e.vars:
                e = e.parent
            if e is None:
                raise Unsupported('nonlocal')
            e.vars[name] = value
            return
        if name in self.lazy:
            raise Unsupported('variable %s of a generator assigned again' % name)
        self.vars[name] = value

    def snapshot(self):
        e = Env(self.parent.snapshot() if self.parent is not None else None, self.module, self.func)
        e.vars = dict(self.vars)
        e.yields, e.cls, e.exc = self.yields, self.cls, self.exc
        e.late, e.origin, e.lazy = self.late, self, self.lazy
        return e


class ModV:
    def __init__(self, name, attrs=None, file=None):
        self.name, self.attrs, self.file = name, dict(attrs or {}), file

    def __repr__(self):
        return '<module %s>' % self.name


class FuncV:
    def __init__(self, node, env, module, qualname, defaults, kwdefaults):
        self.node, self.env, self.module, self.qualname = node, env, module, qualname
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.name = getattr(node, 'name', '<lambda>')
        self.attrs = {}
        self.cls = None
        body = node.body if isinstance(node.body, list) else [node.body]
        self.is_gen = not isinstance(node, ast.Lambda) and contains_yield(body)

    def __repr__(self):
        return '<function %s>' % self.qualname


def contains_yield(body):
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp, ast.ListComp,
                          ast.SetComp, ast.DictComp)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class ClassV:
    def __init__(self, name, bases, attrs, module=None):
        self.name, self.bases, self.attrs, self.module = name, bases, attrs, module
        self.fields = None          # named tuples
        self.mro = [self]
        for b in bases:
            for c in b.mro:
                if c not in self.mro:
                    self.mro.append(c)
        if OBJECT is not None and OBJECT in self.mro:
            self.mro.remove(OBJECT)
            self.mro.append(OBJECT)

    def lookup(self, name, after=None):
        mro = self.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in c.attrs:
                return c.attrs[name]
        return None

    def find_class(self, name):
        for c in self.mro:
            if name in c.attrs:
                return c

    def is_sub(self, other):
        return other in self.mro

    def __repr__(self):
        return '<class %s>' % self.name


OBJECT = None
OBJECT = ClassV('object', [], {})


class PropV:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class ClassM:
    def __init__(self, f):
        self.f = f


class StaticM:
    def __init__(self, f):
        self.f = f


class BoundM:
    def __init__(self, obj, f):
        self.obj, self.f = obj, f

    def __repr__(self):
        return '<bound %r>' % (self.f,)


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return '<builtin %s>' % self.name


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class StarArg:
    " *seq call argument of symbolic length "
    def __init__(self, seq):
        self.seq = seq


BUILTINS = {}


def mk_exc(name, base=None):
    c = ClassV(name, [base or OBJECT], {})
    EXC[name] = c
    BUILTINS[name] = c
    return c


mk_exc('BaseException')
mk_exc('Exception', EXC['BaseException'])
for _n in ('ValueError TypeError AssertionError LookupError ArithmeticError AttributeError NameError '
           'StopIteration ImportError OSError RuntimeError NotImplementedError').split():
    mk_exc(_n, EXC['Exception'])
mk_exc('IndexError', EXC['LookupError'])
mk_exc('KeyError', EXC['LookupError'])
mk_exc('ZeroDivisionError', EXC['ArithmeticError'])
mk_exc('OverflowError', EXC['ArithmeticError'])
mk_exc('ModuleNotFoundError', EXC['ImportError'])
mk_exc('FileNotFoundError', EXC['OSError'])
mk_exc('LinAlgError', EXC['ValueError'])
mk_exc('struct.error', EXC['Exception'])


class Interp:
    def __init__(self, src='/repo/src/razorback', package='razorback'):
        self.src, self.package = src, package
        self.modules = {}
        self.numpy_scalars = False     # every scalar of the case is a numpy one (division by zero gives inf / nan)
        self.contracts = {}        # qualname -> summary callable(interp, args, kwargs)
        self.invariants = {}       # (qualname, n) -> loop handler
        self.executed = set()      # qualified names of the functions executed
        self.depth = 0
        self.lib = {}              # library module models
        self.attr_hooks = []
        self.active = []
        self.loop_counter = {}

    # ---- modules ------------------------------------------------------------
    def load(self, dotted):
        if dotted in self.modules:
            return self.modules[dotted]
        parts = dotted.split('.')
        assert parts[0] == self.package
        path = os.path.join(self.src, *parts[1:])
        if os.path.isdir(path):
            file = os.path.join(path, '__init__.py')
        else:
            file = path + '.py'
        mod = ModV(dotted, {'__name__': dotted, '__file__': file}, file)
        mod.is_pkg = os.path.isdir(path)
        self.modules[dotted] = mod
        if dotted == self.package:
            # the top package is not executed (it only re-exports the modules)
            return mod
        with open(file) as f:
            tree = ast.parse(f.read(), file)
        env = Env(None, mod)
        env.vars = mod.attrs
        for st in tree.body:
            self.exec(st, env)
        return mod

    def resolve(self, qualname):
        " 'signalset.SyncSignal.extract_t' -> function value "
        parts = qualname.split('.')
        for i in range(len(parts) - 1, 0, -1):
            dotted = '.'.join([self.package] + parts[:i])
            path = os.path.join(self.src, *parts[:i])
            if os.path.exists(path + '.py') or os.path.isdir(path):
                v = self.load(dotted)
                for p in parts[i:]:
                    if isinstance(v, ClassV):
                        v = v.lookup(p)
                    else:
                        v = v.attrs.get(p)
                    if v is None:
                        raise Unsupported('function %s not found' % qualname)
                return v
        raise Unsupported('function %s not found' % qualname)

    def import_module(self, name, frm=None, level=0):
        if level:
            pkg = frm.name.split('.')
            if not getattr(frm, 'is_pkg', False):
                pkg = pkg[:-1]
            pkg = pkg[:len(pkg) - (level - 1)]
            name = '.'.join(pkg + ([name] if name else []))
        if name.split('.')[0] == self.package:
            try:
                return self.load(name)
            except FileNotFoundError:
                py_raise('ModuleNotFoundError', name)
        if name in self.lib:
            return self.lib[name]
        py_raise('ModuleNotFoundError', name)

    # ---- statements ---------------------------------------------------------
    def exec_block(self, body, env):
        for st in body:
            self.exec(st, env)

    def exec(self, st, env):
        m = getattr(self, 'st_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(st).__name__)
        try:
            m(st, env)
        except Unsupported as e:
            if not getattr(e, 'located', False):
                e.located = True
                e.args = ('%s (line %d of %s)' % (e.args[0] if e.args else '', st.lineno, env.module.name),)
            raise

    def st_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env)

    def st_Pass(self, st, env):
        pass

    def st_Return(self, st, env):
        raise ReturnX(self.eval(st.value, env) if st.value is not None else None)

    def st_Break(self, st, env):
        raise BreakX()

    def st_Continue(self, st, env):
        raise ContinueX()

    def st_Nonlocal(self, st, env):
        env.nonlocals.update(st.names)

    def st_Global(self, st, env):
        raise Unsupported('global statement')

    def st_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)
        self.lazy_names(st.value, env)

    def st_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)
        elif env.cls is not None:
            env.vars.setdefault('__annotations__', []).append(st.target.id)
            return
        if env.cls is not None and isinstance(st.target, ast.Name):
            env.vars.setdefault('__annotations__', []).append(st.target.id)

    def st_AugAssign(self, st, env):
        op = BINOPS[type(st.op)]
        t = st.target
        if isinstance(t, ast.Name):
            old = env.lookup(t.id)
            env.store(t.id, self.inplace(op, old, self.eval(st.value, env)))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(op, old, self.eval(st.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            i = self.eval(t.slice, env)
            old = self.getitem(o, i)
            self.setitem(o, i, self.inplace(op, old, self.eval(st.value, env)))
        else:
            raise Unsupported('augmented assignment')

    def st_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, env), self.eval(t.slice, env))
            elif isinstance(t, ast.Attribute):
                self.delattr(self.eval(t.value, env), t.attr)
            else:
                raise Unsupported('del')

    def st_If(self, st, env):
        if truth(self.eval(st.test, env)):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def st_Assert(self, st, env):
        if not truth(self.eval(st.test, env)):
            py_raise('AssertionError')

    def st_Raise(self, st, env):
        if st.exc is None:
            e = env
            while e is not None:
                if e.exc is not None:
                    raise PyRaise(e.exc)
                e = e.parent
            raise Unsupported('raise')
        v = self.eval(st.exc, env)
        if isinstance(v, ClassV):
            v = self.call(v, [], {})
        if not isinstance(v, ExcV):
            raise Unsupported('raise of a %s' % type(v).__name__)
        raise PyRaise(v)

    def st_Try(self, st, env):
        mark = len(C.pc)
        try:
            try:
                self.exec_block(st.body, env)
            except PyRaise as e:
                if any(k == 'branch' for _, k, _ in C.pc[mark:]) and C.infeasible(300):
                    raise PathEnd()
                for h in st.handlers:
                    if h.type is None:
                        match = True
                    else:
                        t = self.eval(h.type, env)
                        ts = seq_of(t).list() if is_tuple(t) else [t]
                        match = any(e.exc.cls.is_sub(c) for c in ts)
                    if match:
                        if h.name:
                            env.store(h.name, e.exc)
                        old, env.exc = env.exc, e.exc
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            env.exc = old
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, env)
        except (PathEnd, Unsupported, V.Budget):
            raise
        except (PyRaise, ReturnX, BreakX, ContinueX):
            self.exec_block(st.finalbody, env)
            raise
        else:
            self.exec_block(st.finalbody, env)

    def st_With(self, st, env):
        exits = []
        for item in st.items:
            cm = self.eval(item.context_expr, env)
            v, ex = self.enter(cm)
            exits.append(ex)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, env)
        try:
            self.exec_block(st.body, env)
        finally:
            for ex in reversed(exits):
                ex()

    def enter(self, cm):
        if hasattr(cm, 'enter'):
            return cm.enter()
        if isinstance(cm, Obj) and cm.cls.lookup('__enter__'):
            raise Unsupported('context manager')
        raise Unsupported('context manager %r' % cm)

    def st_FunctionDef(self, st, env):
        f = self.make_func(st, env, st.name)
        v = f
        for d in reversed(st.decorator_list):
            dv = self.eval(d, env)
            v = self.call(dv, [v], {})
        env.store(st.name, v)

    def make_func(self, node, env, name):
        a = node.args
        defaults = [self.eval(d, env) for d in a.defaults]
        kwd = [self.eval(d, env) if d is not None else None for d in a.kw_defaults]
        prefix = ''
        if env.cls is not None:
            prefix = env.cls + '.'
        elif env.func is not None:
            prefix = env.func.qualname.split(':')[-1] + '.'
        short = env.module.name[len(self.package) + 1:]
        qual = (prefix + name) if prefix.startswith(short + '.') else short + '.' + prefix + name
        fenv = env if (env.func is not None or env.parent is not None) and env.cls is None else None
        if env.cls is not None:
            fenv = env.parent
        f = FuncV(node, fenv, env.module, qual, defaults, kwd)
        return f

    def st_ClassDef(self, st, env):
        bases = [self.eval(b, env) for b in st.bases]
        cenv = Env(env if env.func is not None else None, env.module, env.func)
        cenv.cls = (env.cls + '.' if env.cls else '') + st.name
        for b in st.body:
            self.exec(b, cenv)
        named = any(isinstance(b, Builtin) and b.name == 'NamedTuple' for b in bases)
        bases = [b for b in bases if isinstance(b, ClassV)] or [OBJECT]
        cls = ClassV(st.name, bases, dict(cenv.vars), env.module)
        if named:
            cls.fields = cls.attrs.pop('__annotations__', [])
        for v in cls.attrs.values():
            for f in (v, getattr(v, 'f', None), getattr(v, 'fget', None), getattr(v, 'fset', None)):
                if isinstance(f, FuncV) and f.cls is None:
                    f.cls = cls
        v = cls
        for d in reversed(st.decorator_list):
            v = self.call(self.eval(d, env), [v], {})
        env.store(st.name, v)

    def st_Import(self, st, env):
        for a in st.names:
            m = self.import_module(a.name)
            if a.asname:
                env.store(a.asname, m)
            else:
                top = a.name.split('.')[0]
                env.store(top, self.import_module(top))

    def st_ImportFrom(self, st, env):
        m = self.import_module(st.module or '', env.module, st.level)
        for a in st.names:
            if a.name == '*':
                for k, v in m.attrs.items():
                    if not k.startswith('_'):
                        env.store(k, v)
                continue
            if a.name in m.attrs:
                v = m.attrs[a.name]
            else:
                full = (m.name + '.' + a.name)
                try:
                    v = self.import_module(full)
                except PyRaise:
                    if m.name.split('.')[0] == self.package:
                        py_raise('ImportError', a.name)
                    v = Builtin(full, _unmodelled(full))
            env.store(a.asname or a.name, v)

    def st_While(self, st, env):
        n = 0
        while True:
            t = self.eval(st.test, env)
            if not (isinstance(t, bool) or not isz(t) or C.decide(t) is not None):
                h = self.loop_handler(st, env)
                if h:
                    return h(self, st, env, None)
                raise Unsupported('while loop with a symbolic condition')
            if not truth(t):
                break
            n += 1
            if n > 200:
                raise Unsupported('long while loop')
            try:
                self.exec_block(st.body, env)
            except BreakX:
                return
            except ContinueX:
                continue
        self.exec_block(st.orelse, env)

    def loop_handler(self, st, env):
        if env.func is None:
            return None
        loops = [n for n in ast.walk(env.func.node) if isinstance(n, (ast.For, ast.While))]
        loops.sort(key=lambda n: (n.lineno, n.col_offset))
        i = loops.index(st) if st in loops else -1
        return self.invariants.get((env.func.qualname, i))

    def st_For(self, st, env):
        it = self.iter_seq(self.eval(st.iter, env))
        h = self.loop_handler(st, env)
        if h is not None and not it.concrete:
            return h(self, st, env, it)
        if it.concrete:
            if it.n > 300:
                raise Unsupported('long loop')
            for e in (it.items if it.items is not None else (it.get(k) for k in range(it.n))):
                self.assign(st.target, e, env)
                try:
                    self.exec_block(st.body, env)
                except BreakX:
                    return
                except ContinueX:
                    pass
            self.exec_block(st.orelse, env)
            return
        self.symbolic_loop(st, env, it)
        self.exec_block(st.orelse, env)

    # ---- automatic summary of loops over symbolic sequences -------------------
    def symbolic_loop(self, st, env, it):
        assigned = assigned_names(st.body) | assigned_names([ast.Expr(st.target)] if False else []) \
            | target_names(st.target)
        base = env.snapshot()
        for name in assigned:
            if name in base.vars or True:
                base.vars[name] = Poison(name)
        birth = C.tick()

        def run(k, poison):
            " body at index k: list of effects "
            e = base.snapshot()
            log = []
            old_poison = C.poison
            C.poison = set(poison)
            C.effect_stack.append((birth, log))
            try:
                self.assign(st.target, it.get(k), e)
                try:
                    self.exec_block(st.body, e)
                except ContinueX:
                    pass
                except BreakX:
                    raise Unsupported('break in a symbolic loop')
                except ReturnX:
                    raise Unsupported('return in a symbolic loop')
            finally:
                C.effect_stack.pop()
                C.poison = old_poison

            def late(name, value):
                if name in assigned:
                    raise Unsupported('closure on the loop variable %s' % name)
                return value
            e.late = late
            return log

        # pass 1: targets
        k, rng, paths = C.generic(it.n, lambda k: run(k, ()))
        targets = []
        for p in paths:
            if p.kind == 'val':
                for (o, kind, d) in p.value:
                    if not any(o is t for t in targets):
                        targets.append(o)
        # pass 2: no read of the targets
        k, rng, paths = C.generic(it.n, lambda k: run(k, targets))
        self.exclude_raise(it.n, lambda j: run(j, targets), paths, k)
        normal = [p for p in paths if p.kind == 'val']
        effects = []
        for o in targets:
            per = [[(kind, d) for (x, kind, d) in p.value if x is o] for p in normal]
            kinds = {kind for l in per for kind, _ in l}
            counts = {len(l) for l in per}
            if kinds == {'append', 'extend'}:
                kinds = {'extend'}
            if len(kinds) != 1:
                raise Unsupported('mixed effects in a symbolic loop')
            kind = kinds.pop()

            def fetch(j, o=o, kind=kind):
                log = run(j, targets)
                if kind == 'extend':
                    return [seq_of((d,)) if e == 'append' else seq_of(d) for (x, e, d) in log if x is o]
                return [d for (x, _, d) in log if x is o]
            if kind in ('append', 'yield', 'add') or kind == 'setitem':
                if counts == {1}:
                    seq = SeqV(it.n, lambda j, fetch=fetch: fetch(j)[0])
                elif counts == {0, 1}:
                    src = SeqV(it.n, lambda j: j)
                    seq = V.seq_filter(src, lambda j, fetch=fetch: len(fetch(j)) == 1,
                                       get=lambda j, fetch=fetch: self.one(fetch(j)))
                elif len(counts) == 1:
                    m = counts.pop()
                    seq = V.seq_flatten(SeqV(it.n, lambda j, fetch=fetch: tuple(fetch(j))))
                else:
                    seq = V.seq_flatten(SeqV(it.n, lambda j, fetch=fetch: tuple(fetch(j))))
            elif kind == 'extend':
                seq = V.seq_flatten(SeqV(
                    it.n, lambda j, fetch=fetch: V.seq_concat(*fetch(j))))
            else:
                raise Unsupported('effect %s in a symbolic loop' % kind)
            effects.append((o, kind, seq))
        # apply
        for o, kind, seq in effects:
            if kind in ('append', 'yield', 'extend'):
                o.extend(seq)
            elif kind == 'setitem' and isinstance(o, MDict):
                self.dict_bulk(o, seq)
            elif kind == 'setitem' and hasattr(o, 'bulk_set'):
                o.bulk_set(seq)
            elif kind == 'add':
                o.assign(SetV(V.seq_concat(o.set.seq, seq)), 'add', None)
            else:
                raise Unsupported('effect %s' % kind)
        for name in assigned:
            env.vars[name] = Poison(name)
            if not C.branch(cmp('>', it.n, 0)) and name in base.vars:
                pass

    def one(self, l):
        if len(l) != 1:
            raise PathEnd()
        return l[0]

    def exclude_raise(self, n, fn, paths, k):
        """ fork: an element raises (then follow it), or none does """
        bad = [p for p in paths if p.kind == 'raise']
        if not bad:
            return
        conds = [z3.And(p.cond, *p.facts) for p in bad]
        # a raising element is described by its path conditions
        facts = [z3.Implies(p.cond, z3.And(*p.facts)) for p in paths if p.facts]
        bc = z3.Or(*[p.cond for p in bad])

        def yes():
            w = C.fresh('w', z3.IntSort())
            C.assume(z3.And(w >= 0, w < zint(n)))
            self._w = w

        def no():
            body = z3.And(*(facts + [z3.Not(bc)]))
            C.assume(V.quantify(k, z3.And(k >= 0, k < zint(n)), body))
        if C.fork(yes, no):
            w = self._w
            fn(w)
            raise PathEnd()      # that one does not raise

    def dict_bulk(self, d, seq):
        " d[key(k)] = value(k) for all k, in order "
        if isinstance(d.length(), int) and d.length() == 0:
            nd = self.dict_from_pairs(seq)
            d.set_content(nd._c, 'setitem', None)
            return
        keys = SeqV(seq.n, lambda k: seq_of(seq.get(k)).get(0))
        old = d.content
        if old[0] == 'c':
            ko, vo = d.keys(), d.values()
        else:
            ko, vo = old[1], old[2]
        # disjoint keys?
        if self.pairwise_distinct(keys) and C.prove_forall(
                keys.n, lambda k: V.bnot(V.as_formula(lambda: V.seq_contains(ko, keys.get(k))))):
            vals = SeqV(seq.n, lambda k: seq_of(seq.get(k)).get(1))
            d.set_content(('s', V.seq_concat(ko, keys), V.seq_concat(vo, vals)), 'setitem', None)
            return
        raise Unsupported('dict update with possibly repeated keys')

    def pairwise_distinct(self, keys):
        if keys.hints.get('distinct') or keys.hints.get('increasing') or keys.hints.get('range'):
            return True
        return C.prove_forall(keys.n, lambda a: C.forall_formula(keys.n, lambda b: z3.Implies(
            zint(a) < zint(b), V.zbool(V.bnot(V.as_formula(lambda: eq(keys.get(a), keys.get(b)))))))) \
            if False else self._distinct(keys)

    def _distinct(self, keys):
        " two arbitrary positions hold different keys "
        def inner(a):
            ok = C.prove_forall(sub(keys.n, add(a, 1)),
                                lambda d: V.bnot(V.as_formula(
                                    lambda: eq(keys.get(a), keys.get(add(add(a, 1), d))))))
            return ok
        return C.prove_forall(keys.n, inner)

    def dict_from_pairs(self, seq, excluded=()):
        if seq.concrete:
            d = MDict()
            for e in seq.list():
                e = seq_of(e)
                d.setitem(e.get(0), e.get(1))
            return d
        keys = SeqV(seq.n, lambda k: seq_of(seq.get(k)).get(0))
        vals = SeqV(seq.n, lambda k: seq_of(seq.get(k)).get(1))
        hint = seq.hints.get('keys')
        if hint is not None:
            keys = hint
        if self.pairwise_distinct(keys):
            keys.hints['distinct'] = True
            return MDict(sym=(keys, vals), excluded=excluded)
        first = MultiMap(keys, vals)
        return first

    # ---- assignment ---------------------------------------------------------
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.store(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval(t.slice, env), v)
        elif isinstance(t, ast.Starred):
            raise Unsupported('starred assignment')
        else:
            raise Unsupported('assignment to %s' % type(t).__name__)

    def unpack(self, elts, v, env):
        seq = self.iter_seq(v)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        m = len(elts)
        if star:
            i = star[0]
            if C.branch(cmp('<', seq.n, m - 1)):
                py_raise('ValueError', 'not enough values to unpack')
            for j in range(i):
                self.assign(elts[j], seq.get(j), env)
            rest = V.seq_slice(seq, i, sub(seq.n, m - 1))
            self.assign(elts[i].value, MList(rest), env)
            for j in range(i + 1, m):
                self.assign(elts[j], seq.get(sub(seq.n, m - j)), env)
            return
        if C.branch(V.zbool(cmp('!=', seq.n, m)) if not isinstance(cmp('!=', seq.n, m), bool)
                    else cmp('!=', seq.n, m)):
            py_raise('ValueError', 'unpack')
        for j, e in enumerate(elts):
            self.assign(e, seq.get(j), env)

    # ---- expressions --------------------------------------------------------
    def eval(self, e, env):
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, env)

    def ex_Constant(self, e, env):
        if e.value is Ellipsis:
            return Ellipsis
        return e.value

    def ex_Name(self, e, env):
        return env.lookup(e.id)

    def ex_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def ex_Tuple(self, e, env):
        return self.display(e.elts, env, tuple)

    def ex_List(self, e, env):
        r = self.display(e.elts, env, list)
        return MList(r)

    def ex_Set(self, e, env):
        return MSet(SetV(seq_of(self.display(e.elts, env, list))))

    def display(self, elts, env, typ):
        if any(isinstance(x, ast.Starred) for x in elts):
            parts = []
            for x in elts:
                if isinstance(x, ast.Starred):
                    parts.append(self.iter_seq(self.eval(x.value, env)))
                else:
                    parts.append(seq_of([self.eval(x, env)]))
            s = V.seq_concat(*parts)
            if s.concrete:
                return typ(s.list())
            return s
        return typ([self.eval(x, env) for x in elts])

    def ex_Dict(self, e, env):
        d = MDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, env)
                self.dict_update(d, o)
            else:
                d.setitem(self.eval(k, env), self.eval(v, env))
        return d

    def ex_Lambda(self, e, env):
        return self.make_func(e, env, '<lambda>')

    def ex_IfExp(self, e, env):
        return self.eval(e.body if truth(self.eval(e.test, env)) else e.orelse, env)

    def ex_BoolOp(self, e, env):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, env)
            if i == len(e.values) - 1:
                return v
            t = truth(v)
            if t != is_and:
                # short circuit: the value itself (booleans are decided here)
                return t if is_bool(v) else v
        return v

    def ex_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            if isz(v) and z3.is_bool(v):
                return simp(z3.Not(v))
            return not truth(v)
        if isinstance(e.op, ast.USub):
            return self.unary('neg', v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return self.unary('invert', v)

    def unary(self, op, v):
        if is_num(v):
            if op == 'neg':
                return V.neg(v)
            if isz(v) and z3.is_bool(v):
                raise Unsupported('~ on a boolean')
            return sub(V.neg(v), 1)
        if hasattr(v, 'unary'):
            return v.unary(op)
        raise Unsupported('unary %s on %s' % (op, type(v).__name__))

    def ex_BinOp(self, e, env):
        return self.binop(BINOPS[type(e.op)], self.eval(e.left, env), self.eval(e.right, env))

    def ex_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = True
        for i, (op, x) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(x, env)
            r = self.compare(type(op), left, right)
            if i == len(e.ops) - 1:
                if res is True:
                    return r
                return V.band(res, r)
            if not is_bool(r):
                raise Unsupported('chained comparison of arrays')
            if r is False:
                return False
            # the following operands are only evaluated when true
            if not truth(r):
                return False
            left = right
        return res

    def compare(self, op, a, b):
        if op is ast.Is or op is ast.IsNot:
            r = self.is_(a, b)
            return r if op is ast.Is else V.bnot(r)
        if op is ast.In or op is ast.NotIn:
            r = self.contains(b, a)
            return r if op is ast.In else V.bnot(r)
        sym = CMPOPS[op]
        if hasattr(a, 'np_cmp') or hasattr(b, 'np_cmp'):
            return self.np_binop(sym, a, b)
        if sym == '==':
            return eq(a, b)
        if sym == '!=':
            return V.bnot(eq(a, b))
        if is_num(a) and is_num(b):
            return cmp(sym, a, b)
        if isinstance(a, (SetV, MSet)) and isinstance(b, (SetV, MSet)):
            x, y = V.as_set(a), V.as_set(b)
            if sym == '<=':
                return V.set_subset(x, y)
            if sym == '>=':
                return V.set_subset(y, x)
            raise Unsupported('set comparison')
        if sym == '<':
            return V.less(a, b)
        if sym == '>':
            return V.less(b, a)
        if sym == '<=':
            return V.bnot(V.less(b, a))
        return V.bnot(V.less(a, b))

    def np_binop(self, op, a, b):
        raise Unsupported('arrays not loaded')

    def is_(self, a, b):
        if a is None or b is None:
            return a is b
        if isinstance(a, bool) or isinstance(b, bool):
            return a is b
        if isinstance(a, (ClassV, FuncV, Builtin)) or isinstance(b, (ClassV, FuncV, Builtin)):
            return a is b
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return simp(a.term == b.term)
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a is b:
                return True
            ka, kb = getattr(a, 'key', None), getattr(b, 'key', None)
            if ka is not None and kb is not None:
                return simp(ka == kb)
            if not (a.inp or b.inp):
                return False
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        raise Unsupported('identity of %s' % type(a).__name__)

    def contains(self, c, v):
        if hasattr(c, 'contains'):
            return c.contains(v)
        if isinstance(c, MSet):
            return c.set.contains(v)
        if isinstance(c, MDict):
            return c.find(v) is not None
        if isinstance(c, MultiMap):
            return V.seq_contains(c.keys, v)
        if isinstance(c, (MList, SeqV, tuple, list)):
            return V.seq_contains(c.seq if isinstance(c, MList) else seq_of(c), v)
        if isinstance(c, Obj):
            m = c.cls.lookup('__contains__')
            if m is not None:
                r = self.call(m, [c, v], {})
                return r if is_bool(r) else truth(r)
            return V.seq_contains(self.iter_seq(c), v)
        if isinstance(c, str) and isinstance(v, str):
            return v in c
        if is_str(c):
            f = z3.Function('str_contains', z3.IntSort(), z3.IntSort(), z3.BoolSort())
            return f(V.zterm(c), V.zterm(v))
        raise Unsupported('membership in %s' % type(c).__name__)

    def binop(self, op, a, b):
        if hasattr(a, 'np_cmp') or hasattr(b, 'np_cmp'):
            return self.np_binop(op, a, b)
        if is_num(a) and is_num(b):
            return self.num_binop(op, a, b)
        if op == '+':
            if is_tuple(a) and is_tuple(b):
                s = V.seq_concat(seq_of(a), seq_of(b))
                return tuple(s.list()) if s.concrete else s
            if isinstance(a, MList) and isinstance(b, MList):
                return MList(V.seq_concat(a.seq, b.seq))
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if is_str(a) and is_str(b):
                f = z3.Function('str_concat', z3.IntSort(), z3.IntSort(), z3.IntSort())
                return SymStr(f(V.zterm(a), V.zterm(b)))
            if isinstance(a, CounterV) and isinstance(b, CounterV):
                return a.plus(b)
        if op == '*':
            for x, n in ((a, b), (b, a)):
                if isinstance(x, (MList, tuple, SeqV)) and is_int(n):
                    return self.repeat(x, n)
                if isinstance(x, str) and isinstance(n, int):
                    return x * n
                if is_str(x) and is_int(n):
                    return SymStr(C.fresh('str', z3.IntSort()))
        if op == '%' and is_str(a):
            if isinstance(a, str):
                args = b if isinstance(b, tuple) else (b,)
                if all(isinstance(x, (str, int, float)) and not isz(x) for x in args):
                    try:
                        return a % args
                    except ValueError as err:
                        py_raise('ValueError', str(err))
                    except TypeError as err:
                        py_raise('TypeError', str(err))
            return SymStr(C.fresh('str', z3.IntSort()))
        if op in '|&-^' and isinstance(a, (SetV, MSet)) and isinstance(b, (SetV, MSet)):
            return self.set_binop(op, V.as_set(a), V.as_set(b))
        name = OPNAMES.get(op)
        if isinstance(a, Obj):
            m = a.cls.lookup('__%s__' % name)
            if m is not None:
                return self.call(m, [a, b], {})
        if isinstance(b, Obj):
            m = b.cls.lookup('__r%s__' % name)
            if m is not None:
                return self.call(m, [b, a], {})
        if hasattr(a, 'binop'):
            return a.binop(op, b, False)
        if hasattr(b, 'binop'):
            return b.binop(op, a, True)
        if isinstance(a, Obj) or isinstance(b, Obj) or kind_basic(a) or kind_basic(b):
            py_raise('TypeError', 'unsupported operand')
        raise Unsupported('%s %s %s' % (type(a).__name__, op, type(b).__name__))

    def set_binop(self, op, a, b):
        if op == '|':
            return MSet(SetV(V.seq_concat(a.seq, b.seq)))
        f = (lambda k: V.as_formula(lambda: b.contains(a.seq.get(k))))
        if op == '-':
            g = f
            f = lambda k: V.bnot(g(k))
        elif op != '&':
            raise Unsupported('set %s' % op)
        return MSet(SetV(V.seq_filter(a.seq, f)))

    def repeat(self, x, n):
        s = seq_of(x)
        if isinstance(n, int):
            r = V.seq_concat(*([s] * max(n, 0)))
        else:
            if s.concrete and s.n == 1:
                r = SeqV(V.num_max(n, 0), lambda k: s.get(0))
            elif s.concrete and s.n == 0:
                r = s
            else:
                raise Unsupported('repetition')
        if isinstance(x, MList):
            return MList(r)
        return tuple(r.list()) if r.concrete else r

    def num_binop(self, op, a, b):
        if op == '+':
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op == '/':
            if self.numpy_scalars:
                from . import arrays
                return arrays.np_div(a, b)
            return V.div(a, b)
        if op == '//':
            return V.floordiv(a, b)
        if op == '%':
            return V.mod(a, b)
        if op == '**':
            return V.power(a, b)
        if op == '|' and is_bool(a) and is_bool(b):
            return V.bor(a, b)
        if op == '&' and is_bool(a) and is_bool(b):
            return V.band(a, b)
        if isinstance(a, int) and isinstance(b, int):
            return {'<<': lambda: a << b, '>>': lambda: a >> b, '|': lambda: a | b, '&': lambda: a & b,
                    '^': lambda: a ^ b}[op]()
        raise Unsupported('operator %s' % op)

    def inplace(self, op, a, b):
        if hasattr(a, 'inplace'):
            return a.inplace(op, b)
        if isinstance(a, MList) and op == '+':
            a.extend(self.iter_seq(b))
            return a
        return self.binop(op, a, b)

    def ex_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, env)
                spec = self.eval(v.format_spec, env) if v.format_spec is not None else ''
                if v.conversion in (-1, 115) and isinstance(x, (str, int)) and not isinstance(x, bool) \
                        and isinstance(spec, str):
                    parts.append(format(x, spec))
                elif is_str(x) and spec == '':
                    parts.append(x)
                elif spec and is_str(x):
                    py_raise('ValueError', 'format')
                else:
                    parts.append(SymStr(C.fresh('str', z3.IntSort())))
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        r = parts[0]
        for p in parts[1:]:
            r = self.binop('+', r, p)
        return r

    def ex_FormattedValue(self, e, env):
        return self.ex_JoinedStr(ast.JoinedStr([e]), env)

    def ex_Yield(self, e, env):
        v = self.eval(e.value, env) if e.value is not None else None
        y = env
        while y.yields is None:
            y = y.parent
        y.yields.append(v)
        return None

    def ex_YieldFrom(self, e, env):
        y = env
        while y.yields is None:
            y = y.parent
        y.yields.extend(self.iter_seq(self.eval(e.value, env)))
        return None

    def ex_Starred(self, e, env):
        raise Unsupported('starred expression')

    def ex_Slice(self, e, env):
        f = lambda x: self.eval(x, env) if x is not None else None
        return SliceV(f(e.lower), f(e.upper), f(e.step))

    def ex_Subscript(self, e, env):
        return self.getitem(self.eval(e.value, env), self.eval(e.slice, env))

    def ex_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def ex_ListComp(self, e, env):
        return MList(self.comprehension(e.generators, lambda en: self.eval(e.elt, en), env))

    def lazy_names(self, e, env):
        " a generator given a name reads its variables later "
        if isinstance(e, ast.GeneratorExp):
            parts = [e.elt] + [c for g in e.generators for c in g.ifs] + [g.iter for g in e.generators[1:]]
            names = {n.id for x in parts for n in ast.walk(x) if isinstance(n, ast.Name)}
            own = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            env.lazy = frozenset(env.lazy) | (names - own)

    def ex_GeneratorExp(self, e, env):
        return self.comprehension(e.generators, lambda en: self.eval(e.elt, en), env)

    def ex_SetComp(self, e, env):
        return MSet(SetV(self.comprehension(e.generators, lambda en: self.eval(e.elt, en), env)))

    def ex_DictComp(self, e, env):
        pairs = self.comprehension(
            e.generators, lambda en: (self.eval(e.key, en), self.eval(e.value, en)), env)
        return self.dict_from_pairs(pairs)

    def comprehension(self, gens, elem, env):
        snap = env.snapshot()
        src = self.iter_seq(self.eval(gens[0].iter, env))
        return self.comp_seq(src, gens, elem, snap)

    def comp_seq(self, src, gens, elem, env, nested=False):
        g, rest = gens[0], gens[1:]

        def bind(k):
            en = Env(env, env.module, env.func)
            self.assign(g.target, src.get(k), en)
            return en

        def late(name, value):
            " the closures created by the elements see the last value "
            if nested or rest:
                raise Unsupported('closure on the loop variable %s' % name)
            return bind(sub(src.n, 1)).vars[name]

        def body(en):
            if rest:
                s2 = self.iter_seq(self.eval(rest[0].iter, en))
                r = self.comp_seq(s2, rest, elem, en, True)
            else:
                r = elem(en)
            if not src.concrete:
                en.late = late
            return r

        def cond(k):
            en = bind(k)
            for c in g.ifs:
                if not truth(self.eval(c, en)):
                    return False
            return True

        if src.concrete:
            out, envs = [], []
            for k in range(src.n):
                en = bind(k)
                envs.append(en)
                if all(truth(self.eval(c, en)) for c in g.ifs):
                    out.append(body(en))
            for en in envs:
                en.late = late
            if rest:
                return V.seq_concat(*out)
            return seq_of(out)
        if g.ifs:
            self.no_raise(src.n, cond)
            idx = SeqV(src.n, lambda k: k)
            sel = V.seq_filter(idx, cond)
            get = lambda j: body(bind(sel.get(j)))
            res = self.map_seq(sel.n, get)
            res.hints['sel'] = sel.hints.get('sel')
        else:
            res = self.map_seq(src.n, lambda k: body(bind(k)))
        if rest:
            return V.seq_flatten(res)
        return res

    def map_seq(self, n, get):
        if isinstance(n, int):
            return seq_of([get(k) for k in range(n)])
        self.no_raise(n, get)
        return SeqV(n, get)

    def no_raise(self, n, get):
        " fork when evaluating some element raises "
        birth = C.tick()

        def run(k):
            C.effect_stack.append((birth, log))
            try:
                get(k)
            finally:
                C.effect_stack.pop()
        log = []
        k, rng, paths = C.generic(n, run)
        if log:
            raise Unsupported('side effect in a delayed evaluation')
        self.exclude_raise(n, get, paths, k)

    # ---- calls --------------------------------------------------------------
    def ex_Call(self, e, env):
        # super() without arguments
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = env.func
            en = env
            while f is not None and f.cls is None:
                en = en.parent
                f = en.func if en else None
            self_name = f.node.args.args[0].arg
            return SuperV(f.cls, env.lookup(self_name))
        f = self.eval(e.func, env)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                s = self.iter_seq(self.eval(a.value, env))
                if s.concrete:
                    args.extend(s.list())
                else:
                    args.append(StarArg(s))
            else:
                args.append(self.eval(a, env))
        for kw in e.keywords:
            if kw.arg is None:
                d = self.eval(kw.value, env)
                d = self.mapping_of(d)
                if not d.sym:
                    for k, v in d.content[1]:
                        if not isinstance(k, str):
                            kwargs.setdefault('**', []).append((k, v))
                        else:
                            kwargs[k] = v
                else:
                    kwargs['**'] = d
            else:
                kwargs[kw.arg] = self.eval(kw.value, env)
        return self.call(f, args, kwargs)

    def mapping_of(self, d):
        " MDict view of a mapping value "
        if isinstance(d, MDict):
            return d
        if isinstance(d, Obj):
            keys = self.iter_seq(d)
            gi = d.cls.lookup('__getitem__')
            if keys.concrete:
                return MDict([(k, self.call(gi, [d, k], {})) for k in keys.list()])
            vals = self.map_seq(keys.n, lambda i: self.call(gi, [d, keys.get(i)], {}))
            keys.hints['distinct'] = True
            return MDict(sym=(keys, vals), excluded=getattr(d, 'excluded', ()))
        raise Unsupported('mapping expected, got %s' % type(d).__name__)

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, BoundM):
            return self.call(f.f, [f.obj] + list(args), kwargs)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Builtin):
            return f.fn(*args, **kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, UFn):
            return f.impl(*args, **kwargs)
        if isinstance(f, (StaticM, ClassM)):
            return self.call(f.f, args, kwargs)
        if isinstance(f, Obj):
            m = f.cls.lookup('__call__')
            if m is not None:
                return self.call(m, [f] + list(args), kwargs)
            py_raise('TypeError', 'not callable')
        if callable(f) and not isinstance(f, type):
            return f(*args, **kwargs)
        if f is None or is_num(f) or is_str(f) or is_tuple(f):
            py_raise('TypeError', 'not callable')
        raise Unsupported('call of %s' % type(f).__name__)

    def instantiate(self, cls, args, kwargs):
        if cls.is_sub(EXC['BaseException']):
            e = ExcV(cls, args)
            return e
        if cls.fields is not None:
            o = Obj(cls)
            vals = list(args)
            if len(vals) + len(kwargs) != len(cls.fields):
                py_raise('TypeError')
            for name, v in zip(cls.fields, vals):
                o.attrs[name] = v
            for name, v in kwargs.items():
                o.attrs[name] = v
            return o
        new = cls.lookup('__new__')
        if isinstance(new, Builtin):
            return new.fn(cls, *args, **kwargs)
        o = Obj(cls)
        init = cls.lookup('__init__')
        if init is not None:
            self.call(init, [o] + list(args), kwargs)
        elif args or kwargs:
            py_raise('TypeError')
        return o

    def call_func(self, f, args, kwargs):
        con = self.contracts.get(f.qualname)
        if con is not None and f.qualname not in self.active:
            r = con(self, f, args, kwargs)
            if r is not NotImplemented:
                return r
        if f.node.__class__ is not ast.Lambda:
            self.executed.add(f.qualname)
        env = Env(f.env, f.module, f)
        self.bind(f, args, kwargs, env)
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Unsupported('recursion depth')
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            if f.is_gen:
                env.yields = MList(())
                try:
                    self.exec_block(f.node.body, env)
                except ReturnX:
                    pass
                return env.yields.seq
            try:
                self.exec_block(f.node.body, env)
            except ReturnX as r:
                return r.value
            return None
        finally:
            self.depth -= 1

    def bind(self, f, args, kwargs, env):
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        extra = kwargs.pop('**', None)
        if a.vararg is not None and a.vararg.arg in params:
            raise Unsupported('args')
        pos = []
        rest = None
        for i, v in enumerate(args):
            if isinstance(v, StarArg):
                tail = args[i:]
                rest = V.seq_concat(*[t.seq if isinstance(t, StarArg) else seq_of([t]) for t in tail])
                break
            pos.append(v)
        vals = {}
        if rest is not None and len(pos) < len(params):
            # the symbolic part must fill the remaining parameters exactly
            need = len(params) - len(pos)
            if a.vararg is None:
                if C.branch(cmp('!=', rest.n, need)):
                    py_raise('TypeError', 'arguments')
                pos.extend(rest.get(i) for i in range(need))
                rest = None
            else:
                if C.branch(cmp('<', rest.n, need)):
                    py_raise('TypeError', 'arguments')
                pos.extend(rest.get(i) for i in range(need))
                rest = V.seq_slice(rest, need, sub(rest.n, need))
        for p, v in zip(params, pos):
            vals[p] = v
        left = pos[len(params):]
        if a.vararg is not None:
            if rest is not None:
                vals[a.vararg.arg] = V.seq_concat(seq_of(left), rest)
            else:
                vals[a.vararg.arg] = tuple(left)
        elif left or rest is not None:
            py_raise('TypeError', 'too many arguments')
        kwonly = [p.arg for p in a.kwonlyargs]
        other = MDict()
        for k, v in kwargs.items():
            if k in params or k in kwonly:
                if k in vals:
                    py_raise('TypeError', 'multiple values for %s' % k)
                vals[k] = v
            elif a.kwarg is not None:
                other.setitem(k, v)
            else:
                py_raise('TypeError', 'unexpected keyword %s' % k)
        if extra is not None:
            if isinstance(extra, list):      # symbolic names
                if a.kwarg is None:
                    raise Unsupported('symbolic keyword names')
                for k, v in extra:
                    other.setitem(k, v)
            else:
                if a.kwarg is None:
                    raise Unsupported('symbolic keywords')
                for p in params + kwonly:
                    i = extra.find(p)
                    if i is not None:
                        raise Unsupported('symbolic keyword equal to a parameter')
                if other.length() != 0:
                    raise Unsupported('keywords')
                other = MDict(sym=(extra.keys(), extra.values()), excluded=extra.excluded)
        n = len(params)
        nd = len(f.defaults)
        for i, p in enumerate(params):
            if p not in vals:
                if i >= n - nd:
                    vals[p] = f.defaults[i - (n - nd)]
                else:
                    py_raise('TypeError', 'missing argument %s' % p)
        for p, d, node in zip(kwonly, f.kwdefaults, a.kw_defaults):
            if p not in vals:
                if node is None:
                    py_raise('TypeError', 'missing argument %s' % p)
                vals[p] = d
        if a.kwarg is not None:
            vals[a.kwarg.arg] = other
        env.vars.update(vals)

    # ---- attributes ---------------------------------------------------------
    def getattr(self, o, name, default=None, has_default=False):
        try:
            return self._getattr(o, name)
        except PyRaise as e:
            if has_default and e.exc.cls.is_sub(EXC['AttributeError']):
                return default
            raise

    def _getattr(self, o, name):
        if isinstance(o, Obj):
            ga = o.cls.lookup('__getattribute__')
            if ga is not None and ga is not OBJECT.attrs.get('__getattribute__'):
                return self.call(ga, [o, name], {})
            try:
                return self.obj_getattr(o, name)
            except PyRaise as e:
                if not e.exc.cls.is_sub(EXC['AttributeError']):
                    raise
                m = o.cls.lookup('__getattr__')
                if m is not None:
                    return self.call(m, [o, name], {})
                raise
        if isinstance(o, ModV):
            if name in o.attrs:
                return o.attrs[name]
            if o.name.split('.')[0] == self.package:
                try:
                    return self.import_module(o.name + '.' + name)
                except PyRaise:
                    py_raise('AttributeError', name)
            full = o.name + '.' + name
            if full in self.lib:
                return self.lib[full]
            return Builtin(full, _unmodelled(full))
        if isinstance(o, ClassV):
            if name == '__name__':
                return o.name
            v = o.lookup(name)
            if v is None and o.name == 'str' and name in _lib().STR:
                return Builtin('str.' + name, _lib().STR[name])
            if v is None:
                py_raise('AttributeError', name)
            if isinstance(v, ClassM):
                return BoundM(o, v.f)
            if isinstance(v, StaticM):
                return v.f
            return v
        if isinstance(o, SuperV):
            if isinstance(o.obj, Obj):
                v = o.obj.cls.lookup(name, after=o.cls)
            else:
                v = o.obj.lookup(name, after=o.cls)
            if v is None:
                py_raise('AttributeError', name)
            return self.descr(v, o.obj)
        if isinstance(o, FuncV):
            if name == '__name__':
                return o.name
            if name == '__doc__':
                return None
            if name in o.attrs:
                return o.attrs[name]
            py_raise('AttributeError', name)
        if isinstance(o, BoundM):
            return self._getattr(o.f, name)
        if isinstance(o, PropV):
            if name == 'setter':
                return Builtin('setter', lambda f: PropV(o.fget, f))
            if name == 'fget':
                return o.fget
        if isinstance(o, ExcV):
            if name == 'args':
                return o.args
            v = o.cls.lookup(name)
            if v is None:
                py_raise('AttributeError', name)
            return self.descr(v, o)
        return self.builtin_attr(o, name)

    def descr(self, v, o):
        if isinstance(v, PropV):
            return self.call(v.fget, [o], {})
        if isinstance(v, ClassM):
            return BoundM(o.cls if isinstance(o, Obj) else o, v.f)
        if isinstance(v, StaticM):
            return v.f
        if isinstance(v, (FuncV, Builtin)):
            return BoundM(o, v)
        return v

    def obj_getattr(self, o, name):
        v = o.cls.lookup(name)
        if isinstance(v, PropV):
            return self.call(v.fget, [o], {})
        o.read()
        if name in o.attrs:
            return o.attrs[name]
        if v is not None:
            return self.descr(v, o)
        if name == '__dict__':
            return ObjDict(o)
        if name == '__class__':
            return o.cls
        py_raise('AttributeError', name)

    def setattr(self, o, name, value):
        if isinstance(o, Obj):
            sa = o.cls.lookup('__setattr__')
            if sa is not None and sa is not OBJECT.attrs.get('__setattr__'):
                self.call(sa, [o, name, value], {})
                return
            self.obj_setattr(o, name, value)
            return
        if isinstance(o, ExcV):
            if name == 'args':
                o.args = tuple(seq_of(value).list())
                return
        if hasattr(o, 'set_attr'):
            return o.set_attr(name, value)
        raise Unsupported('attribute assignment on %s' % type(o).__name__)

    def obj_setattr(self, o, name, value):
        v = o.cls.lookup(name)
        if isinstance(v, PropV):
            if v.fset is None:
                py_raise('AttributeError', name)
            self.call(v.fset, [o, value], {})
            return
        if isinstance(name, SymStr):
            raise Unsupported('symbolic attribute name')
        o.setattr(name, value)

    def delattr(self, o, name):
        if isinstance(o, Obj):
            da = o.cls.lookup('__delattr__')
            if da is not None and da is not OBJECT.attrs.get('__delattr__'):
                self.call(da, [o, name], {})
                return
            if name not in o.attrs:
                py_raise('AttributeError', name)
            o.delattr(name)
            return
        raise Unsupported('delattr')

    def builtin_attr(self, o, name):
        from . import lib
        return lib.builtin_attr(self, o, name)

    # ---- items --------------------------------------------------------------
    def getitem(self, o, i):
        if isinstance(o, (MList, tuple, SeqV)):
            s = seq_of(o)
            if isinstance(i, SliceV):
                r = V.slice_seq(s, i)
                if isinstance(o, MList):
                    return MList(r)
                return tuple(r.list()) if r.concrete else r
            if hasattr(i, '__index__') and not isinstance(i, (int, bool)):
                i = i.__index__()
            if is_bool(i) and not is_int(i):
                i = zint(i)
            if not is_int(i):
                if is_real(i) or i is None or is_str(i) or is_tuple(i):
                    py_raise('TypeError', 'indices must be integers')
                i = self.as_index(i)
            return s.get(V.index_bounds(i, s.n))
        if isinstance(o, MDict):
            p = o.find(i)
            if p is None:
                py_raise('KeyError', i)
            return o.get_at(p)
        if isinstance(o, MultiMap):
            return o.lookup(i)
        if isinstance(o, Obj):
            if o.cls.fields is not None:
                return self.getitem(tuple(o.attrs[f] for f in o.cls.fields), i)
            m = o.cls.lookup('__getitem__')
            if m is None:
                py_raise('TypeError', 'not subscriptable')
            return self.call(m, [o, i], {})
        if hasattr(o, 'getitem'):
            return o.getitem(i)
        if isinstance(o, str) and (isinstance(i, int) or isinstance(i, SliceV)):
            if isinstance(i, SliceV):
                return o[slice(i.start, i.stop, i.step)]
            try:
                return o[i]
            except IndexError:
                py_raise('IndexError')
        if isinstance(o, SymStr):
            if isinstance(i, SliceV) and all(e is None or isinstance(e, int) for e in (i.start, i.stop, i.step)):
                return SymStr(V.str_fun('slice_%s_%s_%s' % (i.start, i.stop, i.step))(o.id))
        if o is None or is_num(o):
            py_raise('TypeError', 'not subscriptable')
        if isinstance(o, V.RangeV):
            if isinstance(i, SliceV):
                a, b, c = i.indices(o.n)
                return V.RangeV(add(o.start, mul(a, o.step)), add(o.start, mul(b, o.step)), mul(c, o.step))
            return add(o.start, mul(V.index_bounds(i, o.n, 'range'), o.step))
        raise Unsupported('subscript of %s' % type(o).__name__)

    def as_index(self, i):
        if hasattr(i, 'item_scalar'):
            return i.item_scalar()
        raise Unsupported('index %r' % (i,))

    def setitem(self, o, i, v):
        if isinstance(o, MDict):
            return o.setitem(i, v)
        if isinstance(o, MultiMap):
            return o.setitem(i, v)
        if isinstance(o, Obj):
            m = o.cls.lookup('__setitem__')
            if m is None:
                py_raise('TypeError')
            return self.call(m, [o, i, v], {})
        if hasattr(o, 'setitem'):
            return o.setitem(i, v)
        if isinstance(o, MList):
            if C.effect_mode(o):
                raise Unsupported('list item assignment in a symbolic loop')
            s = o.seq
            if isinstance(i, SliceV):
                raise Unsupported('slice assignment')
            j = V.index_bounds(i, s.n)
            if s.concrete and isinstance(j, int):
                items = s.list()
                items[j] = v
                o.set_seq(items, 'setitem', (i, v))
            else:
                def fn(k):
                    return v if C.branch(zint(k) == zint(j)) else s.get(k)
                o.set_seq(SeqV(s.n, fn), 'setitem', (i, v))
            return
        if is_tuple(o) or is_str(o):
            py_raise('TypeError')
        raise Unsupported('item assignment on %s' % type(o).__name__)

    def delitem(self, o, i):
        if isinstance(o, MDict):
            return o.delitem(i)
        if isinstance(o, Obj):
            m = o.cls.lookup('__delitem__')
            if m is None:
                py_raise('TypeError')
            return self.call(m, [o, i], {})
        raise Unsupported('del on %s' % type(o).__name__)

    # ---- protocols ----------------------------------------------------------
    def iter_seq(self, v):
        if isinstance(v, SeqV):
            return v
        if isinstance(v, (tuple, list)):
            return seq_of(v)
        if isinstance(v, MList):
            return v.seq
        if isinstance(v, RangeV):
            return v.seq
        if isinstance(v, (SetV, MSet)):
            return self.set_elems(V.as_set(v))
        if isinstance(v, MDict):
            return v.keys()
        if isinstance(v, MultiMap):
            raise Unsupported('iteration over a grouped dict')
        if isinstance(v, str):
            return seq_of(list(v))
        if isinstance(v, Obj):
            if v.cls.fields is not None:
                return seq_of([v.attrs[f] for f in v.cls.fields])
            m = v.cls.lookup('__iter__')
            if m is not None:
                return self.iter_seq(self.call(m, [v], {}))
            m = v.cls.lookup('__getitem__')
            if m is not None and v.cls.lookup('__len__') is not None:
                n = self.call(v.cls.lookup('__len__'), [v], {})
                return self.map_seq(n, lambda k: self.call(m, [v, k], {}))
            py_raise('TypeError', 'not iterable')
        if hasattr(v, 'iter_seq'):
            return v.iter_seq()
        if v is None or is_num(v):
            py_raise('TypeError', 'not iterable')
        if isinstance(v, (FuncV, ClassV, UFn, SliceV, Builtin, BoundM)):
            py_raise('TypeError', 'not iterable')
        raise Unsupported('iteration over %s' % type(v).__name__)

    def set_elems(self, s):
        " iteration over a set: an arbitrary order of its distinct values "
        if s.rng is not None:
            return s.seq
        q = s.seq
        if q.hints.get('distinct') or q.hints.get('increasing'):
            return q
        if q.concrete:
            items = q.list()
            reps = []
            for e in items:
                if not any(V.truth_eq(e, r) for r in reps):
                    reps.append(e)
            return seq_of(reps)
        return SetOrder(q).seq

    def len(self, v):
        if isinstance(v, (tuple, list)):
            return len(v)
        if isinstance(v, SeqV):
            return v.n
        if isinstance(v, MList):
            return v.seq.n
        if isinstance(v, MDict):
            return v.length()
        if isinstance(v, RangeV):
            return v.n
        if isinstance(v, (SetV, MSet)):
            return V.set_card(V.as_set(v))
        if isinstance(v, str):
            return len(v)
        if isinstance(v, Obj):
            if v.cls.fields is not None:
                return len(v.cls.fields)
            m = v.cls.lookup('__len__')
            if m is None:
                py_raise('TypeError', 'no len')
            return self.call(m, [v], {})
        if hasattr(v, 'length'):
            return v.length()
        if v is None or is_num(v):
            py_raise('TypeError', 'no len')
        if isinstance(v, SymStr):
            n = z3.Function('str_len', z3.IntSort(), z3.IntSort())(v.id)
            C.assume(n >= 0)
            return n
        raise Unsupported('len of %s' % type(v).__name__)

    def truth(self, v):
        if isinstance(v, (int, float)):
            return bool(v)
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, (tuple, list, SeqV, MList, MDict, RangeV)):
            n = self.len(v)
            return C.branch(cmp('!=', n, 0)) if not isinstance(n, int) else n != 0
        if isinstance(v, (SetV, MSet)):
            s = V.as_set(v)
            n = s.rng.n if s.rng is not None else s.seq.n
            return C.branch(cmp('!=', n, 0)) if not isinstance(n, int) else n != 0
        if isinstance(v, Obj):
            m = v.cls.lookup('__bool__')
            if m is not None:
                return truth(self.call(m, [v], {}))
            m = v.cls.lookup('__len__')
            if m is not None:
                return truth(self.call(m, [v], {}))
            return True
        if isinstance(v, SymStr):
            return C.branch(z3.Function('str_nonempty', z3.IntSort(), z3.BoolSort())(v.id))
        if isinstance(v, (FuncV, ClassV, Builtin, BoundM, ModV, UFn)):
            return True
        if hasattr(v, 'truth'):
            return v.truth()
        if isinstance(v, XNum):
            return truth(cmp('!=', v, 0))
        if isinstance(v, Opaque):
            return True
        raise Unsupported('truth of %s' % type(v).__name__)

    def dict_update(self, d, other):
        o = self.mapping_of(other)
        if not o.sym:
            for k, v in o.content[1]:
                d.setitem(k, v)
            return
        if d.length() == 0:
            d.set_content(('s', o.keys(), o.values()), 'update', None)
            return
        self.dict_bulk(d, o.items())


class SetOrder:
    " iteration order of a set of symbolic size: unspecified permutation of the distinct values "
    def __init__(self, q):
        u = None
        for (s2, res) in C.uniqs:
            if s2 is q:
                u = res
        I = z3.IntSort()
        n = q.n
        m = C.fresh('ns', I)
        SRC = C.fresh_fun('ssrc', [I], I)
        DST = C.fresh_fun('sdst', [I], I)
        C.assume(z3.And(m >= 0, m <= n, z3.Implies(zint(n) > 0, m > 0)))
        j = z3.Const(C._name('j'), I)
        C.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), z3.And(
            SRC(j) >= 0, SRC(j) < n, DST(SRC(j)) == j)), patterns=[SRC(j)]))
        C.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(
            DST(j) >= 0, DST(j) < m)), patterns=[DST(j)]))

        def SRCi(x):
            x = zint(x)
            t = SRC(x)
            C.assume(z3.Implies(z3.And(x >= 0, x < m), z3.And(t >= 0, t < n, DST(t) == x)))
            return t
        C.forall_fact(n, lambda k: V.as_formula(lambda: eq(q.get(k), q.get(SRCi(DST(zint(k)))))))
        C.forall_fact(m, lambda a: C.forall_formula(m, lambda b: z3.Implies(
            zint(a) < zint(b), V.zbool(V.bnot(V.as_formula(lambda: eq(q.get(SRCi(a)), q.get(SRCi(b)))))))))
        self.seq = SeqV(m, lambda k: q.get(SRCi(k)))

        def index_of(v):
            i = V.seq_index(q, v)
            return None if i is None else DST(zint(i))
        self.seq.hints.update(distinct=True, index_of=index_of)

        def place(j):
            " the place in this order of the element j of the collection "
            j = zint(j)
            t = DST(j)
            V.assume_under(z3.And(j >= 0, j < zint(n)), lambda: z3.And(
                t >= 0, t < m, SRC(t) >= 0, SRC(t) < n, V.zbool(V.as_formula(lambda: eq(q.get(j), q.get(SRC(t)))))))
            return t
        place.seq = q
        C.record('order', SRC, DST)
        C.orders.append(place)
        C.log(V._DUMMY, 'memo', None, lambda: C.orders.remove(place), None)


class ObjDict:
    " obj.__dict__ "
    def __init__(self, o):
        self.o = o


class MultiMap(Mutable):
    """ dict built from pairs with possibly repeated keys, values being sets filled by add()

    {i: set() for i in keys} followed by  m[key(p)].add(val(p)) for all p
    """
    def __init__(self, keys, vals):
        super().__init__()
        self.keys, self.vals = keys, vals
        self.adds = None

    def lookup(self, key):
        return MultiMapItem(self, key)

    def setitem(self, key, value):
        raise Unsupported('assignment in a grouped dict')


class MultiMapItem:
    def __init__(self, mm, key):
        self.mm, self.key = mm, key


class CounterV:
    def __init__(self, parts):
        self.parts = parts       # list of key sequences

    def plus(self, other):
        return CounterV(self.parts + other.parts)


def kind_basic(v):
    return v is None or is_num(v) or is_str(v) or is_tuple(v) or isinstance(v, (MList, MDict, SetV, MSet))


def _unmodelled(name):
    def f(*a, **k):
        raise Unsupported('call of the unmodelled function %s' % name)
    return f


def assigned_names(body):
    names = set()
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add(n.name)
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        stack.extend(ast.iter_child_nodes(n))
    return names


def target_names(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


BINOPS = {
    ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
    ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@',
}
OPNAMES = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv', '%': 'mod', '**': 'pow',
           '|': 'or', '&': 'and', '^': 'xor', '<<': 'lshift', '>>': 'rshift', '@': 'matmul'}
CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}


def the():
    return V.INTERP


def new_interp(**kwds):
    from . import lib
    it = Interp(**kwds)
    V.INTERP = it
    lib.install(it)
    return it


def _lib():
    from . import lib
    return lib
