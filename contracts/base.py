""" Contract cases: symbolic inputs, calls to the real functions, obligations.

A case states a contract of one function of /repo/src/razorback: it builds an arbitrary
state allowed by the precondition, runs the function read from the source, and proves the
postconditions on every path.
"""
import time
import traceback
import z3

from pyvc import core, values as V, interp as I, lib, arrays as A
from pyvc.core import C, PyRaise, PathEnd, Unsupported, Budget
from pyvc.values import (
    SeqV, MDict, MList, Obj, UFn, SymStr, SetV, seq_of, zint, zreal, add, sub, mul, div, cmp, simp, band, bor, bnot)
from pyvc.arrays import Arr, F8, I8, B1, C16

INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()
And, Or, Not, Implies, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If

CASES = []


class Case:
    def __init__(self, prop, func, title, fn, kwds):
        self.prop, self.func, self.title, self.fn, self.kwds = prop, func, title, fn, kwds

    @property
    def name(self):
        return '%s [%s]' % (self.func, self.title)


def case(prop, func, title, **kwds):
    """ register a contract case

    prop: property id(s); func: function under contract (module.qualified name)
    """
    def deco(fn):
        CASES.append(Case(prop.split(), func, title, fn, kwds))
        return fn
    return deco


def asz(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    return v


def bound(f, args, kwargs):
    " arguments of a call by parameter name, with the options gathered in '**' (defaults left out) "
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if len(args) > len(names) or any(isinstance(x, I.StarArg) for x in args):
        raise Unsupported('arguments of %s' % f.qualname)
    out = dict(zip(names, args))
    rest = {}
    for k, x in kwargs.items():
        if k in names or k in [x.arg for x in a.kwonlyargs]:
            out[k] = x
        else:
            rest[k] = x
    out['**'] = rest
    return out


def same(a, b):
    " formula: two values are equal (identity of the opaque ones) "
    if a is b:
        return z3.BoolVal(True)
    if a is None or b is None:
        return z3.BoolVal(False)
    if isinstance(a, V.Opaque) and isinstance(b, V.Opaque):
        return a.term == b.term
    if V.is_num(a) and V.is_num(b):
        a, b = V.xnum(a), V.xnum(b)
        return And(zreal(a.re) == zreal(b.re), zreal(a.im) == zreal(b.im))
    if isinstance(a, (str, V.SymStr)) and isinstance(b, (str, V.SymStr)):
        return asz(V.str_eq(a, b))
    if isinstance(a, Arr) or isinstance(b, Arr):
        a, b = A.asarray(a), A.asarray(b)
        if a.ndim != b.ndim:
            return z3.BoolVal(False)
        idx = [C.fresh('i', INT) for _ in a.shape]
        rng = And(*[And(i >= 0, i < zint(n)) for i, n in zip(idx, a.shape)])
        C.assume(Or(rng, *[zint(n) <= 0 for n in a.shape]))
        x, y = V.xnum(a.get(*idx)), V.xnum(b.get(*idx))
        return And(*[zint(n) == zint(m) for n, m in zip(a.shape, b.shape)],
                   Implies(rng, And(zreal(x.re) == zreal(y.re), zreal(x.im) == zreal(y.im))))
    try:
        a, b = seq_of(a), seq_of(b)
    except Exception:
        raise Unsupported('comparison of %s and %s' % (type(a).__name__, type(b).__name__))
    if a.concrete and b.concrete:
        if a.n != b.n:
            return z3.BoolVal(False)
        return And(z3.BoolVal(True), *[same(x, y) for x, y in zip(a.list(), b.list())])
    k = C.fresh('i', INT)
    C.assume(Or(And(k >= 0, k < zint(a.n)), zint(a.n) <= 0))
    if C.branch(k < zint(a.n)):
        return And(zint(a.n) == zint(b.n), same(a.get(k), b.get(k)))
    return zint(a.n) == zint(b.n)


class Verif:
    " helper given to the cases "
    def __init__(self, interp, case_):
        self.interp, self.case = interp, case_
        self.normal = 0
        self.lemmas = set()
        self.inputs = []

    # ---- symbols ------------------------------------------------------------
    def int(self, name, lo=None, hi=None):
        t = z3.Int(name)
        if lo is not None:
            C.assume(t >= lo)
        if hi is not None:
            C.assume(t < hi)
        C.inputs[name] = t
        return t

    def real(self, name):
        t = z3.Real(name)
        C.inputs[name] = t
        return t

    def bool(self, name):
        t = z3.Bool(name)
        C.inputs[name] = t
        return t

    def choice(self, name, options):
        " one of the options (fork) "
        i = C.select([z3.Int(name) == j for j in range(len(options))])
        return options[i]

    def array(self, name, shape, dtype=F8, args=(), kind=None):
        " input array with arbitrary elements "
        sort = {'float': REAL, 'int': INT, 'bool': BOOL, 'complex': REAL}[dtype.kind]
        args = [zint(a) for a in args]
        dom = [INT] * (len(args) + len(shape))
        if dtype.kind == 'complex':
            fr = z3.Function(name + '.re', *(dom + [REAL]))
            fi = z3.Function(name + '.im', *(dom + [REAL]))
            a = Arr(shape, lambda *i: V.XNum(fr(*args, *map(zint, i)), fi(*args, *map(zint, i))), dtype)
        else:
            f = z3.Function(name, *(dom + [sort]))
            if dom:
                a = Arr(shape, lambda *i: f(*args, *map(zint, i)), dtype)
            else:
                a = Arr(shape, lambda: f(), dtype)
        a.birth, a.inp, a.iname = 0, True, name
        return a

    def assume(self, f):
        C.assume(asz(f))

    # ---- calls --------------------------------------------------------------
    def func(self, qualname):
        return self.interp.resolve(qualname)

    def call(self, f, *args, **kwargs):
        if isinstance(f, str):
            f = self.func(f)
        return self.interp.call(f, list(args), kwargs)

    def method(self, obj, name, *args, **kwargs):
        return self.interp.call(self.interp.getattr(obj, name), list(args), kwargs)

    def attr(self, obj, name):
        return self.interp.getattr(obj, name)

    def attempt(self, fn, *args, **kwargs):
        " ('ok', value) or ('raise', class name) "
        try:
            v = self.call(fn, *args, **kwargs)
        except PyRaise as e:
            if C.infeasible():
                raise PathEnd()
            return 'raise', e.exc.cls.name
        return 'ok', v

    # ---- obligations --------------------------------------------------------
    def prove(self, label, goal):
        if callable(goal) and not isinstance(goal, z3.ExprRef):
            res = []

            def thunk():
                g = goal()
                C.prove(label, asz(g))
            for p in C.explore(thunk):
                if p.kind == 'raise':
                    raise Unsupported('exception in the specification %s: %s' % (label, p.value))
            return
        C.prove(label, asz(goal))

    def lemma(self, label, f):
        " prove f, then use it "
        if C.prove(label, asz(f)):
            C.assume(asz(f))

    def pure(self, label, fn, sorts):
        """ arithmetic lemma, proved on its own for all values; returns a function assuming an instance

        sorts: string of r (real) and i (integer)
        """
        xs = [z3.Real('lem%d' % i) if c == 'r' else z3.Int('lem%d' % i) for i, c in enumerate(sorts)]
        g = fn(*xs)
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', 10000)
        s.add(Not(g))
        r = s.check()
        backend = 'z3'
        if r == z3.unknown:
            s = z3.Tactic('qfnra-nlsat').solver() if 'i' not in sorts else s
            s.set('timeout', 10000)
            s.add(Not(g))
            r = s.check()
            if r == z3.unknown and core.cvc5_check(s, 10000) == 'unsat':
                r, backend = z3.unsat, 'cvc5'
        ok = r == z3.unsat
        key = (C.label, label)
        if key not in self.lemmas:
            self.lemmas.add(key)
            C.obligations.append(dict(name='%s: lemma: %s' % (C.label, label), s=round(time.time() - t0, 3), backend=backend,
                                      status='proved' if ok else ('refuted' if r == z3.sat else 'unknown')))

        def instance(*args):
            if ok:
                C.assume(fn(*[zreal(a) if c == 'r' else zint(a) for a, c in zip(args, sorts)]), raw=True)
        return instance

    def forall(self, label, n, fn, lo=0):
        " prove fn(k) for an arbitrary lo <= k < n "
        k = C.fresh('K', INT)

        def thunk():
            C.assume(And(k >= lo, k < zint(n)))
            nm = str(k).split('(')[0]
            v = C.in_scope(C._name('g'), C.idx_args(), lambda: fn(k))
            C.prove(label, asz(v))
        for p in C.explore(thunk):
            if p.kind == 'raise':
                raise Unsupported('exception in the specification %s: %s' % (label, p.value))

    def forall2(self, label, n, m, fn):
        self_ = self
        k = C.fresh('K', INT)
        j = C.fresh('J', INT)

        def thunk():
            C.assume(And(k >= 0, k < zint(n)))
            mm = m(k) if callable(m) else m
            C.assume(And(j >= 0, j < zint(mm)))
            v = fn(k, j)
            C.prove(label, asz(v))
        for p in C.explore(thunk):
            if p.kind == 'raise':
                raise Unsupported('exception in the specification %s: %s' % (label, p.value))

    def some(self, label, n, cands, pred, instantiate=None):
        " prove that pred holds for some index 0 <= j < n, trying the candidates; the one found, or None "
        outs = []

        def thunk():
            for c, ms in [(c, ms) for ms in (300, 3000) for c in cands]:
                j = c()

                def attempt():
                    C.assume(And(j >= 0, j < zint(n)))
                    if instantiate is not None:
                        instantiate(j)
                    return pred(j)
                rng = And(j >= 0, j < zint(n))
                if not C.valid(rng, ms):
                    continue
                g = attempt()
                if C.proved(label, asz(g), ms):
                    return j
            C.undecided(label)           # no witness among the candidates
        return thunk()

    def expect(self, label, ok):
        " the shape of the computation that the specification can read; anything else is left undecided "
        if ok:
            C.prove(label, z3.BoolVal(True))
        else:
            raise Unsupported('not in the reach of the specification: ' + label)

    def reached(self, what='normal end'):
        if what not in self.interp.reached:
            # the hypotheses are not contradictory, as far as the solver sees
            if C.valid(z3.BoolVal(False), 3000):
                raise PathEnd()
            self.interp.reached.add(what)

    def unreachable(self, label):
        C.prove(label, z3.BoolVal(False))

    def frame(self, label='operands unmodified'):
        " no input object was written "
        bad = [e for e in C.trail if getattr(e[1], 'inp', False) and e[2] != 'memo']
        C.prove(label, z3.BoolVal(not bad))


def invariant(v, qualname, index, state, inv):
    """ contract of a loop (the index-th of the function, in source order)

    state(env, k): gives arbitrary values satisfying the invariant to the variables assigned by the loop;
    inv(env, k): list of (label, thunk) proving that the variables have such values before iteration k.
    Every other variable assigned by the loop is unknown at the start of an iteration and after the loop.
    """
    def handler(it, st, env, seq):
        n = seq.n if seq is not None else None
        names = I.assigned_names(st.body) | (I.target_names(st.target) if seq is not None else set())

        def check(k, when):
            for label, thunk in inv(env, k):
                v.prove('loop invariant %s: %s' % (when, label), thunk)
        check(0, 'at entry')
        before = {name: env.vars.get(name) for name in names}

        def arbitrary(k):
            for name in names:
                env.vars[name] = I.Poison(name)
            state(env, k, before)
        if C.fork(lambda: None, lambda: None):
            k = C.fresh('it', INT)
            C.assume(And(k >= 0, k < zint(n)) if n is not None else k >= 0)
            mark = C.tick()
            ntrail = len(C.trail)
            arbitrary(k)
            if seq is not None:
                it.assign(st.target, seq.get(k), env)
            else:
                if not I.truth(it.eval(st.test, env)):
                    raise PathEnd()
            try:
                it.exec_block(st.body, env)
            except I.ContinueX:
                pass
            except I.BreakX:
                confined(ntrail, mark)
                return
            confined(ntrail, mark)
            check(k + 1, 'preserved')
            raise PathEnd()
        k = zint(n) if n is not None else C.fresh('it', INT)
        C.assume(k >= 0)
        arbitrary(k)
        if seq is not None:
            if C.branch(k > 0):
                it.assign(st.target, seq.get(k - 1), env)
            else:
                for name in I.target_names(st.target):
                    env.vars[name] = before.get(name) if before.get(name) is not None else I.Poison(name)
        elif I.truth(it.eval(st.test, env)):
            raise PathEnd()
        it.exec_block(st.orelse, env)

    def confined(ntrail, mark):
        " the body wrote nothing that existed before the iteration "
        for e in C.trail[ntrail:]:
            if e[2] != 'memo' and e[1].birth <= mark and not getattr(e[1], 'loop_state', False):
                raise Unsupported('write of an outer object in a loop under contract')
    v.interp.invariants[(qualname, index)] = handler


def reset(deadline):
    C.reset()
    C.filters, C.sorts, C.flats, C.uniqs, C.members, C.intsets, C.effect_stack = [], [], [], [], [], [], []
    C.orders, C.records, C.regexes = [], [], []
    C.read_limit, C.poison = None, set()
    C.split_first = False
    C.reds, C.red_pairs = [], set()
    C.deadline = deadline


def run_case(c, src, budget=60):
    " list of obligations, status "
    t0 = time.time()
    reset(t0 + (c.kwds.get('budget') or budget))
    it = I.new_interp(src=src)
    it.reached = set()
    v = Verif(it, c)
    C.label = c.name
    status, note = 'ok', ''
    try:
        def thunk():
            del it.effects[:]
            del it.solves[:]
            c.fn(v)
        paths = C.explore(thunk)
        bad = [p for p in paths if p.kind == 'raise']
        for p in bad:
            # an unexpected exception on a feasible path
            goal = Not(And(*(p.conds + p.facts)))
            C.prove('no unexpected exception %s' % p.value, goal)
        want = set(c.kwds.get('reach', ('normal end',)))
        if not want <= it.reached:
            status, note = 'vacuous', 'not reached: %s' % sorted(want - it.reached)
    except Unsupported as e:
        status, note = 'unsupported', str(e) + loc(e)
    except Budget as e:
        status, note = 'budget', str(e)
    except RecursionError:
        status, note = 'unsupported', 'recursion'
    except Exception as e:          # a defect of the verifier: undecided
        status, note = 'internal', ''.join(traceback.format_exception(e)[-4:])
    return dict(case=c.name, func=c.func, status=status, note=note, obligations=list(C.obligations),
                seconds=round(time.time() - t0, 2), solver_s=round(C.stats['prove_s'] + C.stats['feas_s'], 2),
                paths=C.stats['paths'], executed=sorted(it.executed), assumptions=sorted(C.assumptions))


def loc(e):
    tb = traceback.extract_tb(e.__traceback__)
    return ' @ ' + ' < '.join('%s:%d' % (f.name, f.lineno) for f in tb[-4:][::-1])


def show(res, verbose=False):
    st = {}
    for o in res['obligations']:
        st[o['status']] = st.get(o['status'], 0) + 1
    print('%-70s %-11s %s  %.1fs paths=%d %s' % (res['case'], res['status'], st, res['seconds'], res['paths'],
                                                res['note']))
    for o in res['obligations']:
        if verbose or o['status'] != 'proved':
            print('      ', o['status'], o['name'], o['s'], o['backend'], o.get('model', ''))
