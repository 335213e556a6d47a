""" pyvc core: path exploration, fresh symbols, facts, proof obligations.

The symbolic interpreter (interp.py) runs in direct style.  Whenever it meets a
condition that is not decided by the current path condition it calls branch(),
which follows the decision list of the innermost exploration; explore() reruns a
thunk with every decision list until all feasible paths are covered.  Mutations of
engine objects are logged on a trail, so that a path can be undone.
"""
import time
import z3

z3.set_param('smt.random_seed', 1)
z3.set_param('sat.random_seed', 1)


class PathEnd(Exception):
    " the current path is infeasible (or finished) "


class Unsupported(Exception):
    " construct outside the verified subset: the function is undecided "


class Budget(Exception):
    " exploration budget exhausted: undecided "


class PyRaise(Exception):
    " an exception of the interpreted program "
    def __init__(self, exc):
        self.exc = exc


class Scope:
    def __init__(self, prefix, args):
        self.prefix, self.args, self.count = prefix, args, 0


class Frame:
    " one exploration: decisions taken on the current path, pending alternatives "
    def __init__(self):
        self.prefix, self.taken, self.pending = [], [], []


class PathResult:
    def __init__(self, conds, facts, kind, value, effects):
        self.conds, self.facts = conds, facts
        self.kind, self.value, self.effects = kind, value, effects

    @property
    def cond(self):
        return z3.And(*self.conds) if self.conds else z3.BoolVal(True)


class Ctx:
    QTIMEOUT = 400       # ms, feasibility with quantified facts
    TIMEOUT = 10000      # ms, one obligation

    def __init__(self):
        self.reset()

    def reset(self):
        self.clock = 0
        self.trail = []
        self.decided = {}
        self.pc = []                  # (formula, kind, quantified?)
        self.qf = z3.Solver()
        self.qf.set('timeout', 2000)
        self.hard = None
        self.full = z3.Solver()
        self.full.set('timeout', self.QTIMEOUT)
        self.nquant = 0
        self.frames = []
        self.scopes = [Scope('', ())]
        self.memo = {}
        self.congs = []
        self.terms = {}               # exp/log terms for monotonicity instances
        self.obligations = []
        self.stats = dict(paths=0, branches=0, feas=0, feas_s=0., prove_s=0.)
        self.deadline = None
        self.assumptions = set()
        self.label = ''
        self.models = []
        self.inputs = {}

    # ---- time stamps, trail -------------------------------------------------
    def tick(self):
        self.clock += 1
        return self.clock

    def log(self, obj, kind, data, undo, redo):
        self.trail.append((self.tick(), obj, kind, data, undo, redo))

    # ---- fresh symbols ------------------------------------------------------
    def _name(self, name):
        sc = self.scopes[-1]
        sc.count += 1
        return '%s%s!%d' % (sc.prefix, name, sc.count)

    def idx_args(self):
        return list(self.scopes[-1].args)

    def fresh(self, name, sort):
        nm = self._name(name)
        args = self.idx_args()
        if not args:
            return z3.Const(nm, sort)
        f = z3.Function(nm, *([a.sort() for a in args] + [sort]))
        return f(*args)

    def fresh_fun(self, name, dom, sort):
        " fresh function symbol (dom sorts) -> sort, depending on the scope indices "
        nm = self._name(name)
        args = self.idx_args()
        f = z3.Function(nm, *([a.sort() for a in args] + list(dom) + [sort]))
        return lambda *a, at=None: f(*((args if at is None else at) + [z3.IntVal(x) if isinstance(x, int) else x for x in a]))

    def record(self, kind, there, back):
        " operation on sequences: functions giving the place in the operand, and back (for the witnesses of a proof) "
        self.records.append((kind, len(self.idx_args()), str(there(*[0]).decl()), back))

    def recorded(self, kind, depth, term):
        " the operations at this depth of scopes which occur in a term "
        names = fun_names(term)
        return list({there: back for k, d, there, back in self.records
                     if k == kind and d == depth and there in names}.values())

    def uid(self):
        return self._name('s')

    # ---- facts and branches -------------------------------------------------
    def _push(self, formula, kind):
        q = has_quant(formula)
        self.pc.append((formula, kind, q))
        if q:
            self.nquant += 1
        else:
            self.qf.add(formula)
        self.full.add(formula)

    def assume(self, formula, kind='fact', raw=False):
        if isinstance(formula, bool):
            if not formula:
                raise PathEnd()
            return
        given = formula
        formula = z3.simplify(formula) if not has_quant(formula) else formula
        if z3.is_true(formula):
            return
        if z3.is_false(formula):
            raise PathEnd()
        self._push(given if raw else formula, kind)

    def check_budget(self):
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget exhausted')

    def _sat(self, cond):
        " may cond hold on this path? (unknown counts as yes) "
        t0 = time.time()
        self.stats['feas'] += 1
        try:
            return self._qf(cond) != z3.unsat
        finally:
            self.stats['feas_s'] += time.time() - t0

    hard = None

    def _qf(self, *cond):
        " check without the quantified facts; less time on a path where a check was already undecided "
        if self.hard is not None and len(self.pc) < self.hard:
            self.hard = None
            self.qf.set('timeout', 2000)
        r = self.qf.check(*cond)
        if r == z3.unknown and self.hard is None:
            self.hard = len(self.pc)
            self.qf.set('timeout', 250)
        return r

    def decide(self, cond):
        " True / False when cond is decided by the path condition, else None "
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self._qf(z3.Not(cond)) == z3.unsat:
            return True
        if self._qf(cond) == z3.unsat:
            return False
        return None

    def valid(self, cond, timeout=1500):
        " quick proof attempt with all facts "
        if isinstance(cond, bool):
            return cond
        if self.decide(cond) is True:
            return True
        self.full.set('timeout', timeout)
        try:
            return self.full.check(z3.Not(cond)) == z3.unsat
        finally:
            self.full.set('timeout', self.QTIMEOUT)

    def branch(self, cond):
        " fork on a condition; returns the python bool of the followed branch "
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = cond.get_id()
        known = self.decided.get(key)
        if known is not None:
            return known[1]
        r = self.select([cond, z3.Not(cond)]) == 0
        # known until the end of this path
        self.decided[key] = cond, r
        from . import values
        self.log(values._DUMMY, 'memo', None, lambda: self.decided.pop(key, None), None)
        return r

    def select(self, conds, facts=None):
        """ fork between alternatives (conds are z3 formulas or True, covering all cases)

        facts[i]: thunk run when alternative i is followed.
        """
        self.check_budget()
        fr = self.frames[-1]
        self.stats['branches'] += 1
        pos = len(fr.taken)
        if pos < len(fr.prefix):
            i = fr.prefix[pos]
            fr.taken.append(i)
        else:
            ok = [i for i, c in enumerate(conds) if self._sat(c)]
            if not ok:
                raise PathEnd()
            i = ok[0]
            for j in ok[1:]:
                fr.pending.append(fr.taken + [j])
            fr.taken.append(i)
        self._push(conds[i], 'branch')
        if facts and facts[i]:
            facts[i]()
        return i

    # ---- exploration --------------------------------------------------------
    def explore(self, thunk, collect_effects=False, max_paths=4000):
        """ run thunk on every feasible path, undoing its effects each time """
        out = []
        fr = Frame()
        stack = [[]]
        count0 = self.scopes[-1].count
        count_max = count0
        npc, ntrail, nquant, ncong = len(self.pc), len(self.trail), self.nquant, len(self.congs)
        birth = self.tick()
        terms0 = {k: list(v) for k, v in self.terms.items()}
        depth = len(self.scopes)
        while stack:
            if len(out) > max_paths:
                raise Budget('too many paths')
            fr.prefix, fr.taken, fr.pending = stack.pop(), [], []
            self.frames.append(fr)
            self.qf.push()
            self.full.push()
            self.scopes[-1].count = count0
            self.stats['paths'] += 1
            try:
                try:
                    v = thunk()
                    kind = 'val'
                except PyRaise as e:
                    v, kind = e.exc, 'raise'
                except PathEnd:
                    kind = None
                if kind:
                    new = self.pc[npc:]
                    eff = ()
                    if collect_effects:
                        eff = [e for e in self.trail[ntrail:] if e[1].birth <= birth and e[2] != 'memo']
                    out.append(PathResult(
                        [f for f, k, _ in new if k == 'branch'],
                        [f for f, k, _ in new if k != 'branch'], kind, v, eff))
            finally:
                self.frames.pop()
                del self.scopes[depth:]
                count_max = max(count_max, self.scopes[-1].count)
                self.qf.pop()
                self.full.pop()
                del self.pc[npc:]
                del self.congs[ncong:]
                self.nquant = nquant
                self.terms = {k: list(v) for k, v in terms0.items()}
                for e in reversed(self.trail[ntrail:]):
                    if e[1].birth <= birth:
                        e[4]()
                del self.trail[ntrail:]
            stack.extend(fr.pending)
        self.scopes[-1].count = count_max
        return out

    def in_scope(self, prefix, args, fn):
        " run fn in a scope whose symbols depend on the (complete) index list args "
        self.scopes.append(Scope(prefix + '.', list(args)))
        try:
            return fn()
        finally:
            self.scopes.pop()

    # ---- quantified formulas ------------------------------------------------
    def generic(self, n, fn, name='k', collect_effects=False):
        """ explore fn(k) for an arbitrary 0 <= k < n

        returns (k, range, paths)
        """
        nm = self._name(name)
        k = z3.Const(nm, z3.IntSort())
        rng = z3.And(k >= 0, k < n)
        args = self.idx_args() + [k]

        def thunk():
            self.assume(rng)
            try:
                return self.in_scope(nm, args, lambda: fn(k))
            except PyRaise:
                if self.infeasible(400):
                    raise PathEnd()
                raise
        paths = self.explore(thunk, collect_effects)
        srng = z3.simplify(rng)
        for p in paths:
            p.facts = [f for f in p.facts if not f.eq(srng)]
        return k, rng, paths

    def infeasible(self, timeout=1500):
        " is the current path contradictory (using the quantified facts)? "
        if self._qf() == z3.unsat:
            return True
        if not self.nquant:
            return False
        self.full.set('timeout', timeout)
        try:
            return self.full.check() == z3.unsat
        finally:
            self.full.set('timeout', self.QTIMEOUT)

    def generic_bool(self, n, fn):
        " (k, range, phi, facts) with phi <=> fn(k) for an arbitrary index k "
        k, rng, paths = self.generic(n, fn)
        phi, facts = [], []
        for p in paths:
            if p.kind == 'raise':
                raise Unsupported('exception in a quantified condition')
            v = p.value
            v = z3.BoolVal(v) if isinstance(v, bool) else v
            if not z3.is_bool(v):
                raise Unsupported('non boolean quantified condition')
            phi.append(z3.Implies(p.cond, v))
            if p.facts:
                facts.append(z3.Implies(p.cond, z3.And(*p.facts)))
        phi = z3.simplify(z3.And(*phi)) if phi else z3.BoolVal(True)
        return k, rng, phi, facts

    def forall_fact(self, n, fn):
        " assume fn(k) for all 0 <= k < n "
        if isinstance(n, int) and n <= 4:
            for i in range(n):
                v = fn(i)
                self.assume(v)
            return
        k, rng, phi, facts = self.generic_bool(n, fn)
        body = z3.And(*(facts + [phi])) if facts else phi
        if z3.is_true(body):
            return
        self.assume(quantify(k, rng, body))

    def forall_branch(self, n, fn):
        " fork on: fn(k) holds for all 0 <= k < n; python bool "
        if isinstance(n, int):
            for i in range(n):
                if not self.branch(as_bool(fn(i))):
                    return False
            return True
        k, rng, phi, facts = self.generic_bool(n, fn)
        if z3.is_true(phi):
            return True

        def yes():
            self.assume(quantify(k, rng, z3.And(*(facts + [phi]))))

        def no():
            w = self.fresh('w', z3.IntSort())
            self.assume(z3.And(w >= 0, w < n))
            sub = lambda f: z3.substitute(f, (k, w))
            for f in facts:
                self.assume(sub(f))
            self.assume(z3.Not(sub(phi)))
        return self.fork(yes, no)

    def fork(self, yes, no):
        " fork on a fresh boolean: True with the facts of yes(), False with those of no() "
        b = self.fresh('b', z3.BoolSort())
        return self.select([b, z3.Not(b)], [yes, no]) == 0

    # ---- obligations --------------------------------------------------------
    def instances(self):
        " monotonicity instances for the uninterpreted real functions "
        res = []
        for name, lst in self.terms.items():
            for i in range(len(lst)):
                for j in range(i):
                    a, fa = lst[i]
                    b, fb = lst[j]
                    if name == 'spacing':
                        res.append(z3.Implies(a <= b, fa <= fb))
                        res.append(z3.Implies(b <= a, fb <= fa))
                        continue
                    res.append(z3.Implies(a < b, fa < fb))
                    res.append(z3.Implies(b < a, fb < fa))
        return res

    def prove(self, name, goal, timeout=None):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        from . import values
        t0 = time.time()
        status, model, backend = self._quick(goal)
        if status is None:
            values.saturate(self)
            status, model, backend = self._discharge(goal, timeout or self.TIMEOUT)
        dt = time.time() - t0
        self.stats['prove_s'] += dt
        ob = dict(name=(self.label + ': ' + name), status=status, s=round(dt, 3), backend=backend)
        if model is not None:
            ob['model'] = self._eval_inputs(model)
        self.obligations.append(ob)
        return status == 'proved'

    def proved(self, name, goal, timeout):
        " quick proof attempt, recorded only when it succeeds "
        t0 = time.time()
        if not self.valid(goal, timeout):
            return False
        dt = time.time() - t0
        self.stats['prove_s'] += dt
        self.obligations.append(dict(name=(self.label + ': ' + name), status='proved', s=round(dt, 3), backend='z3'))
        return True

    def undecided(self, name):
        if self.infeasible():
            return self.prove(name, True)
        self.obligations.append(dict(name=self.label + ': ' + name, status='unknown', s=0, backend='none'))

    def _eval_inputs(self, model):
        res = {}
        for k, t in self.inputs.items():
            try:
                v = model.eval(t, model_completion=True)
                if z3.is_int_value(v):
                    res[k] = v.as_long()
                elif z3.is_rational_value(v):
                    res[k] = [v.numerator_as_long(), v.denominator_as_long()]
                elif z3.is_algebraic_value(v):
                    a = v.approx(20)
                    res[k] = [a.numerator_as_long(), a.denominator_as_long()]
                else:
                    res[k] = str(v)
            except Exception as e:       # model evaluation is only a hint
                res[k] = 'error: %s' % e
        return res

    def _quick(self, goal):
        " first attempt, without the congruence axioms nor the quantified facts "
        if has_quant(goal):
            return None, None, None
        if z3.is_true(z3.simplify(goal)):
            return 'proved', None, 'simplify'
        if not getattr(self, 'reds', None):
            return None, None, None
        s = z3.Solver()
        s.set('timeout', 1000)
        s.add(*[f for f, _, _ in self.pc if not has_quant(f)])
        s.add(z3.Not(goal))
        if s.check() == z3.unsat:
            return 'proved', None, 'z3'
        return None, None, None

    def _discharge(self, goal, timeout):
        g = z3.simplify(goal) if not has_quant(goal) else goal
        if z3.is_true(g):
            return 'proved', None, 'simplify'
        fs = [f for f, _, _ in self.pc] + self.instances()
        # without quantified facts first: cheap, and its failures are not conclusive
        qf = [f for f in fs if not has_quant(f)]
        if not has_quant(goal):
            if linear_unsat(qf + [z3.Not(goal)], 2000):
                return 'proved', None, 'z3'
            s = z3.Solver()
            s.set('timeout', min(timeout, 3000))
            s.add(*qf)
            s.add(z3.Not(goal))
            r = s.check()
            if r == z3.unsat:
                return 'proved', None, 'z3'
            if r == z3.sat and len(qf) == len(fs):
                return 'refuted', s.model(), 'z3'
        last = None
        for mk, tmo in ((z3.Solver, 2500), (_solver2, 2500), (z3.Solver, timeout), (_solver2, timeout)):
            s = mk()
            s.set('timeout', min(tmo, timeout))
            s.add(*fs)
            s.add(z3.Not(goal))
            r = s.check()
            if r == z3.unsat:
                return 'proved', None, 'z3'
            if r == z3.sat:
                return 'refuted', s.model(), 'z3'
            last = s
        r = cvc5_check(last, timeout)
        if r == 'unsat':
            return 'proved', None, 'cvc5'
        return 'unknown', None, 'z3+cvc5'


_LIN = {}


def linear(f):
    """ f with every product or quotient of unknowns replaced by a constant of its own

    (after expansion: the same monomials get the same constant); returns None when there is none
    """
    hit = _LIN.get(f.get_id())
    if hit is not None:
        return hit[1], hit[2]
    top, seen, stack = [], set(), [f]
    while stack:
        e = stack.pop()
        if e.get_id() in seen or not z3.is_app(e):
            continue
        seen.add(e.get_id())
        if z3.is_arith(e):
            top.append(e)
        else:
            stack.extend(e.children())
    out, nl = [], False
    for e in top:
        g = z3.simplify(e, som=True)
        h = _abstract(g)
        nl = nl or h is not None
        out.append((e, g if h is None else h))
    g = z3.substitute(f, *out) if nl else f
    _LIN[f.get_id()] = (f, g, nl)
    return g, nl


def _number(e):
    return z3.is_rational_value(e) or z3.is_int_value(e)


def _abstract(g):
    " g with its monomials replaced, or None "
    subst, seen, stack = [], set(), [g]
    while stack:
        e = stack.pop()
        if e.get_id() in seen or not z3.is_app(e):
            continue
        seen.add(e.get_id())
        k = e.decl().kind()
        if k == z3.Z3_OP_MUL and sum(not _number(x) for x in e.children()) > 1:
            coef = [x for x in e.children() if _number(x)]
            rest = [x for x in e.children() if not _number(x)]
            m = z3.simplify(z3.Product(rest)) if coef else e
            m = z3.Const('mono!%d' % _mono(m), e.sort())
            subst.append((e, coef[0] * m if coef else m))
        elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not _number(e.arg(1)):
            subst.append((e, z3.Const('mono!%d' % _mono(e), e.sort())))
        else:
            stack.extend(e.children())
    return z3.substitute(g, *subst) if subst else None


_MONO = {}


def _mono(e):
    hit = _MONO.get(e.get_id())
    if hit is None:
        hit = _MONO[e.get_id()] = (len(_MONO), e)
    return hit[0]


def linear_unsat(fs, timeout):
    " contradiction found by linear reasoning alone (the monomials are taken as unknowns) "
    gs, nl = [], False
    for f in fs:
        g, has = linear(f)
        gs.append(g)
        nl = nl or has
    if not nl:
        return False
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(*gs)
    return s.check() == z3.unsat


def _solver2():
    s = z3.Solver()
    s.set('smt.mbqi', False)
    s.set('smt.arith.solver', 2)
    return s


def cvc5_check(solver, timeout):
    import subprocess
    import shutil
    exe = shutil.which('cvc5')
    if not exe:
        return 'unknown'
    txt = '(set-logic ALL)\n' + solver.to_smt2()
    try:
        p = subprocess.run([exe, '--lang=smt2', '--tlimit=%d' % timeout], input=txt,
                           capture_output=True, text=True, timeout=timeout / 1000 + 5)
    except Exception:
        return 'unknown'
    out = p.stdout.strip().splitlines()
    return out[0] if out else 'unknown'


_QCACHE = {}


def has_quant(f):
    if not z3.is_expr(f):
        return False
    i = f.get_id()
    r = _QCACHE.get(i)
    if r is None:
        g = z3.Goal()
        g.add(f if z3.is_bool(f) else f == f)
        r = _QCACHE[i] = (f, bool(z3.is_quantifier(f) or z3.Probe('has-quantifiers')(g)))
    return r[1]


def quantify(k, rng, body):
    return z3.ForAll([k], z3.Implies(rng, body))


def as_bool(v):
    return v


C = Ctx()


def fun_names(t):
    " names of the functions of a term "
    out, stack, seen = set(), [t], set()
    while stack:
        e = stack.pop()
        if e.get_id() not in seen:
            seen.add(e.get_id())
            if z3.is_quantifier(e):
                stack.append(e.body())
            elif z3.is_app(e):
                out.add(str(e.decl()))
            stack.extend(e.children())
    return out
