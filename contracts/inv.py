" C29: inventories (signalset.Inventory): the same operation on each set, in order "
import ast
from .sets import *

NRUNS = z3.Function('result_runs', INT, INT)


class Sets:
    " an inventory of any number of sets "
    def __init__(self, v, name='e', n=None, T=None):
        self.v, self.name, self.T = v, name, T
        self.n = v.int(name + '.n', 0) if n is None else n

    def source(self, k):
        S = Sym(self.v, self.name, args=(k,))
        if self.T is not None:
            S.T = self.T
        S.tags()
        return S

    def element(self, k):
        S = self.source(k)
        C.assume(S.R >= 0)
        o = Obj(self.v.interp.resolve('signalset.SignalSet'), {'_signals': S.runs(), '_tags': S.tags()})
        o.sym, o.k = S, zint(k)
        return inp(o)

    def content(self):
        if isinstance(self.n, int):
            return seq_of([self.element(k) for k in range(self.n)])
        return SeqV(self.n, self.element)

    def inventory(self):
        user_names(self.v)
        o = Obj(self.v.interp.resolve('signalset.Inventory'), {'_content': inp(V.MList(self.content()))})
        return inp(o)


def operation(v, name, key, result=None):
    """ contract of an operation on a set of the inventory: its result is another set, which has some runs

    the result carries the set it comes from (k) and the arguments (op)
    """
    def summary(it, f, args, kwargs):
        b = bound(f, args, kwargs)
        e = b.pop('self')
        if getattr(e, 'k', None) is None or b.pop('**'):
            return NotImplemented
        for p, d in zip(reversed(f.node.args.args), reversed(f.node.args.defaults)):
            b.setdefault(p.arg, ast.literal_eval(d))
        o = Obj(it.resolve('signalset.SignalSet'), {'_tags': e.attrs['_tags']})
        n = z3.Function('runs_of_' + name, *([INT] + [x.sort() for x in key(b)] + [INT]))(e.k, *key(b))
        C.assume(n >= 0)
        o.attrs['_signals'] = SeqV(n, lambda j: V.Opaque(zint(j), 'run'))
        o.src, o.op, o.nruns = e.k, b, n
        return o
    v.interp.contracts['signalset.SignalSet.' + name] = summary


def each(v, r, E, keep, check):
    " the elements of the inventory r are the results for the kept sets, in order "
    v.expect('an inventory', isinstance(r, Obj) and r.cls.name == 'Inventory')
    v.prove('another inventory', z3.BoolVal(not getattr(r, 'inp', False)))
    res = v.interp.iter_seq(r.attrs['_content'])

    def one(j):
        o = res.get(j)
        v.expect('result of the operation', getattr(o, 'src', None) is not None)
        v.prove('comes from a set of the inventory', And(o.src >= 0, o.src < zint(E.n)))
        v.prove('kept', asz(keep(o.src)))
        check(o)
        return True
    v.forall('element', res.n, one)

    def order(j):
        return res.get(j).src < res.get(add(j, 1)).src
    v.forall('in order', sub(res.n, 1), order)

    def complete(k):
        k = zint(k)
        C.assume(asz(keep(k)))
        if res.concrete:
            v.prove('no other set is skipped', Or(*[res.get(j).src == k for j in range(res.n)]))
        else:
            v.some('no other set is skipped', res.n, [lambda w=w: w for w in witnesses(v, k)],
                   lambda j: res.get(j).src == k)
        return True
    v.forall('complete', E.n, complete)


def nruns_of(v, name, k, *key):
    return z3.Function('runs_of_' + name, *([INT] + [x.sort() for x in key] + [INT]))(zint(k), *key)


SIZES = (None, 2)
label_of = lambda n: 'any number of sets' if n is None else '%d sets' % n


def inv_extract(v, n, exclude):
    E = Sets(v, n=n)
    inv = E.inventory()
    t0, t1 = v.real('t0'), v.real('t1')
    x = C.branch(v.bool('x')) if exclude == 'any' else exclude
    flag = lambda b: z3.BoolVal(bool(b)) if isinstance(b, (bool, int)) else asz(b)
    key = lambda b: (zreal(b['start']), zreal(b['stop']), flag(b['exclude']))
    operation(v, 'extract_t', key)
    args = (t0, t1) if exclude is None else (t0, t1, x)
    st, r = v.attempt('signalset.Inventory.extract_t', inv, *args)
    v.prove('no error', z3.BoolVal(st == 'ok'))
    if st != 'ok':
        return
    want = (t0, t1, flag(bool(x)))
    each(v, r, E, lambda k: nruns_of(v, 'extract_t', k, *want) > 0,
         lambda o: [v.prove('same interval', And(*[p == q for p, q in zip(key(o.op), want)]))])
    v.frame()
    v.reached()


for n in SIZES:
    for exclude in (None, False, True):
        case('C29 C10', 'signalset.Inventory.extract_t', '%s, exclude %s' % (label_of(n), exclude))(
            lambda v, n=n, exclude=exclude: inv_extract(v, n, exclude))


# ---------------------------------------------------------------------------
# select_runs
# ---------------------------------------------------------------------------
def inv_select_runs(v, n, m):
    E = Sets(v, n=n)
    inv = E.inventory()
    sel = lambda k: V.Opaque(z3.Function('runs_selector', INT, INT)(zint(k)), 'selector')
    if m is None:
        m = v.int('m', 0)
    key = lambda b: (b['runs'].term,)
    operation(v, 'select_runs', key)
    runs = inp(V.MList(seq_of([sel(k) for k in range(m)]) if isinstance(m, int) else SeqV(m, sel)))
    st, r = v.attempt('signalset.Inventory.select_runs', inv, runs)
    if st == 'raise':
        v.prove('rejected only when there is not one selection for each set', zint(m) != zint(E.n))
        v.reached('rejection')
        return
    v.prove('one selection for each set', zint(m) == zint(E.n))
    each(v, r, E, lambda k: nruns_of(v, 'select_runs', k, sel(k).term) > 0,
         lambda o: [v.prove('the selection of the set', key(o.op)[0] == sel(o.src).term)])
    v.frame()
    v.reached()


for n, m in ((None, None), (2, 2), (2, 3), (1, 1), (1, 0)):
    case('C29 C10', 'signalset.Inventory.select_runs', '%s, %s' % (label_of(n), label_of(m).replace('sets', 'selections')),
         reach=('normal end', 'rejection') if n is None else ('normal end',) if n == m else ('rejection',))(
        lambda v, n=n, m=m: inv_select_runs(v, n, m))


# ---------------------------------------------------------------------------
# select_channels
# ---------------------------------------------------------------------------
def inv_select_channels(v, n, nkeys):
    E = Sets(v, n=n)
    inv = E.inventory()
    key = z3.Function('key', INT, INT)
    name = lambda q: SymStr(key(zint(q)), user=True)
    if nkeys is None:
        nk = v.int('keys', 0)
        args = [I.StarArg(SeqV(nk, name))]
    else:
        nk = nkeys
        args = [name(q) for q in range(nk)]
    # the set of channels is observed below
    operation(v, 'select_channels', lambda b: ())
    st, r = v.attempt('signalset.Inventory.select_channels', inv, *args)
    v.prove('no error', z3.BoolVal(st == 'ok'))
    if st != 'ok':
        return
    q, t, j = z3.Ints(' '.join(C._name(x) for x in 'qtj'))

    def named(S):
        return z3.Exists([q, t], And(q >= 0, q < zint(nk), t >= 0, t < zint(S.T), S.tname(t) == key(q)))

    def keep(k):
        return named(E.source(k))

    def check(o):
        S = E.source(o.src)
        idx = o.op['channels']
        v.expect('a set of channels', isinstance(idx, (V.MSet, V.SetV)))
        s = V.as_set(idx)

        def listed(p):
            c = zint(s.seq.get(p))
            return z3.Exists([q, t, j], And(q >= 0, q < zint(nk), t >= 0, t < zint(S.T), j >= 0, j < S.tlen(t),
                                            S.tname(t) == key(q), S.tidx(t, j) == c))
        v.forall('only channels of the given tags', s.seq.n, listed)

        def there():
            Q, T, J = C.fresh('Q', INT), C.fresh('T', INT), C.fresh('J', INT)
            C.assume(And(Q >= 0, Q < zint(nk), T >= 0, T < zint(S.T), J >= 0, J < S.tlen(T), S.tname(T) == key(Q)))
            if not s.seq.concrete:
                # its position in the list of the channels of the keys
                for p in [POS(Q, J) for _, _, (_, _, _, POS) in C.flats]:
                    V.assume_under(And(p >= 0, p < zint(s.seq.n)), lambda: s.contains(s.seq.get(p)))
            return V.as_formula(lambda: s.contains(S.tidx(T, J)))
        v.prove('every channel of the given tags', there)
    each(v, r, E, keep, check)
    v.frame()
    v.reached()


for n in SIZES:
    for nkeys in (0, 1, 2):
        if n is None or nkeys:
            case('C29 C10', 'signalset.Inventory.select_channels',
                 '%s, %s keys' % (label_of(n), 'any number of' if nkeys is None else nkeys))(
                lambda v, n=n, nkeys=nkeys: inv_select_channels(v, n, nkeys))


# ---------------------------------------------------------------------------
# filter
# ---------------------------------------------------------------------------
def inv_filter(v, n, npat, T=None):
    E = Sets(v, n=n, T=T)
    inv = E.inventory()
    pat = z3.Function('pattern', INT, INT)
    name = lambda q: SymStr(pat(zint(q)), user=True)
    if npat is None:
        np_ = v.int('patterns', 0)
        args = [I.StarArg(SeqV(np_, name))]
    else:
        np_ = npat
        args = [name(q) for q in range(npat)]

    def select(it, f, args, kwargs):
        # contract above: the channels of the given tags
        if kwargs or args[0] is not inv:
            return NotImplemented
        o = Obj(it.resolve('signalset.Inventory'), {'_content': V.MList(())})
        o.keys = V.seq_concat(*[a.seq if isinstance(a, I.StarArg) else seq_of([a]) for a in args[1:]])
        return o
    v.interp.contracts['signalset.Inventory.select_channels'] = select
    st, r = v.attempt('signalset.Inventory.filter', inv, *args)
    v.prove('no error', z3.BoolVal(st == 'ok'))
    if st != 'ok':
        return
    v.expect('a selection of channels', getattr(r, 'keys', None) is not None)
    from pyvc.lib import FNMATCH
    keys = r.keys
    q, k, t = z3.Ints(' '.join(C._name(x) for x in 'qkt'))

    def asked(j):
        x = zint(V.zterm(keys.get(j)))
        S = E.source(k)
        return z3.Exists([q, k, t], And(q >= 0, q < zint(np_), k >= 0, k < zint(E.n), t >= 0, t < zint(S.T), S.tname(t) == x,
                                        FNMATCH(x, pat(q))))
    v.forall('only tags matching a pattern', keys.n, asked)

    def given(K, T, Q):
        S = E.source(K)
        asked = And(K >= 0, K < zint(E.n), T >= 0, T < zint(S.T), Q >= 0, Q < zint(np_), FNMATCH(S.tname(T), pat(Q)))
        if keys.concrete:
            v.prove('every tag matching a pattern', lambda: Implies(asked, V.zbool(V.as_formula(
                lambda: V.SetV(keys).contains(SymStr(S.tname(T), user=True))))))
            return
        C.assume(asked)
        # places of this tag in the list of the tags, in the set of the tags, among those which match the pattern, ...
        d = 0 if npat is not None else 1
        at = dict(at=[Q]) if d else {}
        term = z3.IntVal(0)
        # the tags selected by this pattern
        for place in C.orders if d else ():
            if place.seq.hints.get('flat', (None,))[0] is not None and C.valid(zint(place.seq.hints['flat'][0].n) == zint(np_)):
                sub = V.seq_of(place.seq.hints['flat'][0].get(Q))
                term = term + zint(V.zterm(sub.get(C.fresh('z', INT))))
        term = term + zint(V.zterm(keys.get(C.fresh('p', INT))))
        ops = lambda kind, d: C.recorded(kind, d, term)
        placed = lambda ps: [p for p in ps if C.valid(p >= 0)]
        ps = [f(K, T, **at) for f in ops('flat', d)]
        ps = placed([f(p, **at) for f in ops('order', d) for p in ps])
        ps = placed([f(p, **at) for f in ops('filter', d) for p in ps])
        if d:
            ps = [f(Q, p) for f in ops('flat', 0) for p in ps]
        ps = [f(p) for f in ops('order', 0) for p in ps]
        v.some('every tag matching a pattern', keys.n, [lambda p=p: p for p in reversed(ps)],
               lambda p: zint(V.zterm(keys.get(p))) == S.tname(T))
    K, T = C.fresh('K', INT), C.fresh('T', INT)
    if npat is None:
        given(K, T, C.fresh('Q', INT))
    else:
        for Q in range(npat):
            for k_ in (K,) if n is None else [zint(i) for i in range(n)]:
                given(k_, T, zint(Q))
    v.frame()
    v.reached()


for n, T, npat in ((None, None, 0), (None, None, 1), (None, None, None), (2, 1, 1), (1, 2, 2), (2, 1, 0)):
    case('C29 C10', 'signalset.Inventory.filter', '%s%s, %s patterns' % (
        label_of(n), '' if T is None else ' with %d tags' % T, 'any number of' if npat is None else npat), budget=150)(
        lambda v, n=n, T=T, npat=npat: inv_filter(v, n, npat, T))


# ---------------------------------------------------------------------------
# content
# ---------------------------------------------------------------------------
def thing(v, kind):
    if kind == 'set':
        return Sym(v, 's').sigset()
    if kind == 'run':
        return Sym(v, 's', nruns=1).runs().get(0)
    if kind == 'inventory':
        return Sets(v, 'f').inventory()
    return {'nothing': None, 'number': v.int('number'), 'text': 'text', 'list': V.MList(()), 'tuple': ()}[kind]


OTHER = ('run', 'inventory', 'nothing', 'number', 'text', 'list', 'tuple')


def same_elements(v, E, seq, extra=()):
    " the content is that of the inventory E, then the extra objects "
    m = len(extra)
    v.prove('number of sets', zint(seq.n) == zint(E.n) + m)

    def one(k):
        o = seq.get(k)
        v.expect('a set of the inventory', getattr(o, 'k', None) is not None)
        return o.k == zint(k)
    v.forall('the same sets', E.n, one)
    for i, x in enumerate(extra):
        v.prove('then the new one', lambda: z3.BoolVal(seq.get(add(E.n, i)) is x))


def inv_append(v, kind):
    E = Sets(v)
    inv = E.inventory()
    inv.inp = inv.attrs['_content'].inp = False
    x = thing(v, kind)
    st, r = v.attempt('signalset.Inventory.append', inv, x)
    content = v.interp.iter_seq(inv.attrs['_content'])
    if st == 'raise':
        v.prove('rejected only when it is not a set', z3.BoolVal(kind != 'set' and r == 'ValueError'))
        same_elements(v, E, content)
    else:
        v.prove('only signal sets', z3.BoolVal(kind == 'set'))
        same_elements(v, E, content, (x,))
    v.frame()
    v.reached()


def inv_create(v, method, kind):
    " any number of sets, then an object "
    E = Sets(v)
    x = thing(v, kind)
    content = SeqV(E.n, E.element) if kind is None else V.seq_concat(SeqV(E.n, E.element), seq_of([x]))
    arg = inp(V.MList(content))
    if method == 'extend':
        F = Sets(v, 'f')
        inv = F.inventory()
        inv.inp = inv.attrs['_content'].inp = False
        st, r = v.attempt('signalset.Inventory.extend', inv, arg)
    else:
        st, r = v.attempt('signalset.Inventory', arg)
        inv = r
    if st == 'raise':
        v.prove('rejected only when it is not a set', z3.BoolVal(kind != 'set' and r == 'ValueError'))
    else:
        v.prove('only signal sets', z3.BoolVal(kind == 'set'))
        if method == 'extend':
            seq = v.interp.iter_seq(inv.attrs['_content'])
            v.prove('number of sets', zint(seq.n) == zint(F.n) + zint(E.n) + 1)
            named = lambda k: getattr(seq.get(k), 'sym', None)
            v.expect('sets of the inventory', F.n is not None)
            v.forall('its own sets first', F.n, lambda k: z3.BoolVal(named(k) is not None and named(k).name == 'f'))
            v.forall('then the others', E.n, lambda k: z3.BoolVal(named(add(F.n, k)) is not None
                                                                  and named(add(F.n, k)).name == 'e'))
        else:
            same_elements(v, E, v.interp.iter_seq(inv.attrs['_content']), (x,))
    v.frame()
    v.reached()


for kind in ('set',) + OTHER:
    case('C29 C10', 'signalset.Inventory.append', kind)(lambda v, kind=kind: inv_append(v, kind))
    for method in ('create', 'extend'):
        case('C29 C10', 'signalset.Inventory.' + ('extend' if method == 'extend' else '__init__'), 'sets, then ' + kind)(
            lambda v, method=method, kind=kind: inv_create(v, method, kind))


def inv_add(v, kind):
    E = Sets(v)
    a = E.inventory()
    b = Sets(v, 'f')
    x = b.inventory() if kind == 'inventory' else thing(v, kind)
    st, r = v.attempt('signalset.Inventory.__add__', a, x)
    if st == 'raise':
        v.prove('rejected only when it is not an inventory', z3.BoolVal(kind != 'inventory'))
    else:
        v.prove('only inventories', z3.BoolVal(kind == 'inventory'))
        s = v.interp.iter_seq(r.attrs['_content'])
        v.prove('number of sets', zint(s.n) == zint(E.n) + zint(b.n))

        def one(k):
            o = s.get(k)
            v.expect('a set of an inventory', getattr(o, 'k', None) is not None)
            first = zint(k) < zint(E.n)
            return And(z3.BoolVal(o.sym.name == 'e') == first, o.k == z3.If(first, zint(k), zint(k) - zint(E.n)))
        v.forall('the sets of the first one, then those of the other', s.n, one)
    v.frame()
    v.reached()


for kind in ('inventory', 'set', 'list', 'nothing'):
    case('C29 C10', 'signalset.Inventory.__add__', kind)(lambda v, kind=kind: inv_add(v, kind))
