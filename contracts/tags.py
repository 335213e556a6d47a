" C03: Tags "
from .sigs import *

ISALPHA = V.str_pred('isalpha')
HEAD = V.str_fun('slice_None_1_None')


def valid_name(key):
    return ISALPHA(HEAD(V.zterm(key)))


def content(t):
    " dictionary of a Tags object "
    return t.attrs['_tags']


def arbitrary(v, name='s'):
    S = Sym(v, name)
    user_names(v)
    t = S.tags()
    return S, t


def channels(v, kind, name='val'):
    " a value for a tag: (python value, length, element) "
    f = z3.Function(name, INT, INT)
    if kind == 'int':
        return f(0), 1, lambda j: f(0)
    n = v.int(name + '.len', 0)
    seq = SeqV(n, lambda j: f(zint(j)))
    if kind == 'list':
        return inp(V.MList(seq)), n, lambda j: f(zint(j))
    if kind == 'array':
        a = Arr((n,), lambda j: f(zint(j)), I8)
        a.birth, a.inp = 0, True
        return a, n, lambda j: f(zint(j))
    return seq, n, lambda j: f(zint(j))


def holds(v, d, key, n, el, label):
    " d[key] is the tuple of the given channels "
    i = d.find(key)
    if i is None:
        v.prove(label + ': the tag exists', z3.BoolVal(False))
        return
    val = d.get_at(i)
    v.prove(label + ': a tuple', z3.BoolVal(V.is_tuple(val)))
    val = seq_of(val)
    v.prove(label + ': number of channels', cmp('==', val.n, n))
    v.forall(label + ': channels', n, lambda j: zint(val.get(j)) == el(j))


def unchanged(v, S, d, but=None, label='other tags'):
    " every tag (but one) is what it was, and there is no other "
    def tag(t):
        t = zint(t)
        if but is not None and C.branch(S.tname(t) == V.zterm(but)):
            return True
        holds(v, d, SymStr(S.tname(t), user=True), S.tlen(t), lambda j: S.tidx(t, zint(j)), label)
        return True
    v.forall(label, S.T, tag)
    keys = d.keys()

    def known(k):
        x = V.zterm(keys.get(k))
        is_old = V.as_formula(lambda: V.seq_contains(SeqV(S.T, lambda t: SymStr(S.tname(zint(t)), user=True)), SymStr(x, user=True)))
        return Or(asz(is_old), x == V.zterm(but)) if but is not None else asz(is_old)
    v.forall(label + ': no other tag', keys.n, known)


def in_range(S, n, el):
    j = C.fresh('j', INT)
    return z3.ForAll([j], Implies(And(j >= 0, j < zint(n)), And(el(j) >= 0, el(j) < S.N)), patterns=[el(j)] if not z3.is_const(el(j)) else [])


def key_name(v):
    k = v.int('key', 0)
    return SymStr(k, user=True)


def assign(v, kind, how):
    S, t = arbitrary(v)
    t.inp = content(t).inp = False          # the object assigned to
    key = key_name(v)
    val, n, el = channels(v, kind)
    if how == 'item':
        st, r = v.attempt('signalset.TagsBase.__setitem__', t, key, val)
    elif how == 'update':
        st, r = v.attempt(v.attr(t, 'update'), MDict(items=[(key, val)]))
    else:
        C.assume(Not(V.str_pred('startswith__')(key.id)))
        st, r = v.attempt('signalset.TagsBase.__setattr__', t, key, val)
    d = content(t)
    outside = lambda: Not(z3.And(*[And(el(0) >= 0, el(0) < S.N)])) if kind == 'int' else Not(in_range(S, n, el))
    if st == 'raise':
        v.prove('rejected only when invalid', Or(Not(valid_name(key)), zint(n) == 0, outside()))
        v.prove('error', z3.BoolVal(r in ('ValueError', 'AssertionError')))
        unchanged(v, S, d, None, 'after a rejection')
        v.reached('rejection')
        return
    v.prove('valid name', valid_name(key))
    v.prove('at least one channel', zint(n) >= 1)
    v.forall('channels in the range', n, lambda j: And(el(zint(j)) >= 0, el(zint(j)) < S.N))
    holds(v, d, key, n, el, 'assigned tag')
    unchanged(v, S, d, key)
    v.reached()


def delete(v, how):
    S, t = arbitrary(v)
    t.inp = content(t).inp = False
    key = key_name(v)
    st, r = v.attempt('signalset.TagsBase.' + how, t, key)
    d = content(t)
    there = V.as_formula(lambda: V.seq_contains(SeqV(S.T, lambda k: SymStr(S.tname(zint(k)), user=True)), key))
    if st == 'raise':
        v.prove('only an unknown tag is rejected', Not(asz(there)))
        v.prove('error', z3.BoolVal(r in (('KeyError',) if how == '__delitem__' else ('AttributeError', 'KeyError'))))
        unchanged(v, S, d, None, 'after a rejection')
        v.reached('rejection')
        return
    v.prove('the tag was there', asz(there))
    i = d.find(key)
    v.prove('the tag is removed', z3.BoolVal(i is None))
    unchanged(v, S, d, key)
    v.reached()


def read(v, what):
    S, t = arbitrary(v)
    key = key_name(v)
    i = content(t).find(key)
    if what == 'item':
        st, r = v.attempt('signalset.TagsBase.__getitem__', t, key)
    else:
        v.interp.contracts.pop('signalset.TagsBase.__getattribute__')
        st, r = v.attempt('signalset.TagsBase.__getattribute__', t, key)
    if i is None:
        v.prove('unknown tag', z3.BoolVal(st == 'raise' and r in ('KeyError', 'AttributeError')))
        return
    if st == 'raise':
        v.prove('no error', z3.BoolVal(False))
        return
    val = seq_of(r)
    i = zint(i)
    v.prove('number of channels', cmp('==', val.n, S.tlen(i)))
    v.forall('channels', val.n, lambda j: zint(val.get(j)) == S.tidx(i, zint(j)))
    v.frame()
    v.reached()


def attribute(v, name):
    " the attributes of the object, when no tag has their name "
    S, t = arbitrary(v)
    v.interp.contracts.pop('signalset.TagsBase.__getattribute__')
    st, r = v.attempt('signalset.TagsBase.__getattribute__', t, name)
    v.prove('attribute of the object', z3.BoolVal(st == 'ok'))
    if st == 'ok':
        v.prove('its value', z3.BoolVal(r is t.attrs['_tags'] if name == '_tags' else r is t.attrs['_indices']
                                        if name in ('_indices', 'indices') else isinstance(r, I.BoundM)))
    v.frame()
    v.reached()


for kind in ('int', 'tuple', 'list', 'array'):
    for how in ('item', 'attribute', 'update'):
        q = {'item': '__setitem__', 'attribute': '__setattr__', 'update': 'update'}[how]
        case('C03', 'signalset.TagsBase.' + q, 'assignment of %s' % kind, reach=('normal end', 'rejection'))(
            lambda v, kind=kind, how=how: assign(v, kind, how))
for how in ('__delitem__', '__delattr__'):
    case('C03', 'signalset.TagsBase.' + how, 'deletion', reach=('normal end', 'rejection'))(lambda v, how=how: delete(v, how))
for what in ('item', 'attribute'):
    case('C03 C10', 'signalset.TagsBase.' + {'item': '__getitem__', 'attribute': '__getattribute__'}[what], 'tag')(
        lambda v, what=what: read(v, what))
for name in ('_tags', '_indices', 'indices', 'update', 'items', 'keys'):
    case('C03 C10', 'signalset.TagsBase.__getattribute__', 'attribute %s' % name)(lambda v, name=name: attribute(v, name))


# ---------------------------------------------------------------------------
# construction
# ---------------------------------------------------------------------------
class Mapping:
    " an arbitrary mapping of names given by the user to channels "
    def __init__(self, v, name='d'):
        self.v = v
        self.T = v.int(name + '.T', 0)
        self.tname = z3.Function(name + '.tname', INT, INT)
        self.tlen = z3.Function(name + '.tlen', INT, INT)
        self.tidx = z3.Function(name + '.tidx', INT, INT, INT)
        a, b = z3.Ints(C._name('a') + ' ' + C._name('b'))
        C.assume(z3.ForAll([a, b], Implies(And(0 <= a, a < b, b < self.T), self.tname(a) != self.tname(b)),
                           patterns=[z3.MultiPattern(self.tname(a), self.tname(b))]))
        C.assume(z3.ForAll([a], And(self.tname(a) >= 0, self.tlen(a) >= 0), patterns=[self.tname(a)]))
        C.assume(z3.ForAll([a], self.tlen(a) >= 0, patterns=[self.tlen(a)]))

    def dict(self):
        keys = SeqV(self.T, lambda t: SymStr(self.tname(zint(t)), user=True))
        keys.hints['distinct'] = True
        vals = SeqV(self.T, lambda t: SeqV(self.tlen(zint(t)), lambda j: self.tidx(zint(t), zint(j))))
        return inp(MDict(sym=(keys, vals), excluded=EVERY))

    def bad(self, t, n):
        " the name or the channels of tag t are not valid "
        j = C.fresh('j', INT)
        el = self.tidx(t, j)
        out = z3.Exists([j], And(j >= 0, j < self.tlen(t), Or(el < 0, el >= zint(n)) if n is not None else el < 0))
        return Or(Not(valid_name(SymStr(self.tname(t)))), self.tlen(t) == 0, out)


def construct(v, how):
    user_names(v)
    D = Mapping(v)
    n = v.int('n', 0)
    st, r = v.attempt('signalset.Tags', *([n] if how == 'n' else []), **{'**': D.dict()})
    if st == 'raise':
        t = C.fresh('t', INT)
        for n_, _, (TOT, OUT, INN, POS) in C.flats:
            # the axiom on positions, triggered by the channels of the mapping
            a, b = z3.Int('flat.a'), z3.Int('flat.b')
            p = POS(a, b)
            f = Implies(And(a >= 0, a < zint(n_), b >= 0, b < D.tlen(a)), And(p >= 0, p < TOT, OUT(p) == a, INN(p) == b))
            if C.prove('positions in the concatenation', f):
                C.assume(z3.ForAll([a, b], f, patterns=[D.tidx(a, b)]))
        v.prove('only an invalid mapping is rejected', z3.Exists([t], And(
            t >= 0, t < D.T, D.bad(t, n if how == 'n' else None))))
        v.prove('error', z3.BoolVal(r in ('ValueError', 'AssertionError')))
        v.reached('rejection')
        return
    d = content(r)
    v.prove('not the given mapping', z3.BoolVal(not r.inp and not d.inp))
    idx = r.attrs['_indices']
    top = n
    if how == 'n':
        x = C.fresh('x', INT)
        v.prove('range of the channels', asz(V.as_formula(lambda: V.as_set(idx).contains(x))) == And(x >= 0, x < n))
    else:
        top = V.set_card(V.as_set(idx))

        def used(t):
            def below(j):
                for _, _, (TOT, OUT, INN, POS) in C.flats:
                    p = POS(t, j)
                    OUT(p), INN(p)
                return zint(top) > D.tidx(zint(t), zint(j))
            v.forall('default range: channels below', D.tlen(zint(t)), below)
            return True
        v.forall('default range', D.T, used)
    keys, vals = d.keys(), d.values()
    v.prove('as many tags', cmp('==', keys.n, D.T))

    def tag(t):
        t = zint(t)
        v.prove('name of the tag', V.zterm(keys.get(t)) == D.tname(t))
        v.prove('valid name', valid_name(keys.get(t)))
        val = vals.get(t)
        v.prove('a tuple', z3.BoolVal(V.is_tuple(val)))
        val = seq_of(val)
        v.prove('at least one channel', cmp('>=', val.n, 1))
        v.prove('number of channels', cmp('==', val.n, D.tlen(t)))
        v.forall('channels', val.n, lambda j: And(
            zint(val.get(j)) == D.tidx(t, zint(j)), zint(val.get(j)) >= 0, zint(val.get(j)) < zint(top)))
        return True
    v.forall('tag', D.T, tag)
    v.frame()
    v.reached()


for how in ('n', 'default'):
    case('C03 C10', 'signalset.Tags.__init__', 'number of channels %s' % {'n': 'given', 'default': 'by default'}[how],
         reach=('normal end', 'rejection'))(lambda v, how=how: construct(v, how))
