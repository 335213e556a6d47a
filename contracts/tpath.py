" C28: tags from paths (utils.tags_from_path) "
import os
import string
from .base import *
from pyvc import relang as R
from .sigs import inp
from pyvc.interp import Builtin

FIELD = z3.Plus(z3.Union(R.rng(48, 57), R.rng(65, 90), R.rng(97, 122), R.lit('_')))
NOSEP = z3.Star(R.but(R.lit('/')))
# the paths that os.path.normpath returns
COMP = z3.Intersect(z3.Plus(R.but(R.lit('/'))), z3.Complement(z3.Union(R.lit('.'), R.lit('..'))))
COMPS = z3.Concat(COMP, z3.Star(z3.Concat(R.lit('/'), COMP)))
NORMAL = z3.Union(R.lit('.'), z3.Concat(R.lit('..'), z3.Star(R.lit('/..'))), z3.Concat(z3.Star(R.lit('../')), COMPS),
                  z3.Concat(z3.Union(R.lit('/'), R.lit('//')), z3.Option(COMPS)))
NORM = z3.Function('normpath', INT, INT)
NAME = z3.Function('name', INT, INT)


def language(pattern):
    " specification: [L0, F1, L1, ..., Fn, Ln] for a pattern with n fields, and the names of the fields "
    out, cur, names, i = [], [], [], 0
    while i < len(pattern):
        c = pattern[i]
        end = {'{': '}', '[': ']'}.get(c)
        e = pattern.find(end, i + (3 if pattern[i + 1:i + 2] == '!' else 2)) if end else -1
        if c == '{':
            out += [R.cat(cur), FIELD]
            cur = []
            names.append(pattern[i + 1:e])
            i = e
        elif c == '[' and e > 0:
            seq = pattern[i + 1:e]
            neg = seq.startswith('!')
            seq = seq[1:] if neg else seq
            cs, k = [], 0
            while k < len(seq):
                if k + 2 < len(seq) and seq[k + 1] == '-':
                    cs.append(R.rng(ord(seq[k]), ord(seq[k + 2])))
                    k += 3
                else:
                    cs.append(R.lit(seq[k]))
                    k += 1
            cur.append(R.but(R.union(cs)) if neg else R.union(cs))
            i = e
        elif pattern.startswith('**', i):
            cur.append(R.ALL)
            i += 1
        elif c == '*':
            cur.append(NOSEP)
        elif c == '?':
            cur.append(R.CHAR)
        else:
            cur.append(R.lit(c))
        i += 1
    return out + [R.cat(cur)], names


PATTERNS = [
    'rep/{a}/{x}.txt', 'path_{a}/to_{b}/my_{c}/file_{d}.txt', 'path_{a}/*/*/file_{d}.txt', 'path_{a}/**/file_{d}.txt',
    '**_{d}.txt', '**/Set?/site{site}/{type}/meas*/*_T{channel}_BL*.ats', '{a}', '{a}{b}', '{a}_{b}', 'x', '*', '**',
    '?{a}?', '[abc]{x}', '[!abc]{x}[0-9]', '{a}.{b}$', 'a+b({x})|^c', '*{a}*', '**/{a}', '{a}/**', '[!/]{a}', '{A1}-{_b}',
    'a b/{x}.d.e', 'é{x}', '/abs/{a}.ats', 'rep/{a}/**/{b}/*/{c}',
]
TEMPLATES = ('', 'tag', '{f0}', '{f0}_{f1}', 'E{f1}-{f0}{f1}')


def names(v):
    n = v.int('names', 0)
    v.interp.lib['os.path'].attrs['normpath'] = Builtin('os.path.normpath', lambda p: (
        os.path.normpath(p) if isinstance(p, str) else SymStr(NORM(V.zterm(p)))))
    return n, inp(V.MList(SeqV(n, lambda k: SymStr(NAME(zint(k)), user=True))))


def decided(v, label, a, b, pattern):
    " obligation: the languages are the same (decided by the theory of strings of z3) "
    import time
    t0 = time.time()
    status, word = 'proved', None
    for what, x, y in (('matched, and the pattern does not describe it', a, b), ('described by the pattern, not matched', b, a)):
        r, w = R.difference(z3.Intersect(NORMAL, x), y)
        if r != 'unsat':
            status, word = 'refuted' if r == 'sat' else 'unknown', (w, what)
            break
    ob = dict(name='%s: %s' % (C.label, label), s=round(time.time() - t0, 3), backend='z3', status=status)
    if word is not None:
        ob['model'] = {'name': word[0], 'what': word[1], 'pattern': pattern}
    C.obligations.append(ob)


def go(v, pattern, tpls):
    lang, fields = language(os.path.normpath(pattern))
    tpls = [t.format(**{'f%d' % i: '{%s}' % fields[i % len(fields)] for i in range(2) if fields}) for t in tpls]
    n, arg = names(v)
    st, r = v.attempt('utils.tags_from_path', arg, pattern, *tpls)
    v.prove('no error', z3.BoolVal(st == 'ok'))
    if st != 'ok':
        return
    res = v.interp.iter_seq(r)
    used = list(dict.fromkeys(C.regexes))
    v.expect('one regular expression', len(used) == 1 and isinstance(used[0][1], str))
    how, text = used[0]
    if ('lang', pattern) not in v.lemmas:
        v.lemmas.add(('lang', pattern))
        segs = R.segments(text, how)
        decided(v, 'the names matched are those described by the pattern', R.cat(segs), R.cat(lang), pattern)
        v.expect('one group for each field', len(segs) == len(lang))
        for i, (a, b) in enumerate(zip(segs, lang)):
            v.expect('each group is a field', R.difference(a, b)[0] == 'unsat')
    MATCH = z3.Function('re_' + how, INT, INT, z3.BoolSort())
    GROUP = z3.Function('re_%s_group' % how, INT, INT, INT, INT)
    matched = lambda k: MATCH(V.zterm(text), NORM(NAME(zint(k))))

    def source(j):
        p = res.get(j)
        v.expect('a pair', V.is_tuple(p) and V.seq_of(p).n == 2)
        e = V.seq_of(p).get(0)
        v.expect('one of the names', V.is_str(e) and z3.is_app(V.zterm(e)) and V.zterm(e).decl().name() == 'name')
        return V.zterm(e).arg(0)

    def one(j):
        k = source(j)
        v.prove('a name of the list', And(k >= 0, k < zint(n)))
        v.prove('which matches the pattern', matched(k))
        tags = V.seq_of(res.get(j)).get(1)
        s = V.seq_of(tags.seq if isinstance(tags, V.MList) else tags)
        v.prove('one tag for each template', zint(s.n) == len(tpls))
        for i, t in enumerate(tpls):
            got = s.get(i)
            fs = [f for _, f, _, _ in string.Formatter().parse(t) if f is not None]
            if not fs:
                v.prove('tag without field', lambda: z3.BoolVal(got == t) if isinstance(got, str) else V.zterm(got) == V.zterm(t))
                continue
            v.expect('a filled template', V.is_str(got) and not isinstance(got, str)
                     and V.zterm(got).decl().name() == 'str_format%d' % len(fs))
            want = V.format_text(t, [SymStr(GROUP(V.zterm(text), NORM(NAME(k)), z3.IntVal(fields.index(f) + 1))) for f in fs])
            v.prove('the template filled with the text of the fields', V.zterm(got) == V.zterm(want))
        return True
    v.forall('pair', res.n, one)
    v.forall('in order', sub(res.n, 1), lambda j: source(j) < source(add(j, 1)))

    def complete(k):
        k = zint(k)
        C.assume(matched(k))
        v.some('no matching name is skipped', res.n, [lambda w=w: w for w in [k] + [f[3][2](k) for f in C.filters]],
               lambda j: source(j) == k)
        return True
    v.forall('complete', n, complete)
    v.frame()
    v.reached()


for pattern in PATTERNS:
    for tpls in [(), TEMPLATES] if pattern in PATTERNS[:2] else [TEMPLATES]:
        if not language(pattern)[1]:
            tpls = tuple(t for t in tpls if '{' not in t)
        case('C28', 'utils.tags_from_path', 'pattern %s, %d templates' % (pattern, len(tpls)))(
            lambda v, pattern=pattern, tpls=tpls: go(v, pattern, tpls))


BAD = ['', '1a', 'a-b', 'a b', 'a.b', 'a[0]', 'é', ' a', 'a!r', 'a:d', '!r', ':3', 'a/b', '0']


def rejected(v, pattern, tpls):
    n, arg = names(v)
    st, r = v.attempt('utils.tags_from_path', arg, pattern, *tpls)
    v.prove('rejected with ValueError', z3.BoolVal(st == 'raise' and r == 'ValueError'))
    v.frame()
    v.reached()


for pattern, tpls in ([('rep/{%s}.txt' % b, ()) for b in BAD] + [('rep/{a}.txt', ('{%s}' % b,)) for b in BAD] +
                      [('{c}_{%s}' % b, ('{c}',)) for b in BAD[:4]] +
                      [('rep/{a}.txt', ('{b}',)), ('rep/{a}_{b}.txt', ('{a}', '{c}')), ('{a}', ('{A}',)),
                       ('{a}', ('{a}{a2}', '{a}')), ('x', ('{x}',))]):
    case('C28', 'utils.tags_from_path', 'rejected: pattern %s, templates %s' % (pattern, ' '.join(tpls)))(
        lambda v, pattern=pattern, tpls=tpls: rejected(v, pattern, tpls))
