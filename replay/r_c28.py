" C28: tags from paths "
import os
import re
import numpy as np
from .core import scenario, Skip, expect_raise
from razorback.utils import tags_from_path

FIELD = set('_0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')


def assignments(tokens, name):
    " every way to match the whole name (independent of regular expressions) "
    out = []

    def go(k, pos, vals):
        if len(out) > 400:
            return
        if k == len(tokens):
            if pos == len(name):
                out.append(tuple(vals))
            return
        kind, x = tokens[k]
        if kind == 'lit':
            if name.startswith(x, pos):
                go(k + 1, pos + len(x), vals)
        elif kind == 'any1':
            if pos < len(name):
                go(k + 1, pos + 1, vals)
        elif kind in ('in', 'notin'):
            if pos < len(name) and (name[pos] in x) == (kind == 'in'):
                go(k + 1, pos + 1, vals)
        elif kind == 'star':
            e = pos
            while True:
                go(k + 1, e, vals)
                if e < len(name) and name[e] != '/':
                    e += 1
                else:
                    break
        elif kind == 'dstar':
            for e in range(pos, len(name) + 1):
                go(k + 1, e, vals)
        elif kind == 'field':
            e = pos
            while e < len(name) and name[e] in FIELD:
                e += 1
                go(k + 1, e, vals + [name[pos:e]])
    go(0, 0, [])
    return out


def gen_pattern(r):
    " (pattern, tokens, field names) "
    names = r.sample(['a', 'site', 'x1', '_u', 'Channel', 'b_2', 'B'], r.randint(1, 4))
    tokens, txt = [], []
    n = r.randint(2, 7)
    fields = []
    depth = 0
    for k in range(n):
        c = r.random()
        if (c < .35 or (k == n - 1 and not fields)) and names:
            f = names.pop()
            fields.append(f)
            tokens.append(('field', f))
            txt.append('{%s}' % f)
        elif c < .6:
            s = r.choice(['_', '-', 'T', 'rep', '.', '+', 'meas(1)', '$', 'é', 'A', '0', '|', '^', ' '])
            tokens.append(('lit', s))
            txt.append(s)
        elif c < .75:
            if tokens and (txt[-1].endswith('/') or txt[-1] in '..'):
                continue
            if not tokens:
                continue
            tokens.append(('lit', '/'))
            txt.append('/')
        elif c < .83:
            if tokens and tokens[-1][0] in ('star', 'dstar'):
                continue
            tokens.append(('star', None))
            txt.append('*')
        elif c < .9:
            if tokens and tokens[-1][0] in ('star', 'dstar'):
                continue
            tokens.append(('dstar', None))
            txt.append('**')
        elif c < .95:
            tokens.append(('any1', None))
            txt.append('?')
        else:
            s = r.choice(['ab', 'XYZ', '01', 'c-'[:1]])
            neg = r.random() < .4
            tokens.append(('notin' if neg else 'in', s))
            txt.append('[%s%s]' % ('!' if neg else '', s))
    if not txt or txt[-1] == '/' or not fields:
        tokens.append(('lit', '.ats'))
        txt.append('.ats')
    return ''.join(txt), tokens, fields


def instance(r, tokens):
    out = []
    for kind, x in tokens:
        if kind == 'lit':
            out.append(x)
        elif kind == 'any1':
            out.append(r.choice('aZ/0-\n'))
        elif kind == 'in':
            out.append(r.choice(x))
        elif kind == 'notin':
            out.append(r.choice('qQ7_/'))
        elif kind == 'star':
            out.append(r.choice(['', 'a', 'xx-1', '.h', 'é é']))
        elif kind == 'dstar':
            out.append(r.choice(['', 'a', 'u/v', 'u/v/w', 'x.y']))
        else:
            out.append(r.choice(['A', 'b1', '_', '007', 'Ex', 'a_b', 'Zz']))
    return ''.join(out)


def mutate(r, s):
    k = r.random()
    i = r.randrange(len(s) + 1)
    if k < .35:
        return s[:i] + r.choice(['-', '/', 'x', '.', '\n', 'é', '_']) + s[i:]
    if k < .6 and s:
        i = r.randrange(len(s))
        return s[:i] + s[i + 1:]
    if k < .75:
        return s + r.choice(['x', '\n', '/y', '.bak'])
    if k < .9:
        return r.choice(['x', 'rep/', '-']) + s
    return s.swapcase()


@scenario('C28', 'names and patterns', 1500)
def patterns(t):
    r = t.rng
    pattern, tokens, fields = gen_pattern(r)
    if os.path.normpath(pattern) != pattern:
        raise Skip
    names = []
    for _ in range(r.randint(1, 6)):
        s = instance(r, tokens)
        if r.random() < .5:
            s = mutate(r, s)
        if r.random() < .2 and '/' in s:
            s = s.replace('/', r.choice(['//', '/./']), 1)
        if r.random() < .1:
            s = './' + s
        names.append(s)
    tpls = []
    for _ in range(r.randint(0, 3)):
        use = [r.choice(fields) for _ in range(r.randint(0, 3))]
        tpls.append(r.choice(['', 'tag_', 'E']) + r.choice(['_', '-', '']).join('{%s}' % u for u in use))
    t.note((pattern, tuple(names), tuple(tpls)))
    inp = dict(pattern=pattern, names=names, templates=tpls)
    arg = r.choice([names, iter(names), tuple(names)])
    got = list(tags_from_path(arg, pattern, *tpls))
    exp = []
    for s in names:
        a = assignments(tokens, os.path.normpath(s))
        if len(a) > 400:
            raise Skip
        if a:
            exp.append((s, a))
    t.check([s for s, _ in exp] == [s for s, _ in got], 'names matched', got=[s for s, _ in got], expected=[s for s, _ in exp], **inp)
    for (s, a), (_, tags) in zip(exp, got):
        ok = [[re.sub(r'\{(.*?)\}', lambda m: dict(zip(fields, v))[m.group(1)], u) for u in tpls] for v in a]
        t.check(isinstance(tags, (list, tuple)) and list(tags) in ok, 'tags of %r' % s, got=tags, expected=ok[:5], **inp)


@scenario('C28', 'rejected patterns and templates', 300)
def rejected(t):
    r = t.rng
    kind = r.choice(['field', 'pattern', 'template'])
    bad = r.choice(['', '1a', 'a-b', 'a b', 'a.b', 'a[0]', 'é', ' a', 'a!r', 'a:d', '!r', ':3', 'a/b', '0', 'a.b.c', 'a%', 'a+'])
    good = r.choice(['a', '_b', 'x1', 'A_1'])
    names = ['rep/A.txt', 'rep/B1.txt', 'A_A.txt']
    t.note((kind, bad if kind != 'field' else None, good))
    if kind == 'field':
        p, tpl = 'rep/{%s}.txt' % good, r.choice(['{other}', '{%s}_{other}' % good, '{%s}{%s2}' % (good, good), '{%s}' % good.swapcase() if good.swapcase() != good else '{zz}'])
        tpls = r.choice([[tpl], ['{%s}' % good, tpl], [tpl, '{%s}' % good]])
    elif kind == 'pattern':
        p, tpls = r.choice(['rep/{%s}.txt', '{%s}_{a}.txt', 'rep/{c}{%s}.txt']) % bad, []
    else:
        p, tpls = 'rep/{%s}.txt' % good, ['{%s}' % bad]
    t.check(expect_raise(lambda: list(tags_from_path(names, p, *tpls)), ValueError), 'accepted', pattern=p, templates=tpls)


@scenario('C28', 'name found by the verifier', 12)
def found(t):
    " counterexample of the theory of strings: a pattern of the contracts and a name "
    h = t.hint
    if not h or 'pattern' not in h or not h.get('what'):
        raise Skip
    name = re.sub(r'\\u\{([0-9a-f]+)\}', lambda m: chr(int(m.group(1), 16)), h['name'])
    if os.path.normpath(name) != name:
        raise Skip
    want = h['what'].startswith('described')
    t.note((h['pattern'], name))
    got = [s for s, _ in tags_from_path([name], h['pattern'])]
    t.check(got == ([name] if want else []), 'names matched', pattern=h['pattern'], name=name, got=got)
