""" languages of regular expressions, as terms of the theory of strings of z3

segments(text, how): the regular expression as a sequence of languages L0 G1 L1 G2 ... Gn Ln where G1.. Gn are its groups;
the concatenation is the language of the texts it matches.
"""
import z3
from re import _constants as K, _parser as P
from .core import Unsupported

CHAR = z3.AllChar(z3.ReSort(z3.StringSort()))
ALL = z3.Full(z3.ReSort(z3.StringSort()))
EPS = z3.Re('')


def lit(s):
    return z3.Re(''.join(c if ' ' <= c <= '~' and c != '\\' else '\\u{%x}' % ord(c) for c in s))


def rng(a, b):
    return z3.Range(z3.StringVal(chr_(a)), z3.StringVal(chr_(b)))


def chr_(c):
    c = chr(c)
    return c if ' ' <= c <= '~' and c != '\\' else '\\u{%x}' % ord(c)


def cat(items):
    items = [i for i in items if not i.eq(EPS)]
    return EPS if not items else items[0] if len(items) == 1 else z3.Concat(*items)


def union(items):
    return items[0] if len(items) == 1 else z3.Union(*items)


def but(r):
    " the characters outside a class "
    return z3.Intersect(CHAR, z3.Complement(r))


CATEGORY = {}


def klass(items):
    neg = items and items[0] == (K.NEGATE, None)
    out = []
    for op, a in items[1:] if neg else items:
        if op is K.LITERAL:
            out.append(lit(chr(a)))
        elif op is K.RANGE:
            out.append(rng(*a))
        else:
            raise Unsupported('class of characters %s' % op)
    r = union(out)
    return but(r) if neg else r


def language(seq, dotall):
    " language of a parsed sequence without anchors "
    out = []
    for op, a in seq:
        if op is K.LITERAL:
            out.append(lit(chr(a)))
        elif op is K.NOT_LITERAL:
            out.append(but(lit(chr(a))))
        elif op is K.ANY:
            out.append(CHAR if dotall else but(lit('\n')))
        elif op is K.IN:
            out.append(klass(a))
        elif op is K.BRANCH:
            out.append(union([language(x, dotall) for x in a[1]]))
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, sub = a
            r = language(sub, dotall)
            if hi is K.MAXREPEAT:
                out.append(cat([r] * lo + [z3.Star(r)]))
            else:
                out.append(z3.Loop(r, lo, hi))
        elif op is K.SUBPATTERN:
            group, add, sub_flags, sub = a
            if add & ~int(P.SRE_FLAG_DOTALL) or sub_flags:
                raise Unsupported('flags of a regular expression')
            out.append(language(sub, dotall or bool(add)))
        else:
            # anchors in the middle, look around, atomic groups (which do change the language), references
            raise Unsupported('regular expression %s' % op)
    return cat(out)


def segments(text, how='match'):
    " [L0, G1, L1, ..., Gn, Ln] "
    tree = P.parse(text)
    if int(tree.state.flags) & ~int(P.SRE_FLAG_DOTALL | P.SRE_FLAG_UNICODE):
        raise Unsupported('flags of a regular expression')
    items = []

    def flat(seq, dotall):
        for op, a in seq:
            if op is K.SUBPATTERN and a[0] is None:
                if a[1] & ~int(P.SRE_FLAG_DOTALL) or a[2]:
                    raise Unsupported('flags of a regular expression')
                flat(a[3], dotall or bool(a[1]))
            else:
                items.append((op, a, dotall))
    flat(tree, bool(int(tree.state.flags) & int(P.SRE_FLAG_DOTALL)))
    tail = EPS if how == 'fullmatch' else ALL
    if items and items[-1][0] is K.AT and items[-1][1] in (K.AT_END_STRING, K.AT_END):
        if how != 'fullmatch' and items[-1][1] is K.AT_END:
            tail = z3.Union(EPS, lit('\n'))
        else:
            tail = EPS
        items.pop()
    head = EPS
    if how == 'search':
        head = ALL
    if items and items[0][0] is K.AT and items[0][1] in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
        head = EPS
        items.pop(0)
    out, cur = [], [head]
    for op, a, dotall in items:
        if op is K.SUBPATTERN and a[0] is not None:
            if a[0] != len(out) // 2 + 1:
                raise Unsupported('nested groups')
            if grouped(a[3]):
                raise Unsupported('nested groups')
            out += [cat(cur), language(a[3], dotall)]
            cur = []
        else:
            if grouped([(op, a)]):
                raise Unsupported('nested groups')
            cur.append(language([(op, a)], dotall))
    return out + [cat(cur + [tail])]


def grouped(seq):
    for op, a in seq:
        if op is K.SUBPATTERN and (a[0] is not None or grouped(a[3])):
            return True
        if op is K.BRANCH and any(grouped(x) for x in a[1]):
            return True
        if op in (K.MAX_REPEAT, K.MIN_REPEAT) and grouped(a[2]):
            return True
    return False


def difference(a, b, timeout=10000):
    " ('unsat', None) or ('sat', word) of a but not of b, or ('unknown', None) "
    s = z3.Solver()
    s.set('timeout', timeout)
    x = z3.String('x')
    s.add(z3.InRe(x, a), z3.Not(z3.InRe(x, b)))
    r = s.check()
    if r == z3.unsat:
        return 'unsat', None
    if r == z3.sat:
        return 'sat', s.model().eval(x, model_completion=True).as_string()
    return 'unknown', None
