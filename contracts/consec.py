" C08: merging consecutive runs (signalset.SignalSet.merge_consecutive_runs, _group_indices) "
from .sets import *


def merged(v, R, rounded=False, T=None, pattern=None, rates=None):
    tags_contract(v)
    set_contract(v)
    S = Sym(v, 's', nruns=R)
    if T is not None:
        S.T = T
    if rates is not None:
        S.rate = lambda k: z3.RealVal(rates[k.as_long() if z3.is_expr(k) else k])
        S.invariants = lambda: C.assume(And(*[S.stop(i) <= S.start(j) for j in range(R) for i in range(j)]))
    s = S.sigset()
    for k in range(R):
        S.run_facts(k)
        C.inputs['size%d' % k], C.inputs['rate%d' % k], C.inputs['start%d' % k] = S.size(k), S.rate(k), S.start(k)
        C.inputs['period%d' % k] = 1 / S.rate(k)
        C.assume((1 / S.rate(k)) * S.rate(k) == 1)
        C.assume(1 / S.rate(k) > 0)
    times = [t for k in range(R) for t in (S.start(k), S.stop(k))]
    gap = lambda k: S.start(k + 1) - S.stop(k)
    off = lambda k: V.absv(sub(gap(k), 1 / S.rate(k)))
    same = lambda k: S.rate(k) == S.rate(k + 1)
    far = lambda k: Or(Not(same(k)), zreal(off(k)) > z3.Q(1, 10**7) + z3.Q(1, 10**4) * gap(k) + spacing_tol(*times))
    if rounded:
        near = lambda k: And(same(k), zreal(off(k)) <= 4 * rounding(*times))
    else:
        near = lambda k: And(same(k), gap(k) == 1 / S.rate(k))
    links = []
    for k in range(R - 1):
        if pattern is not None:
            C.assume(near(k) if pattern[k] == 'link' else And(same(k), Not(near(k))) if pattern[k] == 'gap' else Not(same(k)))
            links.append(pattern[k] == 'link')
        else:
            links.append(bool(C.branch(near(k))))
        if not links[-1]:
            C.assume(far(k))
    groups = [[0]] if R else []
    for k, l in enumerate(links, 1):
        if l:
            groups[-1].append(k)
        else:
            groups.append([k])
    st, r = v.attempt('signalset.SignalSet.merge_consecutive_runs', s)
    v.prove('no error', z3.BoolVal(st == 'ok'))
    if st == 'raise':
        return
    res = v.interp.iter_seq(v.attr(r, 'signals'))
    v.prove('as many runs as groups', cmp('==', res.n, len(groups)))
    v.expect('runs', res.concrete)
    if res.n != len(groups):
        return
    for j, g in enumerate(groups):
        o = res.get(j)
        data, cals, rate, start, size = sync_fields(v, o)
        total = 0
        for k in g:
            total = add(total, S.size(k))
        v.prove('group: start', cmp('==', start, S.start(g[0])))
        v.prove('group: rate', cmp('==', rate, S.rate(g[0])))
        v.prove('group: size', cmp('==', size, total))
        v.prove('group: channels', And(cmp('==', data.n, S.N), cmp('==', cals.n, S.N)))

        def channel(c, g=g, data=data, cals=cals, total=total):
            a = A.asarray(data.get(c))
            v.prove('group: calibration', same_cal(cals.get(c), S.cal(g[0], zint(c))))
            v.prove('group: number of samples', cmp('==', a.shape[0], total))
            first = 0
            for k in g:
                v.forall('group: samples', S.size(k),
                         lambda i, k=k, first=first: cmp('==', a.get(add(first, i)), S.x(k, zint(c), i)))
                first = add(first, S.size(k))
            return True
        v.forall('group: channel', S.N, channel)
    same_tags(v, r, S)
    v.frame()
    v.reached()


for R, T in ((0, None), (1, None), (2, None), (2, 0)):
    case('C08 C10' if T is None else 'C08', 'signalset.SignalSet.merge_consecutive_runs',
         '%d runs%s' % (R, '' if T is None else ', %d tags' % T), budget=120)(lambda v, R=R, T=T: merged(v, R, T=T))
case('C08', 'signalset.SignalSet.merge_consecutive_runs', '2 runs, rounded times', budget=120)(lambda v: merged(v, 2, True))
for p in (('link', 'link'), ('link', 'gap'), ('link', 'rate'), ('gap', 'link'), ('rate', 'link')):
    case('C08', 'signalset.SignalSet.merge_consecutive_runs', '3 runs, 0 tags: %s, %s' % p, budget=150)(
        lambda v, p=p: merged(v, 3, T=0, pattern=p))
for rates in ((2, 2, 2), (1, 1, 2), (2, 1, 1), (1, 2, 1), (2, 1, 2), (4, 2, 1), (2, 2, 2, 2), (2, 2, 1, 1), (2, 1, 2, 2)):
    gaps = [[]]
    for k in range(len(rates) - 1):
        gaps = [g + [x] for g in gaps for x in (('link', 'gap') if rates[k] == rates[k + 1] else ('rate',))]
    for p in gaps:
        case('C08', 'signalset.SignalSet.merge_consecutive_runs', 'runs at %s Hz, 0 tags: %s' % (
            ', '.join(map(str, rates)), ', '.join(p)), budget=60)(
            lambda v, p=p, rates=rates: merged(v, len(rates), T=0, pattern=p, rates=rates))
