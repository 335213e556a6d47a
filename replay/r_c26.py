" C26: Phoenix calibration "
import os
import pathlib
import numpy as np
from .core import scenario, Skip, expect_raise
from razorback.calibrations import phoenix
from .r_c24 import Scratch


@scenario('C26', 'levels and channels', 600)
def levels(t):
    r, g = t.rng, t.np
    with Scratch() as d:
        n = r.randint(1, 6)
        lv = r.sample([2, 3, 4, 5, 6], r.randint(1, 4))
        rows, tab = [], {}
        for l in lv:
            m = r.randint(2, 8)
            f = np.cumsum(g.uniform(.1, 3., m)) * 10. ** r.randint(-3, 3)
            v = g.normal(size=(m, n)) + 1j * g.normal(size=(m, n))
            tab[l] = (f, v)
            rows += [(l, f[k], v[k]) for k in range(m)]
        if r.random() < .5:
            r.shuffle(rows)
        elif r.random() < .5:
            rows.reverse()
        path = os.path.join(d, '1234.CTS')
        with open(path, 'w') as h:
            h.write(', '.join(['2010/01/01 00:00:00', '1234', 'MTU', str(n)]) + r.choice(['', ', ', ' ,,', '  ']) + '\n')
            if r.random() < .3:
                h.write('freq, level, ' + ', '.join('re, im' for _ in range(n)) + '\n')
            for l, f, v in rows:
                h.write(', '.join(['%.17e' % f, r.choice(['%d', '%.1f']) % l] + ['%.17e, %.17e' % (z.real, z.imag) for z in v]))
                h.write(r.choice(['', ', 0.5']) + '\n')
        l = r.choice(lv)
        c = phoenix(r.choice([path, pathlib.Path(path)]), l)
        f, v = tab[l]
        t.note((n, lv, l, len(f), float(f[0])))
        inp = dict(channels=n, levels=lv, level=l, freqs=f.tolist())
        t.check(len(c) == n, 'one function per channel', got=len(c), **inp)
        for i in range(n):
            for k in range(len(f)):
                t.check(abs(complex(c[i](f[k])) - v[k, i]) <= 1e-9 * abs(v).max(), 'channel %d at %g' % (i, f[k]), got=c[i](f[k]), expected=v[k, i], **inp)
            for k in range(len(f) - 1):
                x = f[k] + (f[k + 1] - f[k]) * float(g.random())
                w = (x - f[k]) / (f[k + 1] - f[k])
                e = (1 - w) * v[k, i] + w * v[k + 1, i]
                t.check(abs(complex(c[i](x)) - e) <= 1e-9 * abs(v).max(), 'channel %d, interpolated at %g' % (i, x), got=c[i](x), expected=e, **inp)
        for x in (0, 1, 2, 3, 4, 5, 6, 7, -1, 2.5):
            if x not in lv:
                t.check(expect_raise(lambda: phoenix(path, x)), 'missing level %r accepted' % x, **inp)
