" C25: Metronix calibration "
import os
import pathlib
import shutil
import tempfile
import numpy as np
from .core import scenario, Skip, expect_raise
from razorback.calibrations import metronix
from .r_c24 import Scratch


def table(r, g, n):
    f = np.cumsum(g.uniform(.1, 5., n)) * r.choice([1., .01, 100.])
    return np.column_stack([f, g.uniform(.01, 2., n), g.uniform(-200, 200, n)])


def spell(r, mark):
    w = mark.split()
    s = r.choice([' ', '  ', '\t']).join(r.choice([str, str.lower, str.upper, str.title])(x) for x in w)
    return r.choice(['', ' ', '  ']) + s + r.choice(['', ' ', ' :'])


def write(r, path, on, off, sections):
    lines = ['Calibration of a sensor', 'Date/Time: 01/01/01', '']
    for k in sections:
        lines.append(spell(r, 'Chopper On' if k == 'on' else 'Chopper Off'))
        for row in (on if k == 'on' else off):
            lines.append('  '.join('%.17e' % x for x in row))
        lines.append(r.choice(['', '  ']))
        if r.random() < .3:
            lines.append('some text')
            lines.append('')
    if r.random() < .4:
        while not lines[-1].strip():
            lines.pop()
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + r.choice(['', '\n', '\n\n']))


def ref_mp(f, m, p):
    return f * m * np.exp(1j * np.deg2rad(p))


ALPHA = {'06': 4., '07': 32.}


def close(a, b):
    return abs(complex(a) - complex(b)) <= 1e-10 * abs(complex(b)) + 1e-300


@scenario('C25', 'tables', 600)
def tables(t):
    r, g = t.rng, t.np
    with Scratch() as d:
        ver = r.choice(['06', '07'])
        name = r.choice(['MFS%s', 'mfs MFS%s_123', 'BBMFS%se-TEST', 'MFS%sx.y']) % ver + r.choice(['.TXT', '.txt', '.cal'])
        path = os.path.join(d, name)
        on, off = table(r, g, r.randint(2, 8)), table(r, g, r.randint(2, 8))
        sections = r.choice([['on', 'off'], ['off', 'on']])
        write(r, path, on, off, sections)
        kw = {}
        limit = 512.
        if r.random() < .3:
            limit = kw['chopper_on_limit'] = r.choice([64., 1000., 0.5])
        alpha = ALPHA[ver]
        if r.random() < .3:
            kw['alpha_map'] = {'MFS06': 7.5, 'MFS07': 1.25}
            alpha = kw['alpha_map']['MFS' + ver]
        if r.random() < .2:
            kw['version_pattern'] = r'.*(MFS\d\d)'
        rate = r.choice([limit, limit * 1.0001, limit * .9999, limit / 8, limit * 8, 1e-3, 1e6])
        chop = rate <= limit
        tab = on if chop else off
        arg = r.choice([path, pathlib.Path(path)])
        c = metronix(arg, rate, **kw)
        t.note((name, sections, rate, sorted(kw), len(on), len(off), float(tab[0, 1])))
        inp = dict(name=name, rate=rate, options=kw, table=tab.tolist())
        val = ref_mp(tab[:, 0], tab[:, 1], tab[:, 2])
        for k in range(len(tab)):
            t.check(close(c(tab[k, 0]), val[k]), 'value at the tabulated frequency %g' % tab[k, 0], got=c(tab[k, 0]), expected=val[k], **inp)
        for k in range(len(tab) - 1):
            for w in (.5, float(g.random())):
                f = (1 - w) * tab[k, 0] + w * tab[k + 1, 0]
                w = (f - tab[k, 0]) / (tab[k + 1, 0] - tab[k, 0])
                e = (1 - w) * val[k] + w * val[k + 1]
                t.check(abs(complex(c(f)) - e) <= 1e-9 * abs(val).max(), 'interpolated value at %g' % f, got=c(f), expected=e, **inp)
        f = tab[-1, 0] * r.choice([1.0001, 2., 1e3])
        t.check(expect_raise(lambda: c(f), ValueError), 'value above the table', freq=f, **inp)
        for f in (tab[0, 0] * .999, tab[0, 0] * .1, tab[0, 0] * 1e-4):
            if chop:
                e = f * tab[0, 1] * np.exp(1j * np.arctan2(alpha, f))
                t.check(close(c(f), e), 'value below the table at %g' % f, got=c(f), expected=e, **inp)
            else:
                t.check(expect_raise(lambda: c(f), ValueError), 'value below the chopper-off table', freq=f, **inp)


@scenario('C25', 'unknown version', 60)
def unknown(t):
    r, g = t.rng, t.np
    with Scratch() as d:
        name = r.choice(['MFS11', 'MFS6', 'XYZ', 'MFS', 'mfs06', 'MF06', 'MFS70', 'FGS03'])
        path = os.path.join(d, name + '.txt')
        on, off = table(r, g, 3), table(r, g, 3)
        write(r, path, on, off, ['on', 'off'])
        rate = r.choice([64., 4096.])
        t.note((name, rate, float(on[0, 0])))
        t.check(expect_raise(lambda: metronix(path, rate), ValueError), 'unknown version accepted', name=name, rate=rate)


@scenario('C25', 'missing section or file', 40)
def missing(t):
    r, g = t.rng, t.np
    with Scratch() as d:
        path = os.path.join(d, 'MFS06.txt')
        tab = table(r, g, 3)
        have = r.choice(['on', 'off'])
        write(r, path, tab, tab, [have])
        rate = 4096. if have == 'on' else 64.
        t.note((have, float(tab[0, 0])))
        t.check(expect_raise(lambda: metronix(path, rate)), 'table of the other chopper state used', have=have, rate=rate)
        t.check(expect_raise(lambda: metronix(os.path.join(d, 'MFS07-none.txt'), 64.), ValueError), 'missing file')
