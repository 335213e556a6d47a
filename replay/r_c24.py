" C24: ATS files "
import os
import shutil
import struct
import tempfile
import warnings
import numpy as np
from .core import scenario, Skip, expect_raise
from razorback.io.ats import load_ats, load_ats_from

HEAD = 1024


def write(r, g, path, values, lsb, rate, start, head=HEAD, announced=None, version=80):
    " header fields: little-endian, at the offsets of the ATS format; everything else random "
    b = bytearray(g.bytes(head))
    struct.pack_into('<h', b, 0x00, head)
    struct.pack_into('<h', b, 0x02, version)
    struct.pack_into('<i', b, 0x04, len(values) if announced is None else announced)
    struct.pack_into('<f', b, 0x08, rate)
    struct.pack_into('<i', b, 0x0c, start)
    struct.pack_into('<d', b, 0x10, lsb)
    with open(path, 'wb') as f:
        f.write(bytes(b) + np.asarray(values, '<i4').tobytes())


def values(g, n):
    v = g.integers(-2**31, 2**31, size=n)
    v[g.random(n) < .1] = 2**31 - 1
    v[g.random(n) < .1] = -2**31
    return v


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='verif-c24-')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def load(*a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return load_ats(*a, **k)


def params(r):
    rate = r.choice([64., 512., 1/32, 262144., 100.5, 0.1])
    start = r.choice([0, 1, 1262304000, 2**31 - 1, 86400, -5])
    return rate, start


@scenario('C24', 'files of the same run', 250)
def files(t):
    r, g = t.rng, t.np
    with Scratch() as d:
        nc = r.randint(1, 4)
        n = r.choice([1, 2, 5, 100, 1000])
        rate, start = params(r)
        names, ref = [], []
        order = r.sample(range(100), nc)
        for c in range(nc):
            name = os.path.join(d, 'ch%02d.ats' % order[c])
            v = values(g, n)
            lsb = r.choice([1., -1., 1e-6, 3.7e-5, 0.1, 2.])
            head = r.choice([HEAD, HEAD, HEAD, 1024 + 2 * r.randint(0, 300), r.randint(1024, 3000)])
            cut = r.random()
            if cut < .15:
                write(r, g, name, v, lsb, rate, start, head, announced=n + r.choice([1, 5, 10**6]))
            elif cut < .3:
                write(r, g, name, np.concatenate([v, values(g, 7)]), lsb, rate, start, head, announced=n)
            else:
                write(r, g, name, v, lsb, rate, start, head)
            names.append(name)
            ref.append(lsb * v.astype(np.int32))
        kind = r.choice(['none', 'numbers', 'functions'])
        cal = dict(none=None, numbers=[1. + .5 * c for c in range(nc)],
                   functions=[(lambda f, c=c: f * (c + 1j)) for c in range(nc)])[kind]
        exp = dict(none=[lambda f: 1.] * nc, numbers=[lambda f, c=c: 1. + .5 * c for c in range(nc)],
                   functions=[lambda f, c=c: f * (c + 1j) for c in range(nc)])[kind]
        t.note((nc, n, rate, start, kind))
        inp = dict(channels=nc, samples=n, rate=rate, start=start, calibrations=kind)
        s = load(names, cal) if cal is not None or r.random() < .5 else load(names)
        t.check(len(s.data) == nc, 'one channel per file', **inp)
        t.check(s.sampling_rate == struct.unpack('<f', struct.pack('<f', rate))[0], 'sampling rate', got=s.sampling_rate, **inp)
        t.check(s.start == start, 'start', got=s.start, **inp)
        t.check(len(s.calibrations) == nc, 'number of calibrations', **inp)
        for c in range(nc):
            x = np.asarray(s.data[c])
            t.check(x.shape == ref[c].shape, 'number of samples', got=x.shape, **inp)
            t.check(np.array_equal(x, ref[c]), 'samples of channel %d' % c, got=x[:5], expected=ref[c][:5], **inp)
            t.check(s.calibrations[c](3.) == exp[c](3.), 'calibration of channel %d' % c, got=s.calibrations[c](3.), **inp)


@scenario('C24', 'other runs, other sizes', 120)
def reject(t):
    r, g = t.rng, t.np
    with Scratch() as d:
        nc = r.randint(2, 4)
        rate, start = params(r)
        bad = r.choice(['rate', 'start', 'calibrations', 'size'])
        odd = r.randrange(nc)
        names = []
        n = 20
        for c in range(nc):
            name = os.path.join(d, 'ch%02d.ats' % c)
            a, b, m = rate, start, n
            if c == odd:
                if bad == 'rate':
                    a = r.choice([2 * rate, rate + rate * 2**-20])
                elif bad == 'start':
                    b = start + r.choice([-1, -2, -3600])
                elif bad == 'size':
                    m = n + 1
            write(r, g, name, values(g, m), .5, a, b)
            names.append(name)
        cal = [1.] * (nc + r.choice([1, -1])) if bad == 'calibrations' else None
        t.note((nc, odd, bad, rate, start))
        t.check(expect_raise(lambda: load(names, cal)), 'different %s accepted' % bad, channels=nc, odd=odd)


@scenario('C24', 'files of a directory', 40)
def directory(t):
    r, g = t.rng, t.np
    with Scratch() as d:
        nc = r.randint(1, 4)
        ref = []
        for c in range(nc):
            v = values(g, 30)
            write(r, g, os.path.join(d, 'x%d.ats' % c), v, .25, 64., 1000)
            ref.append(.25 * v)
        with open(os.path.join(d, 'other.txt'), 'w') as f:
            f.write('nothing')
        s = load_ats_from(d)
        t.note((nc, int(ref[0][0])))
        got = sorted(np.asarray(x).tolist() for x in s.data)
        t.check(got == sorted(x.tolist() for x in ref), 'files of the directory', channels=nc)
