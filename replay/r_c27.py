" C27: data files and data paths "
import atexit
import json
import os
import shutil
import subprocess
import sys
import tempfile
from .core import scenario, Skip, expect_raise

SRC = os.environ.get('VERIF_SRC', '/repo/src')
HERE = os.path.dirname(os.path.abspath(__file__))


class Worker:
    " the package is copied: its shipped data directory is then part of the scratch directory "
    def __init__(self):
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix='verif-c27-'))
        atexit.register(self.close)
        os.mkdir(os.path.join(self.dir, 'pkg'))
        self.pkg = os.path.join(self.dir, 'pkg', 'razorback')
        shutil.copytree(os.path.join(SRC, 'razorback'), self.pkg, ignore=shutil.ignore_patterns('data', '__pycache__'))
        self.default = os.path.join(self.pkg, 'data')
        self.cwd = os.path.join(self.dir, 'cwd')
        os.mkdir(self.cwd)
        self.p = subprocess.Popen([sys.executable, '-B', os.path.join(HERE, 'c27_worker.py'), self.dir], cwd=self.dir,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)

    def ask(self, **q):
        self.p.stdin.write(json.dumps(q) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError('worker ended')
        return json.loads(line)

    def reset(self):
        for d in (self.default, self.cwd):
            if os.path.isdir(d):
                shutil.rmtree(d)
        os.mkdir(self.cwd)

    def close(self):
        if self.p.poll() is None:
            self.p.stdin.close()
            self.p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)

    def snapshot(self):
        res = {}
        for root, ds, fs in os.walk(self.dir):
            for n in ds:
                p = os.path.join(root, n)
                res[p] = 'link ' + os.readlink(p) if os.path.islink(p) else 'dir'
            for n in fs:
                p = os.path.join(root, n)
                with open(p, 'rb') as f:
                    res[p] = f.read()
        return res


W = []


def worker():
    if not W:
        W.append(Worker())
    W[0].reset()
    return W[0]


def put(path, txt):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(txt)


NAMES = ['x.txt', 'y.cal', 'sub/x.txt', 'MFS06.TXT', 'a b.txt']
DIRS = ['metronix_calibration', 'other', 'a/b', '']


def setup(r, w, d, wd):
    " random content of the local and default directories of d "
    local, default = os.path.join(wd, 'data', d), os.path.join(w.default, d)
    k = r.choice(['no', 'no', 'dir', 'dir', 'dir', 'parent', 'file', 'link'])
    have = set()
    if k == 'parent' and d:
        os.makedirs(os.path.dirname(os.path.normpath(local)), exist_ok=True)
    elif k in ('dir', 'link'):
        if k == 'link' and d and not os.path.lexists(local):
            target = os.path.join(wd, 'elsewhere')
            os.makedirs(target, exist_ok=True)
            os.makedirs(os.path.dirname(os.path.normpath(local)), exist_ok=True)
            os.symlink(target, local)
        else:
            os.makedirs(local, exist_ok=True)
    elif k == 'file' and d:
        put(local, 'not a directory')
    if os.path.isdir(local):
        for n in NAMES:
            if r.random() < .4:
                put(os.path.join(local, n), 'local ' + n)
    if r.random() < .8:
        os.makedirs(default, exist_ok=True)
        for n in NAMES:
            if r.random() < .5:
                put(os.path.join(default, n), 'default ' + n)
    return local, default


@scenario('C27', 'lookup', 500)
def lookup(t):
    r, w = t.rng, worker()
    wds = [os.path.join(w.cwd, n) for n in r.sample(['u', 'v', 'w/z'], r.randint(1, 3))]
    state = {}
    for wd in wds:
        os.makedirs(wd, exist_ok=True)
    for wd in wds:
        for d in r.sample(DIRS, r.randint(1, 3)):
            state[wd, d] = setup(r, w, d, wd)
    before = w.snapshot()
    seen = []
    for _ in range(8):
        (wd, d), (local, default) = r.choice(sorted(state.items()))
        n = r.choice(NAMES)
        inp = dict(cwd=os.path.relpath(wd, w.dir), directory=d, name=n, local=os.path.isdir(local),
                   files=sorted(os.path.relpath(p, w.dir) for p in before if p.startswith((local, default))))
        exp = [os.path.join(x, n) for x, ok in ((local, os.path.isdir(local)), (default, True)) if ok and os.path.isfile(os.path.join(x, n))]
        got = w.ask(op='file', cwd=wd, filename=n, dirname=d)
        seen.append((d, n, len(exp)))
        if exp:
            t.check('result' in got and os.path.realpath(got['result']) == os.path.realpath(exp[0]), 'file returned', got=got, expected=exp[0], **inp)
        else:
            t.check(got.get('error') == 'ValueError', 'ValueError expected', got=got, **inp)
        got = w.ask(op='path', cwd=wd, dirname=d)
        e = local if os.path.isdir(local) else default
        t.check('result' in got and os.path.realpath(got['result']) == os.path.realpath(e), 'data path', got=got, expected=e, **inp)
    t.check(w.snapshot() == before, 'looking up changed the directories')
    t.note((repr(sorted(p for p in before if not p.startswith(w.pkg + '/') or p.startswith(w.default))).replace(w.dir, ''), tuple(seen)))


@scenario('C27', 'command line', 150)
def command(t):
    r, w = t.rng, worker()
    wd = os.path.join(w.cwd, r.choice(['u', 'w/z']))
    os.makedirs(wd)
    for d in r.sample(['metronix_calibration', '', 'other'], r.randint(0, 2)):
        setup(r, w, d, wd)
    steps = []
    for _ in range(r.randint(1, 4)):
        which = r.choice(['base', 'metronix'])
        create = r.choice([[], [], ['--create'], ['-c']])
        steps.append((which, bool(create)))
        d = {'base': '', 'metronix': 'metronix_calibration'}[which]
        local, default = os.path.join(wd, 'data', d).rstrip('/'), os.path.join(w.default, d).rstrip('/')
        before = w.snapshot()
        isdir = os.path.isdir(local)
        blocked = os.path.isfile(os.path.join(wd, 'data'))
        got = w.ask(op='cli', cwd=wd, args=['path'] + create + [which])
        after = w.snapshot()
        inp = dict(command=' '.join(['path'] + create + [which]), steps=steps, local_existed=isdir, got=got,
                   new=sorted(os.path.relpath(p, w.dir) for p in after if p not in before))
        t.check(all(after.get(p) == x for p, x in before.items()), 'something existing was changed', **inp)
        new = {p for p in after if p not in before}
        if not create:
            t.check(not new, 'showing a path created something', **inp)
            t.check(got['result']['code'] == 0, 'exit code', **inp)
            shown = got['result']['out'].strip()
            t.check(os.path.realpath(shown) == os.path.realpath(local if isdir else default), 'path shown', expected=local if isdir else default, **inp)
        elif not blocked:
            parents = {os.path.join(wd, 'data'), local}
            t.check(new == (parents - set(before)), 'directories created', **inp)
            if not os.path.lexists(local) or os.path.isdir(local):
                t.check(os.path.isdir(local), 'local directory not created', **inp)
            t.check(got['result']['code'] == 0, 'exit code', **inp)
    t.note((repr(sorted(p for p in before if p.startswith(w.cwd))).replace(w.dir, ''), tuple(steps)))
