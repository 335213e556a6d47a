" C27: data files and data paths (data.py, cli.py) "
from .base import *
from pyvc import fs
import os


def dirs(v, target):
    " (local directory, shipped directory) of a target: terms "
    local = fs.PathV(fs.CWD).join('data').join(target)
    default = fs.path_of(os.path.join(v.interp.src, 'data.py')).get_attr(v.interp, 'parent').join('data').join(target)
    return local, default


def target_of(v, kind):
    return SymStr(z3.Int('target'), user=True) if kind == 'any' else kind


def is_path(v, label, p, want):
    v.expect('a path', isinstance(p, fs.PathV))
    v.prove(label, zint(p.term) == zint(want))


def touched(v):
    return [e for e in v.interp.effects if e[0] not in ('echo', 'warn')]


for kind in ('any', ''):
    @case('C27', 'data.data_path', 'target %s' % (kind or 'none'))
    def _(v, kind=kind):
        target = target_of(v, kind)
        local, default = dirs(v, target)
        st, r = v.attempt('data.data_path', target)
        v.prove('no error', z3.BoolVal(st == 'ok'))
        if st == 'ok':
            is_path(v, 'the local directory when it exists, else the shipped one', r,
                    If(fs.ISDIR(local.t), local.t, default.t))
        v.prove('nothing is created', z3.BoolVal(not touched(v)))
        v.reached()

    @case('C27', 'data.get_data_file', 'target %s' % (kind or 'none'), reach=('normal end', 'rejection'))
    def _(v, kind=kind):
        target, name = target_of(v, kind), SymStr(z3.Int('filename'), user=True)
        local, default = dirs(v, target)
        a, b = local.join(name).t, default.join(name).t
        has_local = And(fs.ISDIR(local.t), fs.EXISTS(a))
        st, r = v.attempt('data.get_data_file', name, target)
        if st == 'raise':
            v.prove('error', z3.BoolVal(r == 'ValueError'))
            v.prove('rejected only when no directory has it', And(Not(has_local), Not(fs.EXISTS(b))))
            v.reached('rejection')
            return
        is_path(v, 'the first existing file', r, If(has_local, a, b))
        v.prove('an existing file', Or(has_local, fs.EXISTS(b)))
        v.prove('nothing is created', z3.BoolVal(not touched(v)))
        v.reached()


def shown(v, call, target, create):
    local, default = dirs(v, target)
    st, r = call()
    v.prove('no error', z3.BoolVal(st == 'ok'))
    if st != 'ok':
        return
    done = touched(v)
    out = [a[0] for k, a in v.interp.effects if k == 'echo']
    if not create:
        v.prove('nothing is created', z3.BoolVal(not done))
        v.prove('one line', z3.BoolVal(len(out) == 1))
        p = out[0]
        if isinstance(p, SymStr):
            p = fs.path_of(p)
        is_path(v, 'shows the path', p, If(fs.ISDIR(local.t), local.t, default.t))
    else:
        v.prove('only directories are created', z3.BoolVal(all(k == 'mkdir' for k, _ in done)))
        v.prove('only the local directory is created', And(*[zint(t) == local.t for _, t in done]))
        v.prove('an existing one is left untouched', Implies(fs.EXISTS(local.t), z3.BoolVal(not done)))
        v.prove('a missing one is created', Implies(Not(fs.EXISTS(local.t)), z3.BoolVal(len(done) == 1)))
    v.reached()


for create in (False, True):
    for kind in ('any', ''):
        @case('C27', 'cli.path_action', 'target %s%s' % (kind or 'none', ', create' if create else ''))
        def _(v, kind=kind, create=create):
            ctx = Obj(v.interp.resolve('cli.PluginGroup'), {'obj': lib.new_dict(None, seq_of([('create', create)]))})
            target = target_of(v, kind)
            shown(v, lambda: v.attempt('cli.path_action', ctx, target), target, create)

    for cmd in ('base', 'metronix'):
        @case('C27', 'cli.path_%s' % cmd, 'command%s' % (', create' if create else ''))
        def _(v, cmd=cmd, create=create):
            ctx = Obj(v.interp.resolve('cli.PluginGroup'), {})
            f = lambda n: v.interp.resolve('cli.' + n).get_attr(v.interp, 'callback')
            target = '' if cmd == 'base' else v.interp.resolve('calibrations.METRONIX_DATA_PATH')

            def call():
                r = v.attempt(f('path'), ctx, create)
                return v.attempt(f('path_' + cmd), ctx) if r[0] == 'ok' else r
            shown(v, call, target, create)
