""" Evaluation of the postconditions on the real code, under CPython.

A scenario is a function of a Case (random generator, hints): it builds inputs, calls the real
code of /repo/src and compares with the postcondition written independently.  Any failure is a
failing input, reproducible from (scenario, seed, index).
"""
import random
import traceback

SCENARIOS = {}


class Fail(Exception):
    def __init__(self, what, /, **inputs):
        super().__init__(what)
        self.what, self.inputs = what, inputs


class Skip(Exception):
    " the generated input is outside the precondition "


class Case:
    def __init__(self, seed, index, tier, hint=None):
        self.seed, self.index, self.tier = seed, index, tier
        self.rng = random.Random('%s/%s' % (seed, index))
        self.hint = hint
        self.key = None
        self.desc = None

    @property
    def np(self):
        import numpy as np
        return np.random.default_rng(self.rng.getrandbits(48))

    def check(self, cond, what, /, **inputs):
        if not cond:
            raise Fail(what, **inputs)

    def note(self, key, desc=None):
        " key: identifies the (non trivial) case; desc: what is shown in the samples "
        self.key, self.desc = key, desc or key


def scenario(prop, name, quick=150, thorough=None):
    def deco(fn):
        for p in prop.split():
            SCENARIOS.setdefault(p, []).append((name, fn, quick, thorough or quick * 12))
        return fn
    return deco


def expect_raise(fn, *types):
    " True when fn() raises one of the types (any Exception by default) "
    try:
        fn()
    except (types or (Exception,)):
        return True
    return False


def in_repo(tb, src):
    return any(f.filename.startswith(src) for f in traceback.extract_tb(tb))


def run_one(fn, case, src):
    """ None (held), 'skip', or dict describing the failure """
    try:
        fn(case)
    except Skip:
        return 'skip'
    except Fail as e:
        return dict(what=e.what, inputs={k: repr(v)[:2000] for k, v in e.inputs.items()})
    except Exception as e:
        # scenarios only use the public interface: whatever it raises here is not what the postcondition says
        return dict(what='unexpected %s: %s' % (type(e).__name__, e), inputs={'case': repr(case.desc)[:2000]},
                    traceback=traceback.format_exc()[-3000:])
    return None
