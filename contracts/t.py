import sys, importlib, multiprocessing as mp
sys.path.insert(0, '/verif')
from contracts import base
src = '/repo/src/razorback'
args = sys.argv[1:]
if args and args[0].startswith('-s'):
    src = args.pop(0)[2:]
mod = importlib.import_module('contracts.' + args[0])
verbose = '-v' in args
prof = '-p' in args
pats = [a for a in args[1:] if a not in ('-v', '-p')]
cases = [c for c in base.CASES if c.fn.__module__ == mod.__name__ and (not pats or any(p in c.name or p in c.prop for p in pats))]


def go(i):
    return base.run_case(cases[i], src)


if prof:
    import cProfile
    cProfile.run('base.show(go(0), verbose)', sort='cumtime')
elif len(cases) == 1:
    base.show(go(0), verbose)
else:
    with mp.get_context('fork').Pool(8, maxtasksperchild=1) as pool:
        for r in pool.imap(go, range(len(cases))):
            base.show(r, verbose)
