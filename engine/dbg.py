"""debugging aid: python dbg.py PROP/CASE [seconds]  - one process, prints where unsupported operations and exceptions arise"""
import cProfile
import importlib
import os
import pstats
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(HERE, '..', 'checks')]
sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')
import harness
import loader
import registry
import sym

loader.install()
prop, name = sys.argv[1].split('/', 1)
for m in registry.PROPS[prop][0]:
    importlib.import_module(m)
c = [c for c in harness.CASES if c.prop == prop and c.name == name][0]
seen = {}
LIM = int(os.environ.get('LIM', '7'))


def hook(cls):
    orig = cls.__init__

    def init(self, *a):
        t = ''.join(traceback.format_stack(limit=LIM)[:-1])
        seen[t] = seen.get(t, 0) + 1
        if seen[t] == 1:
            print('%s %s' % (cls.__name__, a))
            print(t)
        orig(self, *a)
    cls.__init__ = init


hook(sym.Unsupported)
hook(sym.Inconclusive)


def wrapped(ex):
    h = harness.SymH(ex)
    try:
        c.fn(h)
    except Exception as e:
        t = traceback.format_exc(limit=-LIM)
        if t not in seen:
            seen[t] = 1
            print(t)
        ex.prove(False, 'exception', str(e))


ex = sym.Explorer(wrapped, c.mode, time.time() + float(sys.argv[2] if len(sys.argv) > 2 else 20), query_ms=c.query_ms, max_steps=c.max_steps)
if os.environ.get('PROF'):
    pr = cProfile.Profile()
    pr.enable()
fr = ex.run([[]])
if os.environ.get('PROF'):
    pr.disable()
    pstats.Stats(pr).sort_stats(os.environ['PROF']).print_stats(45)
print('open', len(ex.frontier), ex.stat, {k: v for k, v in ex.labels.items()} if os.environ.get("LAB") else "")
