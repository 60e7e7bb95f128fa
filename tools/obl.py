#!/opt/venv/bin/python
"""obl.py PID harness case label [value]: print the symbolic values compared under a label (debugging aid)"""
import sys, os, importlib, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.setrecursionlimit(20000)
os.environ.setdefault('MPLBACKEND', 'Agg')
from symx import engine, api, reg, loader, core
loader.install() if hasattr(loader, 'install') else None
pid, hn, ci, label = sys.argv[1:5]
for p in sorted(glob.glob(H + '/harness/*.py')):
    if "'%s'" % pid in open(p).read():
        importlib.import_module('harness.' + os.path.basename(p)[:-3])
h = [x for x in reg.REG[pid] if x.name == hn][0]
eng = engine.Engine(seed=1)
eng.prune = h.opts.get('prune', False) if hasattr(h, 'opts') else getattr(h, 'kw', {}).get('prune', False)
n = [0]


class A(api.SymA):
    def show(self, l, *v):
        if label in l and n[0] < 12:
            n[0] += 1
            print(l, *[repr(x) for x in v], file=sys.stderr)

    def eq(self, l, a, b, tol=1e-6):
        self.show(l, a, b)

    def le(self, l, a, b, tol=1e-6):
        self.show(l, a, b)

    def true(self, l, c, m=None):
        self.show(l, c)


def run(c):
    h.fn(A(c), **h.get_cases('quick')[int(ci)])
    for a in c.atoms if isinstance(c.atoms, list) else c.atoms.values():
        if n[0] < 100 and '-a' in sys.argv:
            print('atom', a.name, a.kind, a.lo, a.hi, str(a.info)[:300], file=sys.stderr)
    n[0] = 100


sys.stdout = open(os.devnull, 'w')
eng.explore(run)
