#!/opt/venv/bin/python
"""Run a harness on the real code with concrete inputs.

replay.py FILE        replay one counterexample (exit 1 when it reproduces)
replay.py --batch     list of cases on stdin, results on stdout
"""
import importlib
import io
import json
import os
import sys
import traceback

sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))


def run_one(it):
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    from symx import reg, api
    import glob
    pid = it['property']
    for p in sorted(glob.glob(os.path.join(HERE, 'harness', '*.py'))):
        if "'%s'" % pid in open(p).read():
            importlib.import_module('harness.' + os.path.basename(p)[:-3])
    h = [h for h in reg.REG[pid] if h.name == it['harness']][0]
    case = h.get_cases(it.get('tier', 'quick'))[it['case']]
    A = api.ConcA(it['inputs'])
    out, err = sys.stdout, sys.stderr
    sys.stdout = io.StringIO()
    try:
        with np.errstate(all='ignore'):
            h.fn(A, **case)
    except AssertionError:
        A.violated.append('exception AssertionError: ' + traceback.format_exc()[-300:])
    except Exception as e:
        A.violated.append('exception %s: %s' % (type(e).__name__, str(e)[:200]))
        if os.environ.get('SYMX_DEBUG'):
            traceback.print_exc()
    finally:
        sys.stdout = out
    return {'violated': A.violated, 'bad_assume': A.bad_assume, 'obs': A.observations, 'checked': A.checked}


def main():
    if sys.argv[1] == '--batch':
        items = json.load(sys.stdin)
        rs = [run_one(i) for i in items]
        print(json.dumps(rs, default=str))
        return 0
    it = json.load(open(sys.argv[1]))
    r = run_one(it)
    print(json.dumps(r, indent=1, default=str))
    return 1 if r['violated'] and not r['bad_assume'] else 0


if __name__ == '__main__':
    sys.exit(main())
