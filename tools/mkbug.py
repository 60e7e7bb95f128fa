#!/opt/venv/bin/python
"""mkbug.py SPEC.py: writes seeded/<id>/ from a spec (ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO) after confirming it:
the patch applies, the stable tests pass with it, the demo passes without and fails with it.  Then runs the property's check."""
import json, os, subprocess, sys
R = '/repo'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
nocheck = '--nocheck' in sys.argv
d = os.path.join(V, 'seeded', ns['ID'])


def run(*a, **k):
    return subprocess.run(a, cwd=R, capture_output=True, text=True, **k)


assert not run('git', 'status', '--short').stdout.strip(), 'repo not clean'
fixed = set()
try:
    for f, old, new in ns['EDITS']:
        p = os.path.join(R, 'defdap', f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = run('git', 'diff').stdout
    removed = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(ns['DEMO'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nset -e\nhere="$(cd "$(dirname "$0")" && pwd)"\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH="$PWD" /opt/venv/bin/python "$here/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=ns['PROP'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
    demo = run('bash', d + '/demo.sh')
    t = run('bash', '/opt/vp/test.sh', '/tmp/bug_t.json')
    res = json.load(open('/tmp/bug_t.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    chk = None if nocheck else subprocess.run([V + '/check.py', ns['PROP']], capture_output=True, text=True)
finally:
    run('git', 'checkout', '--', '.')
good = run('bash', d + '/demo.sh')
print('demo with patch rc', demo.returncode, '(want nonzero)', (demo.stderr or demo.stdout)[-300:])
print('demo without rc', good.returncode, '(want 0)', good.stderr[-500:])
print('tests passed', len(res['passed']), 'failed', res['failed'])
if chk:
    print('check rc', chk.returncode, [l for l in chk.stdout.splitlines() if l.startswith('VIOLATION') or 'quick:' in l][:3], chk.stderr[-300:])
    if chk.returncode != 1:
        print(chk.stdout[-1500:])
