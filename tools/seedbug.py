#!/opt/venv/bin/python
"""makes and confirms a planted bug: seedbug.py ID PROP SPEC.py

SPEC.py defines: FILE, OLD, NEW (or EDITS = [(file, old, new), ...]), NEEDS, BREAKS, DEMO (python text), optional TESTS
(paths for a quick run of the existing tests; the full suite is run by vcheck --bug).
"""

import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

BASE = os.environ.get('SEED_BASE', '/repo')

DEMO_SH = '''#!/bin/bash
# run with cwd /repo after the build: exit 0 when the property holds
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$(pwd)"
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def main():
    bid, prop, spec = sys.argv[1:4]
    s = runpy.run_path(spec)
    edits = s.get('EDITS') or [(s['FILE'], s['OLD'], s['NEW'])]
    d = tempfile.mkdtemp(prefix = 'seed_')
    try:
        w = os.path.join(d, 'repo')
        subprocess.run(['git', 'clone', '-q', BASE, w], check = True)
        for f, old, new in edits:
            p = os.path.join(w, f)
            t = open(p).read()
            assert t.count(old) == 1, f'{f}: {t.count(old)} occurrences of {old!r}'
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd = w, capture_output = True, text = True).stdout
        out = os.path.join(ROOT, 'seeded', bid)
        os.makedirs(out, exist_ok = True)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        open(os.path.join(out, 'demo.sh'), 'w').write(DEMO_SH)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        open(os.path.join(out, 'demo.py'), 'w').write(s['DEMO'].lstrip())
        json.dump({'property': prop, 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']},
                  open(os.path.join(out, 'meta.json'), 'w'), indent = 1)
        a = subprocess.run([os.path.join(out, 'demo.sh')], cwd = BASE, capture_output = True, text = True)
        b = subprocess.run([os.path.join(out, 'demo.sh')], cwd = w, capture_output = True, text = True)
        print('demo on /repo:', a.returncode, a.stderr[-300:])
        print('demo on changed copy:', b.returncode, (b.stdout + b.stderr)[-300:])
        ok = a.returncode == 0 and b.returncode != 0
        if s.get('TESTS'):
            env = dict(os.environ, PYTHONPATH = w, PYTHONDONTWRITEBYTECODE = '1')
            t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-n', '6'] + s['TESTS'],
                               cwd = w, env = env, capture_output = True, text = True)
            print('tests:', t.returncode, t.stdout[-300:])
            ok = ok and t.returncode == 0
        env = dict(os.environ, VERIF_REPO = w, VERIF_SCRATCH = d)
        c = subprocess.run([os.path.join(ROOT, 'check.py'), '--property', prop], env = env, capture_output = True, text = True)
        print('check:', c.returncode, c.stdout[-700:])
        print('KEEP' if ok else 'REJECTED', 'caught' if c.returncode == 1 else 'MISSED')
        if not ok:
            shutil.rmtree(out)
    finally:
        shutil.rmtree(d, ignore_errors = True)


if __name__ == '__main__':
    main()
