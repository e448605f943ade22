#!/usr/bin/env python3
"""Development aid: makes seeded/<id>/ from an edit.

usage: mkbug.py <spec.py>   where spec.py defines
  id, prop, needs, breaks, edits = [(file, old, new), ...], demo = python source
The demo runs with cwd /repo in a scratch directory of its own.
"""
import json, os, subprocess, sys, runpy
REPO = os.environ.get('MKBUG_REPO', '/repo')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0: behaviour as stated by the property; nonzero otherwise
HERE="$(cd "$(dirname "$0")" && pwd)"
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export OMP_NUM_THREADS=1
REPO="$(pwd)"
D="$(mktemp -d)" || exit 99
cd "$D" || exit 99
PYTHONPATH="$REPO:$PYTHONPATH" timeout 280 python "$HERE/demo.py"
RC=$?
cd /
case "$D" in /tmp/*) rm -rf "$D";; esac
exit $RC
'''
for f in sys.argv[1:]:
    m = runpy.run_path(f)
    d = os.path.join(ROOT, 'seeded', m['id'])
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run(['git', '-C', REPO, 'status', '--short', '-uno'], capture_output=True, text=True).stdout
    try:
        for fn, old, new in m['edits']:
            p = REPO + '/' + fn
            s = open(p).read()
            assert s.count(old) == 1, (fn, old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', REPO, 'diff'], capture_output=True, text=True).stdout
    finally:
        subprocess.run(['git', '-C', REPO, 'checkout', '-q', '--', '.'])
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(SH)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write(m['demo'])
    json.dump({'property': m['prop'], 'needs': m['needs'], 'what_it_breaks': m['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print(m['id'], 'written')
