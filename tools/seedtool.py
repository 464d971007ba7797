"""Make or confirm a planted bug.

  seedtool.py make ID PROPERTY FILE NEEDS WHAT   reads old text, new text and the demo body from stdin,
                                                 separated by lines '=====' (several edits: '-----' between
                                                 'path' / old / new groups is not supported: one edit)
  seedtool.py confirm ID...                      builds, tests and runs the demonstration in a scratch copy
"""
import difflib
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
PY = '/opt/venv/bin/python'
HEAD = '''#!/bin/bash
# exit 0 when the behaviour is right
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export PYTHONPYCACHEPREFIX=$(mktemp -d)
trap 'rm -rf "$PYTHONPYCACHEPREFIX"' EXIT
/opt/venv/bin/python -W ignore - <<'P'
import sys, os
sys.path.insert(0, os.getcwd())
'''


def make(sid, prop, path, needs, what):
    old, new, demo = sys.stdin.read().split('\n=====\n')
    src = open(os.path.join('/repo', path)).read()
    assert src.count(old) == 1, 'old text occurs %d times' % src.count(old)
    dst = src.replace(old, new)
    assert dst != src
    a, b = src.splitlines(True), dst.splitlines(True)
    diff = ''.join(difflib.unified_diff(a, b, 'a/' + path, 'b/' + path))
    d = os.path.join(SEEDED, sid)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    with open(os.path.join(d, 'demo.sh'), 'w') as f:
        f.write(HEAD + demo.rstrip('\n') + '\nP\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    confirm([sid])


def confirm(ids):
    for sid in ids:
        d = os.path.join(SEEDED, sid)
        tmp = tempfile.mkdtemp(prefix='seed_')
        try:
            repo = os.path.join(tmp, 'repo')
            subprocess.check_call(['cp', '-a', '/repo', repo])
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
                       PYTHONPYCACHEPREFIX=os.path.join(tmp, 'pyc'))
            demo = os.path.join(tmp, 'demo', 'demo.sh')
            shutil.copytree(d, os.path.dirname(demo))
            r0 = subprocess.run([demo], cwd=repo, env=env, capture_output=True, text=True, timeout=300)
            subprocess.check_call(['git', '-C', repo, 'apply', os.path.join(d, 'patch.diff')])
            r1 = subprocess.run([demo], cwd=repo, env=env, capture_output=True, text=True, timeout=300)
            work = os.path.join(tmp, 'w')
            shutil.copytree(os.path.join(repo, 'test'), os.path.join(work, 'test'))
            os.symlink(os.path.join(repo, 'metcalcpy'), os.path.join(work, 'metcalcpy'))
            t = subprocess.run([PY, '-c', "import sys; sys.path.insert(0, %r); import metcalcpy, pytest; "
                                "assert metcalcpy.__file__.startswith(%r), metcalcpy.__file__; "
                                "sys.exit(pytest.main(['-q', '-p', 'no:cacheprovider', '.']))" % (repo, repo)],
                               cwd=os.path.join(work, 'test'), env=env, capture_output=True, text=True)
            tail = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-300:]
            good = r0.returncode == 0 and r1.returncode != 0 and '1 failed, 57 passed' in tail
            print('%s: %s demo clean=%d patched=%d tests: %s' % (
                sid, 'OK' if good else 'BAD', r0.returncode, r1.returncode, tail))
            if r0.returncode:
                print(r0.stdout[-800:], r0.stderr[-800:])
        finally:
            shutil.rmtree(tmp)


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        make(*sys.argv[2:])
    else:
        confirm(sys.argv[2:] or sorted(os.listdir(SEEDED)))
