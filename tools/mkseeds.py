"""Builds the planted bugs in /verif/seeded from the table in seeds.py and verifies each of them in a scratch copy:
the patch applies, changes original lines only, the tests pass with it, the demonstration tells the trees apart.
usage: mkseeds.py [--run] [id ...]   (--run: also run the check of the property against the patched source)"""
import os, sys, shutil, subprocess, tempfile, json, re
from concurrent.futures import ThreadPoolExecutor
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, D + '/tools')
from seeds import SEEDS
BASE = 'a8906e5'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TF_CPP_MIN_LOG_LEVEL='3', MPLBACKEND='Agg')

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

_blame = {}
def original(f):
    if f not in _blame:
        out = sh('git -C /repo blame -s --root %s..HEAD -- src/sims_pars/%s' % (BASE, f)).stdout if False else sh('git -C /repo blame -s -- src/sims_pars/%s' % f).stdout
        _blame[f] = [l.startswith(('a8906e5', '^a8906e5')) for l in out.splitlines()]
    return _blame[f]

def build(s, run):
    i = s['id']
    msgs = []
    t = tempfile.mkdtemp(prefix='seed-%s-' % i, dir='/tmp')
    try:
        sh('cp -a /repo %s/repo' % t)
        R = t + '/repo'
        for f, old, new in s['edits']:
            p = R + '/src/sims_pars/' + f
            x = open(p).read()
            if x.count(old) != 1:
                return i, ['edit of %s found %d times: %r' % (f, x.count(old), old[:60])]
            open(p, 'w').write(x.replace(old, new))
        diff = sh('git -C %s diff' % R).stdout
        if not diff: return i, ['empty diff']
        # removed lines must be original
        f, n, removed = None, 0, 0
        for l in diff.splitlines():
            if l.startswith('--- '): f = l[6:].replace('src/sims_pars/', '')
            elif l.startswith('@@'): n = int(re.match(r'@@ -(\d+)', l).group(1))
            elif l.startswith('-'):
                removed += 1
                if not original(f)[n - 1]: msgs.append('not original: %s:%d %s' % (f, n, l))
                n += 1
            elif l.startswith(' '): n += 1
        if not removed: msgs.append('no line removed')
        out = D + '/seeded/' + i
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.py', 'w').write(s['demo'].strip('\n') + '\n')
        open(out + '/demo.sh', 'w').write('#!/bin/sh\nexport PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        a = sh('sh %s/demo.sh' % out, cwd='/repo', env=ENV, timeout=280)
        b = sh('sh %s/demo.sh' % out, cwd=R, env=ENV, timeout=280)
        if a.returncode != 0: msgs.append('demo fails on the clean tree: ' + a.stdout[-300:])
        if b.returncode == 0: msgs.append('demo passes with the patch')
        tests = sh('PYTHONPATH=%s/src /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests' % R, cwd=R, env=ENV)
        if tests.returncode != 0: msgs.append('tests fail: ' + tests.stdout[-400:])
        if run and not msgs:
            for pr in s.get('checks', [s['prop']]):
                r = sh('%s/run.sh %s' % (D, pr), env=dict(os.environ, VP_REPO_SRC=R + '/src'))
                cl = [l.strip()[:160] for l in r.stdout.splitlines() if 'clause' in l or 'MACH' in l]
                msgs.append('%s -> %s %s' % (pr, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'rc %d' % r.returncode), cl[:2]))
    except Exception as e:
        msgs.append(repr(e)[:300])
    finally:
        shutil.rmtree(t)
    return i, msgs

if __name__ == '__main__':
    a = sys.argv[1:]
    run = '--run' in a
    ids = [x for x in a if x != '--run']
    todo = [s for s in SEEDS if not ids or s['id'] in ids or s['prop'] in ids]
    with ThreadPoolExecutor(2 if run else 6) as ex:
        for i, m in ex.map(lambda s: build(s, run), todo):
            print(i, '|', '; '.join(m) or 'ok', flush=True)
