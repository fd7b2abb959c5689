#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the definitions in tools/seeds/*.py, confirming each in a scratch copy.
usage: mkseed.py [--notest] [id ...]"""
import glob, json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = []
BASE = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', '85ef26a~1'], text=True).strip()
def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))
for f in sorted(glob.glob(os.path.join(V, 'tools/seeds/*.py'))):
    exec(open(f).read(), {'seed': seed})
DEMO = '''#!/bin/bash
# exits 0 when the behaviour is right, 1 when it is broken
export HOME=/root LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1
export PYTHONPYCACHEPREFIX=/nonexistent-pycache
S=$(mktemp -d) || exit 3
trap 'rm -rf "$S"' EXIT
export TMPDIR=$S MPLCONFIGDIR=$S
PYTHONPATH=$PWD /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''
args = [a for a in sys.argv[1:] if not a.startswith('--')]
notest = '--notest' in sys.argv
stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
bad = 0
for s in SEEDS:
    if args and s['id'] not in args: continue
    tmp = tempfile.mkdtemp(prefix='seed_')
    repo = os.path.join(tmp, 'repo')
    try:
        shutil.copytree('/repo', repo, symlinks=True)
        subprocess.check_call(['git', '-C', repo, 'checkout', '-q', '--', '.'])
        d = os.path.join(V, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
        open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        pre = subprocess.run(['bash', d + '/demo.sh'], cwd=repo, capture_output=True, text=True)
        for f, old, new in s['edits']:
            p = os.path.join(repo, f); t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', repo, 'diff'], text=True))
        post = subprocess.run(['bash', d + '/demo.sh'], cwd=repo, capture_output=True, text=True)
        msg = 'pre=%d post=%d' % (pre.returncode, post.returncode)
        ok = pre.returncode == 0 and post.returncode != 0
        if not ok: msg += '\n' + pre.stderr[-1500:] + post.stdout[-300:]
        else: msg += ' [' + (post.stderr.strip().split('\n') or [''])[-1][:150] + ']'
        if ok and not notest:
            t = open('/opt/vp/test.sh').read().replace('/repo', repo)
            open(tmp + '/test.sh', 'w').write(t)
            subprocess.run(['bash', tmp + '/test.sh', tmp + '/o.json'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            r = json.load(open(tmp + '/o.json'))
            lost = [x for x in stable if x not in set(r['passed'])]
            msg += ' tests lost: %s' % lost
            ok = not lost
        mine = []
        for f in {e[0] for e in s['edits']}:
            cur = None
            base = subprocess.check_output(['git', '-C', '/repo', 'show', BASE + ':' + f], text=True).split('\n')
            for l in open(d + '/patch.diff'):
                if l.startswith('--- a/'): cur = l[6:].strip()
                elif l.startswith('-') and cur == f and l[1:].rstrip('\n') not in base: mine.append(l.strip())
        if mine: msg += ' NOT ORIGINAL: %s' % mine; ok = False
        bad += not ok
        print(s['id'], s['property'], 'OK' if ok else 'BAD', msg, flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
sys.exit(bad > 0)
