#!/usr/bin/env python3
"""
mkbug.py build            rewrite seeded/* from tools/bugs.def.py (patches against /repo's HEAD)
mkbug.py verify [ID...]   in scratch copies: demo passes without, fails with the patch; stable tests pass
mkbug.py catch [ID...]    apply to /repo, run the quick check of the property, undo
"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile
import textwrap

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = []
BASE = '2b964c9'
SRC = os.environ.get('BUG_SRC', '/repo')
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
PYTHONPATH="$PWD" exec timeout -k 5 120 /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def bug(bid, prop, needs, breaks, edits, demo):
    BUGS.append((bid, prop, ' '.join(needs.split()), ' '.join(breaks.split()), edits, textwrap.dedent(demo).strip() + '\n'))


exec(open(os.path.join(ROOT, 'tools', 'bugs.def.py')).read())


def copy():
    d = tempfile.mkdtemp(prefix='vf-bug-')
    subprocess.check_call('git -C ' + SRC + ' archive HEAD | tar -x -C ' + d, shell=True)
    subprocess.check_call('git init -q . && git add -A -f && git -c user.email=a@b -c user.name=x commit -qm base',
                          shell=True, cwd=d, stdout=subprocess.DEVNULL)
    return d


def build():
    d = copy()
    try:
        for bid, prop, needs, breaks, edits, demo in BUGS:
            for fn, old, new in edits:
                p = os.path.join(d, fn)
                s = open(p, newline='').read()
                if '\r' in s and '\n' not in s:
                    old, new = old.replace('\n', '\r'), new.replace('\n', '\r')
                assert s.count(old) == 1, (bid, fn, s.count(old), old)
                open(p, 'w', newline='').write(s.replace(old, new))
            diff = subprocess.check_output(['git', 'diff'], cwd=d)
            for fn in {e[0] for e in edits}:    # only lines of the original repository are to be changed
                base = subprocess.run(['git', '-C', '/repo', 'show', BASE + ':' + fn], capture_output=True).stdout.decode().splitlines()
                one = subprocess.check_output(['git', 'diff', '-U0', '--', fn], cwd=d).decode(errors='replace')
                for line in one.split('\n'):
                    if line.startswith('-') and not line.startswith('---') and line[1:].strip() and '\r' not in line:
                        if line[1:] not in base:
                            print('NOT ORIGINAL', bid, line)
            subprocess.check_call(['git', 'checkout', '-q', '--', '.'], cwd=d)
            out = os.path.join(ROOT, 'seeded', bid)
            os.makedirs(out, exist_ok=True)
            open(os.path.join(out, 'patch.diff'), 'wb').write(diff)
            open(os.path.join(out, 'demo.sh'), 'w').write(DEMO_SH)
            open(os.path.join(out, 'demo.py'), 'w').write(demo)
            json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
                      open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    finally:
        shutil.rmtree(d)


def verify(bid):
    src = os.path.join(ROOT, 'seeded', bid)
    d = copy()
    try:
        a = subprocess.run(['bash', src + '/demo.sh'], cwd=d, capture_output=True)
        subprocess.check_call(['git', 'apply', src + '/patch.diff'], cwd=d)
        b = subprocess.run(['bash', src + '/demo.sh'], cwd=d, capture_output=True)
        ts = open('/opt/vp/test.sh').read().replace('/repo', d).replace('/opt/vp/work', d + '/.work').replace('-n 8', '-n 8')
        open(d + '/.t.sh', 'w').write(ts)
        subprocess.run(['bash', d + '/.t.sh', d + '/.out.json'], cwd=d, capture_output=True)
        passed = set(json.load(open(d + '/.out.json'))['passed'])
        missing = [x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x not in passed]
        ok = a.returncode == 0 and b.returncode != 0 and not missing
        return bid, ok, a.returncode, b.returncode, missing[:4], '' if ok else (a.stderr.decode()[-300:] + b.stderr.decode()[-300:])
    finally:
        shutil.rmtree(d)


def catch(bid):
    src = os.path.join(ROOT, 'seeded', bid)
    meta = json.load(open(src + '/meta.json'))
    d = copy()
    try:
        subprocess.check_call(['git', 'apply', src + '/patch.diff'], cwd=d)
        r = subprocess.run(['bash', ROOT + '/run.sh', meta['property'], 'quick'], capture_output=True,
                           env={**os.environ, 'VERIF_REPO': d, 'VERIF_EVIDENCE': d + '/.evidence', 'VERIF_SEED': os.environ.get('VERIF_SEED', '1')})
        out = r.stdout.decode()
        return bid, meta['property'], r.returncode, [l for l in out.splitlines() if l.startswith('VIOLATION')]
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    cmd, ids = sys.argv[1], sys.argv[2:] or [b[0] for b in BUGS]
    if cmd == 'build':
        build()
    else:
        with concurrent.futures.ThreadPoolExecutor(1) as ex:
            for r in ex.map(verify if cmd == 'verify' else catch, ids):
                print(*r, flush=True)
                if cmd == 'catch':
                    fn = os.path.join(ROOT, 'tools', 'caught.json')
                    caught = json.load(open(fn)) if os.path.exists(fn) else {}
                    caught[r[0]] = ', '.join(v.rsplit('-', 1)[1][:-5] for v in r[3]) or 'NOT CAUGHT'
                    json.dump(caught, open(fn, 'w'), indent=1, sort_keys=True)
