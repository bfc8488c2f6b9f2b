#!/usr/bin/env python3
"""
Rewrites DESIGN.md out of design.head.md, design.def.py, design.tail.md, the properties, the facets of the checks and the planted bugs.
Run with /opt/venv/bin/python.
"""
import glob
import importlib
import json
import os
import sys
import textwrap

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT + '/lib', ROOT + '/checks', '/repo']
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
T = os.path.join(ROOT, 'tools')
DESIGN = {}


def d(pid, text):
    DESIGN[pid] = ' '.join(text.split())


def facets(pid):
    """in a process of its own, as sched alters the interpreter"""
    r, w = os.pipe()
    if not os.fork():
        name = os.path.basename(glob.glob(ROOT + '/checks/%s_*.py' % pid.lower())[0])[:-3]
        prop = importlib.import_module(name).prop
        os.write(w, json.dumps([[f.name, f.rule, f.quick, f.thorough] for f in prop.facets]).encode())
        os._exit(0)
    os.close(w)
    os.wait()
    return json.loads(os.read(r, 100000))


exec(open(T + '/design.def.py').read())
bugs = {}
for fn in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    m = json.load(open(fn))
    bugs.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(fn)), m))
fixed, known = {}, {}
for x in json.load(open(ROOT + '/findings/known-findings.json')):
    (fixed if x['status'] == 'fixed' else known).setdefault(x['property'], []).append(x)

out = [open(T + '/design.head.md').read().rstrip(), '', '## Properties', '']
for line in open(ROOT + '/properties.jsonl'):
    p = json.loads(line)
    pid = p['id']
    out += ['### %s. %s' % (pid, p['title']), '']
    out += textwrap.wrap(p['statement'], 120) + ['']
    out += textwrap.wrap('*Decided by*: ' + DESIGN[pid], 120) + ['']
    out += ['*Why tests cannot*: ' + p['why_tests_cant'], '']
    out += ['| facet | a case is non-trivial if | quick | thorough |', '|---|---|---|---|']
    out += ['| %s | %s | %s | %s |' % tuple(f) for f in facets(pid)] + ['']
    if known.get(pid):
        out += ['*Known findings*:'] + ['- ' + x['what'] for x in known[pid]] + ['']
    if fixed.get(pid):
        out += ['*Repaired*: ' + ', '.join('%s' % x['commit'] for x in fixed[pid]) + '.', '']
    if bugs.get(pid):
        out += ['*Planted bugs*: ' + '; '.join('`%s` (%s)' % (n, m['what_it_breaks']) for n, m in bugs[pid]) + '.', '']
out += [open(T + '/design.tail.md').read().rstrip(), '']
out += ['## Planted bugs and what catches them', '', '| bug | property | needs | caught by |', '|---|---|---|---|']
caught = json.load(open(T + '/caught.json'))
for pid in sorted(bugs):
    for n, m in bugs[pid]:
        out.append('| %s | %s | %s | %s |' % (n, pid, m['needs'], caught.get(n, 'not checked yet')))
open(ROOT + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
