#!/usr/bin/env python3
"""
The single source of properties.jsonl and MANIFEST.json: `python3 tools/props.py` rewrites both.
"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'satella/'
PROPS = []
NOT_APPLICABLE = []


def p(pid, title, statement, over, text, why, files, mechanism, technique, note, observe=()):
    PROPS.append(dict(pid=pid, title=title, statement=' '.join(statement.split()), over=over,
                      text=' '.join(text.split()), why=' '.join(why.split()),
                      files=[S + f for f in files], mechanism=mechanism,
                      technique=technique, note=' '.join(note.split()), observe=list(observe)))


exec(open(os.path.join(ROOT, 'tools', 'properties.def.py')).read())


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for x in PROPS:
            assert len(x['title']) <= 80, x['title']
            assert x['statement'].count('. ') <= 2, (x['pid'], x['statement'].count('. '))
            for fn in x['files']:
                assert os.path.exists('/repo/' + fn), fn
            f.write(json.dumps({
                'id': x['pid'], 'title': x['title'], 'statement': x['statement'],
                'quantifier': {'over': x['over'], 'text': x['text']},
                'why_tests_cant': x['why'],
                'anchors': {'files': x['files'],
                            'mechanism': [{'name': n, 'where': S + w} for n, w in x['mechanism']],
                            'observe_at': x['observe'] or ['the public API of the files above'],
                            'hook_needed': None}}) + '\n')
    checks = [{
        'property': x['pid'],
        'quick_cmd': 'bash /verif/run.sh %s quick' % x['pid'],
        'thorough_cmd': 'bash /verif/run.sh %s thorough' % x['pid'],
        'evidence_file': 'evidence/%s.json' % x['pid'],
        'technique': x['technique'],
        'level': 'exploration',
        'level_note': x['note']} for x in PROPS if x['pid'] not in {n for n, _ in NOT_APPLICABLE}]
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1,
                   'setup_cmd': 'bash /verif/tools/setup.sh',
                   'checks': checks,
                   'not_applicable': [{'property': n, 'reason': r} for n, r in NOT_APPLICABLE],
                   'notes': 'No hooks in /repo are needed. Every check imports satella from /repo '
                            '(VERIF_REPO overrides it, for experiments only).'}, f, indent=1)
        f.write('\n')
    print(len(PROPS), 'properties')


main()
