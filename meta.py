#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 meta.py"""
import json
import os

SRC = 'code/cpp/src/'
LEVEL_NOTE = ('Decides the stated relation for every real input of the analysed build configurations by value-numbering the type-checked '
              'program (hash-consed value graph with gated joins, compared by random interpretation over a prime field: error probability '
              'below 2^-40 per obligation, no false alarms from rounding). Assumes exact real arithmetic and trusts the clang front end, the '
              'models of Eigen and std in engine/, and the stub headers in tool/stubs.')
P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, observe=None, level='other', note=LEVEL_NOTE, na=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique,
                  observe=observe, level=level, note=note, na=na))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props.py'), encoding='utf8').read())


def main():
    root = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(root, 'properties.jsonl'), 'w', encoding='utf8') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            a = {'files': [x if '/' in x and x.startswith('code') else SRC + x for x in p['files']],
                 'mechanism': [{'name': n, 'where': w if w.startswith('code') else SRC + w} for n, w in p['mech']]}
            if p['observe']:
                a['observe_at'] = p['observe']
            f.write(json.dumps({'id': p['pid'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a},
                               ensure_ascii=False) + '\n')
    checks, na = [], []
    for p in P:
        if p['na']:
            na.append({'property': p['pid'], 'reason': p['na']})
        else:
            checks.append({'property': p['pid'], 'quick_cmd': 'python3-vt check.py %s quick' % p['pid'],
                           'thorough_cmd': 'python3-vt check.py %s thorough' % p['pid'],
                           'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
    m = {'version': 1, 'setup_cmd': 'python3-vt setup.py',
         'checks': checks, 'not_applicable': na,
         'notes': 'Static analysis of the resolved clang AST; see DESIGN.md. No hooks in /repo are needed.'}
    json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w', encoding='utf8'), indent=1, ensure_ascii=False)
    open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')


if __name__ == '__main__':
    main()
