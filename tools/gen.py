#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the one table below (run by hand, after an edit)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SE = 'symbolic execution of the real Rust source + SMT (z3, nonlinear arithmetic)'
N = ('Bounded: decided for every value within the bounds the evidence file lists, over all paths. Polynomial arithmetic is exact and the '
     'bounds keep it exactly representable in f64, so the real code computes the same values; division, square root and arc cosine are exact '
     'reals in the encoding (their rounding is only exercised where witnesses are replayed on the real crate). Trusts z3, the source '
     'translation and the oracles.')
P = []


def prop(id, title, statement, over, text, tests, files, mech, observe, note=N, technique=SE, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech, observe=observe,
                  note=note, technique=technique, na=na))


exec(open(os.path.join(V, 'tools', 'table.py')).read())

with open(f'{V}/properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['tests'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'observe_at': p['observe'], 'hook_needed': None},
        }) + '\n')
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, p['id']
json.dump({
    'version': 1,
    'setup_cmd': './check --setup',
    'checks': [{
        'property': p['id'], 'quick_cmd': f"./check {p['id']}", 'thorough_cmd': f"VERIF_TIER=thorough ./check {p['id']}",
        'technique': p['technique'], 'level': 'model_checking', 'level_note': p['note'],
    } for p in P if not p['na']],
    'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if p['na']],
    'notes': 'No hooks: the checks read /repo/src, retarget its f64/HashMap/HashSet to symbolic stand-ins and build that next to the unmodified crate.',
}, open(f'{V}/MANIFEST.json', 'w'), indent=1)
