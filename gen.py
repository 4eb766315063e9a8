#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from meta.py (text) and design.md (prose)."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, 'sa'))
sys.dont_write_bytecode = True
import meta, registry


def line(p):
    return {'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']},
            'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': None}}


def main():
    for p in meta.PROPS + meta.NA:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
    ids = [p['id'] for p in meta.PROPS]
    assert set(ids) == set(registry.CHECKS), set(ids) ^ set(registry.CHECKS)
    with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
        for p in sorted(meta.PROPS + meta.NA, key=lambda p: p['id']):
            f.write(json.dumps(line(p)) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 sa/facts.py',
         'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'python3 check.py ' + p['id'],
                     'technique': p['technique'], 'level': 'other', 'level_note': p['note']} for p in meta.PROPS],
         'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in meta.NA]}
    json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
    d = open(os.path.join(H, 'design.md')).read()
    per = ''.join('### %s %s\n\n%s\n\nRule and oracle: %s\n\nAssurance: %s\n\n' % (p['id'], p['title'], p['statement'], p['design'], p['note']) for p in meta.PROPS)
    nas = ''.join('- **%s %s** — %s\n' % (p['id'], p['title'], p['reason']) for p in meta.NA)
    seeds = '| Change | Caught by | Needs | Breaks |\n|---|---|---|---|\n'
    for n in sorted(os.listdir(os.path.join(H, 'seeded'))):
        j = json.load(open(os.path.join(H, 'seeded', n, 'meta.json')))
        seeds += '| %s | %s | %s | %s |\n' % (n, j['property'], j['needs'].replace('|', '/'), j['what_it_breaks'].replace('|', '/'))
    open(os.path.join(H, 'DESIGN.md'), 'w').write(d.replace('@@PROPS@@', per).replace('@@NA@@', nas).replace('@@SEEDED@@', seeds))


main()
