#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from vp/props.py and the harness registry."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
import props, registry
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS:
        d = {k: p[k] for k in ('id', 'title', 'statement')}
        assert len(p['title']) <= 80, p['id']
        d['quantifier'] = {'over': p['over'], 'text': p['q']}
        d['why_tests_cant'] = p['why']
        d['anchors'] = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if 'observe' in p: d['anchors']['observe_at'] = p['observe']
        f.write(json.dumps(d) + '\n')
checks, na = [], []
for p in props.PROPS:
    if p.get('na'):
        na.append({'property': p['id'], 'reason': p['na']}); continue
    nq, nt = len(registry.harnesses(p['id'], 'quick')), len(registry.harnesses(p['id'], 'thorough'))
    assert nq, p['id']
    checks.append({'property': p['id'], 'quick_cmd': 'python3 vp/run.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 vp/run.py %s --tier thorough' % p['id'],
        'technique': 'bounded symbolic execution of the real C code with CBMC (SAT), counterexamples replayed natively',
        'level': 'model_checking',
        'level_note': p['level'] + ' %d encodings in the quick tier, %d in the thorough one; exhaustive within the bounds listed in DESIGN.md and in the evidence, silent outside them.' % (nq, nt)})
m = {'version': 1, 'setup_cmd': 'python3 vp/setup.py', 'hooks': {'guard': 'none (no hooks in /repo)', 'enable': 'sources are compiled as they are; stand-ins for system calls come from -include harness/vp_env.h', 'source_commits': []}, 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
# DESIGN.md
t = open(os.path.join(root, 'vp', 'design.tmpl.md')).read()
out = []
for p in props.PROPS:
    out.append('### %s %s\n' % (p['id'], p['title']))
    if p.get('na'): out.append('Not applicable: %s\n' % p['na']); continue
    out.append(p.get('how', '') + (' ' if p.get('how') else '') + p['level'] + '\n')
    for h in registry.harnesses(p['id'], 'thorough'):
        out.append('* `%s`%s: %s' % (h['name'], ' (thorough)' if h['tier'] == 'thorough' else '', h['bounds']))
    out.append('')
seeds = []
sd = os.path.join(root, 'seeded')
caught = json.load(open(os.path.join(root, 'vp', 'seed_results.json'))) if os.path.exists(os.path.join(root, 'vp', 'seed_results.json')) else {}
for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    try: mt = json.load(open(os.path.join(sd, s, 'meta.json')))
    except OSError: continue
    seeds.append('* `%s` (%s): %s. Needs %s. %s' % (s, mt['property'], mt['what_it_breaks'], mt['needs'], caught.get(s, '')))
if seeds or '@@SEEDS@@' in t:
    open(os.path.join(root, 'DESIGN.md'), 'w').write(t.replace('@@PROPS@@', '\n'.join(out)).replace('@@SEEDS@@', '\n'.join(seeds)))
