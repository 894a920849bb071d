#!/usr/bin/env python3
# Writes MANIFEST.json from contracts/properties.spec (levels, roots, bounded parts) and notes.json (level notes).
import json, re, os
d = os.path.dirname(os.path.abspath(__file__))
notes = json.load(open(d + '/notes.json'))
props = [json.loads(l) for l in open(d + '/properties.jsonl')]
spec = {}
for l in open(d + '/contracts/properties.spec'):
    m = re.match(r'property (C\d+)(.*)', l)
    if m:
        spec[m.group(1)] = dict(x.split('=', 1) for x in m.group(2).split())
checks = []
for p in props:
    i = p['id']
    s = spec[i]
    lvl = s.get('level', 'exploration')
    roots = s.get('roots', '')
    if lvl == 'proof':
        tech = 'contract-based deductive verification of the Go source (gowp: go/ssa verification conditions, z3/cvc5), bounded input search on the real code as replay'
    elif roots:
        tech = 'contract-based deductive verification of component functions (gowp, z3/cvc5); the end-to-end statement by a bounded check of the real code'
    else:
        tech = 'bounded check of the real code against an independent oracle (stand-in: the functions are out of the verifier\'s reach)'
    c = {'property': i, 'quick_cmd': f'./check.sh {i} quick', 'thorough_cmd': f'./check.sh {i} thorough', 'technique': tech, 'level': lvl,
         'level_note': notes.get(i, 'every obligation of the functions in the cone of the roots is discharged from the current source for all inputs (floating-point results exactly, or over exact arithmetic where the statement says so); assumptions are listed in the evidence and DESIGN.md; a bounded comparison with an independent oracle runs beside it and provides replays' if lvl == 'proof' else 'every obligation of the component functions listed as roots (contracts/properties.spec) is discharged from the current source; the end-to-end statement over histories is bounded: model-based generation compared with an independent oracle, not counted as proved' if roots else 'bounded: seeded generation of inputs from literals of the code and small grids, compared with an oracle written from the statement; no proof')}
    checks.append(c)
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': []}, open(d + '/MANIFEST.json', 'w'), indent=1)
