"""writes MANIFEST.json: every property that has a rule is claimed, the others are not applicable with a reason"""
import importlib, json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + '/analysis')
import check
NA = {
 'P30': 'Equality of the played event sequence of two songs quantifies over all songs and all repeat structures; the structural clauses it rests on (extraction copies and skips exactly the right ranges, occurrences recorded once, no nesting) are claimed as P14, P15 and P16, the whole is a behavioural equivalence no static rule in reach decides.',
 'P31': 'Termination and non-enlargement of the optimiser depend on the runtime value of a score against the encoded sizes of the commands of the particular song; there is no syntactic ranking function in the code to check.',
 'P32': 'Completeness and running time of a backtracking search over the notes of the particular MIDI file: a property of runtime values, not of the shape of the code.',
}
checks, na = [], []
rules = {}
for m in check.MODULES:
    mod = importlib.import_module('rules.' + m)
    for pid, f in mod.RULES.items(): rules[pid] = f
for l in open(R + '/properties.jsonl'):
    p = json.loads(l)['id']
    if p in rules:
        doc = ' '.join((rules[p].__doc__ or '').split())
        tech, _, note = doc.partition(' :: ')
        checks.append({'property': p, 'quick_cmd': './check.sh ' + p, 'thorough_cmd': './check.sh %s thorough' % p,
                       'technique': tech, 'level': 'other',
                       'level_note': note + ' Trusted: the MIR extraction, the abstract semantics of MIR and of the modelled library calls (analysis/lib.py, models/models.rs).'})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'not built yet')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'One static analyser for all properties: see DESIGN.md.'}, open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed;', len(na), 'not:', ' '.join(x['property'] for x in na))
