"""writes MANIFEST.json: python3 tools/mkmanifest.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification: verification conditions generated from the current /repo source (pyvc), discharged by z3'
TECH_T = 'closed table and code contracts decided by evaluating every instance of the finite domain on the current /repo (complete), plus pyvc/z3 goals'
BOUNDED = 'bounded concrete stand-in (no goal within reach of the verifier yet)'
NOTES = json.load(open(os.path.join(HERE, 'tools', 'notes.json'), encoding='utf-8'))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'), encoding='utf-8')]
m = {'version': 1,
     'setup_cmd': 'python3-vt -c "import z3; print(z3.get_version_string())"',
     'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    n = NOTES[i]
    m['checks'].append({'property': i, 'quick_cmd': 'python3-vt check.py %s' % i,
                        'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py %s' % i,
                        'evidence_file': 'evidence/%s.json' % i,
                        'technique': {'proof': TECH, 'table': TECH_T, 'exploration': BOUNDED}[n[0]],
                        'level': 'exploration' if n[0] == 'exploration' else 'proof', 'level_note': n[1]})
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8'), indent=1, ensure_ascii=False)
