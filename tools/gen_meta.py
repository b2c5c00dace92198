#!/opt/venv/bin/python
"""writes properties.jsonl and MANIFEST.json from tools/meta/*.py (each defines PROP, a dict)"""

import json
import os
import runpy

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ('contract-based deductive verification: symbolic execution of the real functions generating verification '
        'conditions against contracts and loop invariants, discharged by z3 and cvc5; counterexamples replayed on the real code')
NOTE = ('Contracts on the real functions (source read and mechanically instrumented on every run); every obligation is discharged '
        'for all inputs, unless the evidence labels a contract bounded. Assumes mathematical integers and reals for machine '
        'arithmetic and trusts the numpy/math models of vcpy (cross-checked by concrete execution). ')


def main():
    d = os.path.join(ROOT, 'tools', 'meta')
    props = []
    for f in sorted(os.listdir(d)):
        if f.endswith('.py'):
            props.append(runpy.run_path(os.path.join(d, f))['PROP'])
    props.sort(key = lambda p: p['id'])
    checks, na = [], []
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fp:
        for p in props:
            rec = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                   'quantifier': {'over': p.get('over', ['inputs']), 'text': p['quantifier']},
                   'why_tests_cant': p['why'],
                   'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                               'observe_at': p.get('observe_at', ['return values']), 'hook_needed': None}}
            if p.get('state'):
                rec['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
            assert len(p['title']) <= 80, p['id']
            fp.write(json.dumps(rec) + '\n')
            if p.get('na'):
                na.append({'property': p['id'], 'reason': p['na']})
            else:
                cmd = f'/opt/venv/bin/python check.py --property {p["id"]} --tier '
                checks.append({'property': p['id'], 'quick_cmd': cmd + 'quick', 'thorough_cmd': cmd + 'thorough',
                               'technique': TECH, 'level': p.get('level', 'proof'), 'level_note': NOTE + p.get('note', '')})
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fp:
        json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
                   'notes': 'One engine (vcpy) decides every claimed property; see DESIGN.md.'}, fp, indent = 1)
        fp.write('\n')
    design(props)


def design(props):
    with open(os.path.join(ROOT, 'tools', 'DESIGN.tmpl.md')) as fp:
        t = fp.read()
    a = [f"**{p['id']} {p['title']}** ({', '.join(p['files'])}). {p['design']}" for p in props if not p.get('na')]
    n = ['## Not applicable', ''] + [f"* **{p['id']} {p['title']}**: {p['na']}" for p in props if p.get('na')]
    s = []
    for d in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
        with open(os.path.join(ROOT, 'seeded', d, 'meta.json')) as fp:
            m = json.load(fp)
        s.append(f"* {d} (caught by {m['property']}): {m['what_it_breaks']}; needs {m['needs']}")
    t = t.replace('%PROPS%', '\n\n'.join(a)).replace('%NA%', '\n'.join(n)).replace('%SEEDED%', '\n'.join(s))
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as fp:
        fp.write(t)


if __name__ == '__main__':
    main()
