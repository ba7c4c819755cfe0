"""Regenerates properties.jsonl and MANIFEST.json (python3 tools/gen.py). The property texts live here."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/actuarialmath/'
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, note, technique='runtime monitoring: reference-model oracle over observed calls', state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files], mechanism=[dict(name=n, where=S + w) for n, w in mechanism],
                               observe_at=observe, hook_needed=None, **({'state': [dict(name=a, meaning=b, where=S + c) for a, b, c in state]} if state else {})),
                  _note=note, _tech=technique))


exec(open(os.path.join(V, 'tools', 'props.py')).read())

done = sorted(f[:-3].upper() for f in os.listdir(os.path.join(V, 'vmon', 'props')) if f.startswith('p') and f.endswith('.py') and f != '__init__.py')
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
man = dict(version=1, setup_cmd='./setup.sh',
           checks=[dict(property=p['id'], quick_cmd=f"./check {p['id']} --tier quick", thorough_cmd=f"./check {p['id']} --tier thorough",
                        evidence_file=f"evidence/{p['id']}.json", technique=p['_tech'], level='exploration', level_note=p['_note'])
                   for p in P if p['id'] in done],
           not_applicable=[dict(property=p['id'], reason='check not built yet') for p in P if p['id'] not in done],
           notes='No hooks in /repo: monitors wrap the public API from the harness. See DESIGN.md.')
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(man['checks']), 'checks', man['not_applicable'])
