#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below.  Only properties whose check exists are claimed."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None, state=None, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], **({'observe_at': observe} if observe else {}), **({'state': state} if state else {}), hook_needed=hook),
        _t=technique, _n=note))
exec(open(os.path.join(HERE, 'tools', 'table.py'), encoding='utf8').read())
NA = json.load(open(os.path.join(HERE, 'tools', 'not_applicable.json'))) if os.path.exists(os.path.join(HERE, 'tools', 'not_applicable.json')) else []
have = [p for p in P if os.path.exists(f"{HERE}/checks/{p['id']}.py")]
na = [x for x in NA]
naIds = {x['property'] for x in na}
out = have + [p for p in P if p['id'] in naIds]
out.sort(key=lambda p: p['id'])
assert len({p['id'] for p in P}) == len(P)
with open(f'{HERE}/properties.jsonl', 'w', encoding='utf8') as f:
    for p in out: f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}, ensure_ascii=False) + '\n')
checks = [dict(property=p['id'], quick_cmd=f"bash check.sh {p['id']}", thorough_cmd=f"VERIF_TIER=thorough bash check.sh {p['id']}",
    evidence_file=f"evidence/{p['id']}.json", technique='runtime monitoring: ' + p['_t'], level='exploration', level_note=p['_n']) for p in have if p['id'] not in naIds]
man = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
with open(f'{HERE}/MANIFEST.json', 'w', encoding='utf8') as f: json.dump(man, f, indent=1, ensure_ascii=False); f.write('\n')
print(len(have), 'claimed;', len(na), 'not applicable; without a check:', [p['id'] for p in P if p not in have and p['id'] not in naIds])
