#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the table of properties, evidence of quick runs (folder given), known findings and planted bugs."""
import json, os, sys, textwrap
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); EV = sys.argv[1] if len(sys.argv) > 1 else HERE + '/evidence'
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None, state=None, hook=None): P.append(dict(id=id, title=title, q=qtext, why=why, files=files, mech=mech, t=technique, note=note))
exec(open(f'{HERE}/tools/table.py', encoding='utf8').read())
K = [json.loads(l) for l in open(f'{HERE}/known_findings.jsonl', encoding='utf8') if l.strip()]
NOTES = json.load(open(f'{HERE}/tools/design_notes.json', encoding='utf8')) if os.path.exists(f'{HERE}/tools/design_notes.json') else {}
out = [open(f'{HERE}/tools/design_head.md', encoding='utf8').read(), '## The properties\n']
def w(s, ind=''): return textwrap.fill(s, 118, initial_indent=ind, subsequent_indent='  ' if ind else '')
for p in sorted(P, key=lambda p: p['id']):
    if not os.path.exists(f"{HERE}/checks/{p['id']}.py"): continue
    e = f"{EV}/{p['id']}.json"; e = json.load(open(e)) if os.path.exists(e) else None
    out.append(f"### {p['id']} — {p['title']}\n")
    out.append(w(f"Decided by: {p['t']}.", '* ')); out.append(w(f"Over: {p['q']}.", '* ')); out.append(w(f"Why tests cannot: {p['why']}", '* '))
    out.append(w('Anchored in: ' + '; '.join(f'{b} ({a})' for a, b in p['mech']) + '.', '* '))
    if e:
        c = e['coverage']; o = c.get('observed', {})
        out.append(w(f"Workload of a quick run: {c['rule']}.", '* '))
        out.append(w(f"Seen by the monitors (quick, seed 1, about {max(1, round(e['wall_s']))} s): " + ', '.join(f'{k} {v}' for k, v in sorted(o.items())) + f"; {c['evaluations']} decisions.", '* '))
    n = p['note'].split('. ', 1)
    out.append(w(f"Bounds: {p['note']}", '* '))
    for x in NOTES.get(p['id'], []): out.append(w(x, '* '))
    fixed = [k for k in K if k['property'] == p['id'] and k['status'] == 'fixed']; known = [k for k in K if k['property'] == p['id'] and k['status'] == 'known']
    for k in known: out.append(w(f"KNOWN FINDING ({k['key']}): {k['what']}", '* '))
    if fixed: out.append(w(f"Defects found and repaired: {len(fixed)} (below).", '* '))
    out.append('')
out.append('## Defects which the checks found\n')
out.append('Repaired in /repo, each in its own "fix:" commit; the check that found it passes since and reports it if it returns.\n')
for k in K:
    if k['status'] == 'fixed': out.append(w(k['what'].replace('fixed: property=', ''), '* '))
out.append('\nRecorded (not repaired, because the repair is not small):\n')
for k in K:
    if k['status'] == 'known': out.append(w(f"{k['property']} {k['key']}: {k['what']}", '* '))
out.append('\n## Planted bugs\n')
caught = json.load(open(f'{HERE}/tools/caught.json')) if os.path.exists(f'{HERE}/tools/caught.json') else {}
for d in sorted(os.listdir(f'{HERE}/seeded')):
    m = json.load(open(f'{HERE}/seeded/{d}/meta.json')); c = caught.get(d, [])
    out.append(w(f"{d} (needs {m['needs']}): {m['what_it_breaks']}. " + ('Caught by ' + ', '.join(c) + '.' if c else 'Not caught.'), '* '))
tail = f'{HERE}/tools/design_tail.md'
if os.path.exists(tail): out.append('\n' + open(tail, encoding='utf8').read())
open(f'{HERE}/DESIGN.md', 'w', encoding='utf8').write('\n'.join(out).rstrip() + '\n')
