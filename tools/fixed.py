#!/usr/bin/env python3
"""fixed.py PROPERTY KEY WHAT : record /repo's last commit as a repair."""
import sys, json, subprocess, os
h = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', '--short', 'HEAD'], text=True).strip()
p, k, w = sys.argv[1:4]
fn = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.jsonl')
with open(fn, 'a') as f: f.write(json.dumps(dict(property=p, key=k, status='fixed', commit=h, what=f'fixed: property={p} {h} {w}')) + '\n')
