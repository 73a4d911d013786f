#!/usr/bin/env python3
"""plant.py SPEC.py  -- make /verif/seeded/<id> from a spec: ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source).
Confirms in a scratch copy: patch applies, stable tests pass, demo passes without and fails with it.  Then runs the property's check against the copy."""
import sys, os, json, subprocess, shutil
spec = {}; exec(open(sys.argv[1], encoding='utf8').read(), spec)
sid = spec['ID']; R = '/tmp/seed/repo'
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
if os.path.isdir(R): shutil.rmtree(R)
sh('cp -a /repo ' + R); sh(f'git -C {R} checkout -q -- .')
for fn, old, new in spec['EDITS']:
    p = f'{R}/{fn}'; t = open(p, encoding='utf8', newline='').read()
    assert t.count(old) == 1, (fn, t.count(old), old)
    open(p, 'w', encoding='utf8', newline='').write(t.replace(old, new))
diff = sh(f'git -C {R} diff').stdout
D = f'/verif/seeded/{sid}'; os.makedirs(D, exist_ok=True)
open(f'{D}/patch.diff', 'w', encoding='utf8').write(diff)
json.dump({'property': spec['PROPERTY'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']}, open(f'{D}/meta.json', 'w'), indent=1)
open(f'{D}/demo.sh', 'w').write('''#!/bin/bash
# exit 0 when the property holds for this demonstration; run with cwd = the repository
d="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"; r="$PWD"; w="$(mktemp -d /tmp/demo.XXXXXXXX)"; trap 'rm -rf "$w"' EXIT
mkdir "$w/home" "$w/cwd"; cd "$w/cwd"
env -i PATH="$PATH" HOME="$w/home" TMPDIR="$w" LANG=C.UTF-8 PYTHONPATH="$r:$d" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 timeout 280 /opt/venv/bin/python -B "$d/demo.py" "$w"
''')
PRE = '''import os, sys, io, logging
os.getlogin = lambda: 'root'
logging.disable(logging.CRITICAL)
work = sys.argv[1]; sys.argv = sys.argv[:1]
from BibleOrgSys import BibleOrgSysGlobals as G
G.verbosityLevel = 0; G.debugFlag = False; G.strictCheckingFlag = False; G.maxProcesses = 1
_o = sys.stdout; sys.stdout = io.StringIO(); G.preloadCommonData(); sys.stdout = _o

def load(**books):
    """books: BBB='usfm text'"""
    from BibleOrgSys.Formats.USFMBible import USFMBible
    d = os.path.join(work, 'src%d' % len(os.listdir(work))); os.mkdir(d)
    for BBB, text in books.items():
        with open(os.path.join(d, '%s%sXYZ.usfm' % (G.loadedBibleBooksCodes.getReferenceNumber(BBB), G.loadedBibleBooksCodes.getUSFMAbbreviation(BBB))), 'w', encoding='utf8') as f: f.write(text)
    B = USFMBible(d, 'XYZ', 'XYZ'); B.preload(); B.loadBooks(); return B

'''
open(f'{D}/demo.py', 'w', encoding='utf8').write(PRE + spec['DEMO'].strip() + '\n')
def demo(cwd): return sh(f'bash {D}/demo.sh', cwd=cwd)
a = demo('/repo'); b = demo(R)
print('demo unchanged:', a.returncode, a.stdout[-1500:] + a.stderr[-1500:] if a.returncode else ''); print('demo patched:', b.returncode, (b.stdout + b.stderr)[-300:])
if '-n' not in sys.argv:
    t = sh(f"rm -rf /tmp/seed/real; git -C /repo diff --quiet && git -C /repo apply {D}/patch.diff && bash /opt/vp/test.sh /tmp/seed/out.json; git -C /repo checkout -q -- .")
    base = json.load(open('/opt/vp/BASELINE.json')); out = json.load(open('/tmp/seed/out.json'))
    def passed(o):
        for k in ('passed', 'pass'):
            if k in o: return set(o[k])
        return set(o) if isinstance(o, list) else {k for k, v in o.items() if v in ('passed', 'pass', True)}
    stable = set(base.get('stable', base.get('passed', base.get('tests', [])))) if isinstance(base, dict) else set(base)
    print('tests: stable', len(stable), 'missing', len(stable - passed(out)), list(stable - passed(out))[:3])
for pid in [spec['PROPERTY']] + list(spec.get('ALSO', [])):
    c = sh(f'BOSV_REPO={R} BOSV_EVIDENCE=/tmp/seed/ev bash /verif/check.sh {pid}')
    print('CHECK', pid, 'rc', c.returncode, '\n'.join(x for x in c.stdout.split('\n') if x.startswith('  ') and not x.startswith('   ') or 'VIOL' in x or 'INCON' in x)[:900], c.stderr[-500:])
