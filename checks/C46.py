"""C46 -- USFM markers: every question about every marker against the XML tables, and the list of markers of a text against how the text was made."""
import xml.etree.ElementTree as ET, itertools
from bosv import boot
from checks.C42 import call

CHAR = ('Text', 'Canonical Text', 'Poetry', 'Table row', 'Introduction', 'Numbering', 'Acrostic verse')

def source(f):
    M = {}
    for e in ET.parse(f).getroot().findall('USFMMarker'): M[e.find('marker').text] = {x.tag: x.text for x in e}
    return M

def numbered(m, k): return f'{m[:-2]}{k}{m[-2:]}' if m.endswith(('-s', '-e')) else f'{m}{k}'

def run(ctx):
    G = boot.boot()
    from BibleOrgSys.Reference.USFM2Markers import USFM2Markers
    from BibleOrgSys.Reference.USFM3Markers import USFM3Markers
    ctx.rule = 'every marker of both tables and strings near to markers asked of every function; all sixteen lists of character markers; random texts of newline markers, character markers nested up to three deep, notes and text (with and without initial text); distinct = distinct (table, marker or text)'
    for k, n in (('marker', 400), ('not-marker', 1500), ('list', 30), ('text', 3000), ('closed', 5000), ('context', 20000)): ctx.need(k, n)
    for ver, cls in ((2, USFM2Markers), (3, USFM3Markers)):
        M = source(G.BOS_DATAFILES_FOLDERPATH / f'USFM{ver}Markers.xml'); o = call(lambda: cls().loadData())
        if not ctx.check(not isinstance(o, str), 'load', lambda: f'{o}', ver): continue
        raw, std = {}, {}
        for m, d in M.items():
            raw[m] = m; std[m] = m; hi = d['highestNumberSuffix']
            if hi != 'None':
                std[m] = numbered(m, 1)
                for k in range(1, int(hi) + 1): raw[numbered(m, k)] = m; std[numbered(m, k)] = numbered(m, k)
        ctx.check(len(o) == len(raw), 'count', lambda: f'USFM{ver}: {len(o)}, not {len(raw)}', ver)
        plain = [x for m, d in M.items() for x in ([m] if d['highestNumberSuffix'] == 'None' else [numbered(m, k) for k in range(1, int(d['highestNumberSuffix']) + 1)])]
        ctx.check([call(o.__getitem__, i) for i in range(len(plain))] == plain, 'index', lambda: f'USFM{ver}', ver)
        isd = {m for m in plain if M[raw[m]]['deprecated'] == 'Yes'}
        def yes(m, tag, v='Yes'): return M[raw[m]].get(tag) == v
        Q = (('isValidMarker', lambda m: True), ('__contains__', lambda m: True), ('isNewlineMarker', lambda m: yes(m, 'level', 'Newline')), ('isInternalMarker', lambda m: yes(m, 'level', 'Internal')), ('isNoteMarker', lambda m: yes(m, 'level', 'Note')),
             ('isDeprecatedMarker', lambda m: m in isd), ('isCompulsoryMarker', lambda m: yes(m, 'compulsory')), ('isNumberableMarker', lambda m: not yes(m, 'highestNumberSuffix', 'None')), ('isNestingMarker', lambda m: yes(m, 'nests')), ('isPrinted', lambda m: yes(m, 'printed')))
        V = (('getMarkerClosureType', lambda m: {'No': 'N', 'Always': 'A', 'Optional': 'O', 'Self': 'S'}[M[raw[m]]['closed']]), ('getMarkerContentType', lambda m: M[raw[m]]['hasContent'][0]), ('toRawMarker', lambda m: raw[m]), ('toStandardMarker', lambda m: std[m]),
             ('markerOccursIn', lambda m: M[raw[m]]['occursIn']), ('getMarkerEnglishName', lambda m: M[raw[m]]['nameEnglish']), ('getMarkerDescription', lambda m: M[raw[m]].get('description')))
        for rnd in range(2):
            L = list(raw); ctx.rng(ver, rnd).shuffle(L)
            for m in L:
                ctx.seen('marker', (ver, m))
                for f, w in Q:
                    if f == 'isDeprecatedMarker' and m not in plain: continue
                    g = call(getattr(o, f), m); ctx.check(g is w(m), f, lambda: f'USFM{ver} {f}({m!r}): {g}', (ver, f, m))
                for f, w in V: g = call(getattr(o, f), m); ctx.check(g == w(m), f, lambda: f'USFM{ver} {f}({m!r}): {g}, not {w(m)!r}', (ver, f, m))
        r = ctx.rng('not', ver); near = set()
        for m in raw: near |= {m + '0', m + '9', m + '1', m + '*', '+' + m, m + ' ', m.upper(), m + 'x', '\\' + m, m[:-1], m[1:], m + '10'}
        for m in sorted(near - set(raw)):
            ctx.seen('not-marker', (ver, m))
            for f, w in Q: g = call(getattr(o, f), m); ctx.check(g is False, 'not-' + f, lambda: f'USFM{ver} {f}({m!r}): {g}', (ver, f, m))
            for f in ('toRawMarker', 'toStandardMarker'): g = call(getattr(o, f), m); ctx.check(g.startswith('!KeyError'), 'not-' + f, lambda: f'USFM{ver} {f}({m!r}): {g}', (ver, f, m))
        # lists
        nl = [m for m in M if yes(m, 'level', 'Newline')]
        for opt, w in (('Raw', nl), ('Combined', [m for m in raw if raw[m] in nl]), ('Numbered', [m for m in plain if raw[m] in nl]), ('CanonicalText', [m for m in plain if raw[m] in nl and M[raw[m]]['occursIn'] == 'Canonical Text'])):
            g = call(o.getNewlineMarkersList, opt); ctx.seen('list', (ver, opt)); ctx.check(sorted(g) == sorted(w), 'newline-list', lambda: f'USFM{ver} {opt}: {set(g) ^ set(w)}', (ver, opt))
        for f, lv in (('getInternalMarkersList', 'Internal'), ('getNoteMarkersList', 'Note')):
            g = call(getattr(o, f)); w = [m for m in M if M[m]['level'] == lv]; ctx.seen('list', (ver, f)); ctx.check(sorted(g) == sorted(w), 'level-list', lambda: f'USFM{ver} {f}: {set(g) ^ set(w)}', (ver, f))
        g = call(o.getOccursInList); ctx.check(sorted(g) == sorted({d['occursIn'] for d in M.values()}), 'occurs-list', lambda: f'USFM{ver} {g}', ver)
        for opts in itertools.product((False, True), repeat=4):
            bs, end, nest, exp = opts; w = set()
            for m, d in M.items():
                if d['level'] != 'Internal' or d['occursIn'] not in (CHAR if ver == 3 else CHAR[:5]): continue
                for x in [m] + ([numbered(m, k) for k in range(1, int(d['highestNumberSuffix']) + 1)] if exp and d['highestNumberSuffix'] != 'None' else []):
                    for p in ('', '+') if nest else ('',):
                        for e in ('', '*') if end else ('',): w.add(('\\' if bs else '') + p + x + e)
            g = call(o.getCharacterMarkersList, *opts); ctx.seen('list', (ver, opts)); ctx.check(isinstance(g, list) and len(g) == len(set(g)) and set(g) == w, 'character-list', lambda: f'USFM{ver} {opts}: {sorted(set(g) ^ w)[:9]}', (ver, opts))
        # texts
        NL = [m for m in plain if yes(m, 'level', 'Newline')]; CH = [m for m, d in M.items() if d['level'] == 'Internal' and d['occursIn'] in CHAR and d['closed'] == 'Always' and d['highestNumberSuffix'] == 'None']
        for i in ctx.cases(3000, 60000):
            r = ctx.rng('text', ver, i); ents = []; cx = []; nid = [0]; head = r.choice(['', '', 'In the ', '“', 'x', ' '])
            def words(): return r.choice(['', ' ', 'a', 'word ', 'two words', ' sp ', 'né—“x”', '3:4; 5', 'a|b="c"', "don't + ", 'x*y'])
            def add(m, x, mk, ctxt, t): ents.append((m, x, mk, [a for a, _ in ctxt], [b for _, b in ctxt], t))
            def openm(m, nested):
                nid[0] += 1
                if nested: cx.append((m, nid[0])); add(m, '+', f'\\+{m} ', cx, words())
                else: cx[:] = [(m, nid[0])]; add(m, ' ', f'\\{m} ', cx, words())
            def closem(nested):
                if nested: m = cx.pop()[0]; add(m, '-', f'\\+{m}*', cx, words())
                else: m = cx[0][0]; cx[:] = []; add(m, '*', f'\\{m}*', cx, words())
            def inner(depth):
                for _ in range(r.choice([0, 0, 1, 2]) if depth < 3 else 0):
                    openm(r.choice(CH), True); inner(depth + 1); closem(True)
            for _ in range(r.randint(1, 6)):
                what = r.choice(['nl', 'char', 'char', 'fn', 'xr'])
                if what == 'nl': m = r.choice(NL); cx[:] = []; add(m, ' ', f'\\{m} ', cx, words())
                elif what == 'char': openm(r.choice(CH), False); inner(1); closem(False)
                else:
                    a, parts = ('f', ('fr', 'fk', 'fq', 'ft', 'fqa', 'fl')) if what == 'fn' else ('x', ('xo', 'xk', 'xq', 'xt'))
                    openm(a, False); last = a
                    for _ in range(r.randint(1, 4)):
                        p = r.choice([z for z in parts if z != last]); last = p; openm(p, False); inner(1)
                    cx[:] = []; add(a, '*', f'\\{a}*', cx, words())
            if r.random() < .2:
                m = r.choice(NL + CH); cx[:] = [] if m in NL else [(m, -1)]; ents.append((m, '', f'\\{m}', [a for a, _ in cx], [b for _, b in cx], ''))
            text = head + ''.join(e[2] + e[5] for e in ents); want = []; ix = len(head); ini = r.random() < .5; s = 1 if ini and head else 0
            if s: want.append((None, 0, None, None, None, 1, head))
            for j, (m, x, mk, names, ids, t) in enumerate(ents):
                end = None
                if x in ' +' and x and ids:
                    for k in range(j + 1, len(ents)):
                        if ids[-1] not in ents[k][4]: end = k + s; break
                    ctx.seen('closed', (ver, i, j))
                ctx.seen('context', (ver, i, j, tuple(names))); want.append((m, ix, x, mk, names, end, t)); ix += len(mk + t)
            g = call(o.getMarkerListFromText, text, includeInitialText=ini); ctx.seen('text', (ver, text))
            if g != want:
                a = next((z for z in itertools.zip_longest(g, want) if z[0] != z[1]), None) if isinstance(g, list) else g
                ctx.violation('marker-list', f'USFM{ver} {text!r}: {a}', (ver, text, ini))
            else: ctx.check(True, 'marker-list', lambda: '', None)
