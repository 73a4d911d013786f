"""unfoldingWord-aligned USFM: the alignment markers leave the text, and every alignment keeps its source words, its translated words and its verse."""
import os, json, unicodedata
from collections import defaultdict
from bosv import boot, gen, obs

COMMON = ['the', 'of', 'and', 'he', 'God', 'mark', 'went', 'a', 'Mark', 'Hope', 'hope', 'said', 'to', 'his', 'son', 'rose']
HEB = 'אבגדהוזחטיכלמנסעפצקרשת'; GRK = 'αβγδεζηθικλμνξοπρστυφχψω'
CANT = '\u0591\u0596\u059a\u05a3\u05ae'; POINTS = '\u05b0\u05b4\u05b7\u05b8\u05bc'
LEAD = ['“', '‘', '(', '[', '“‘', '¿']
TRAIL = [',', '.', ';', ':', '?', '!', ',”', '.’”', ')', '…', '।', '?!”']
BOOKS = [('RUT', '08', 'RUT'), ('JNA', '32', 'JON'), ('OBA', '31', 'OBA'), ('TIT', '57', 'TIT'), ('JDE', '66', 'JUD'), ('MAT', '41', 'MAT'), ('PHM', '58', 'PHM'), ('GEN', '01', 'GEN'), ('PSA', '19', 'PSA'), ('TOB', '68', 'TOB')]
norm = lambda s: ' '.join(s.replace('\u00a0', ' ').split())

class Verse: pass
class Book:
    """lines: the source; verses: Verse(c, v, text, groups, aligned)"""
    def __init__(self, r, bbb, num, code):
        self.bbb, self.num, self.code = bbb, num, code; ot = bbb in ('RUT', 'JNA', 'OBA', 'GEN', 'PSA')
        self.ot = ot
        self.vocab = [self.source(r, ot) for _ in range(r.choice([3, 6, 12]))]
        self.style = r.choice(['wordlines', 'grouplines', 'oneline', 'mixed', 'mixed'])
        L = self.lines = [f'\\id {code} EN_XYZ test', '\\usfm 3.0', '\\ide UTF-8', f'\\h {bbb}', f'\\toc1 {bbb}', f'\\mt {bbb}']
        self.verses = []; nv = 0
        for ci in range(1, 2 if bbb in ('JDE', 'OBA', 'PHM') else r.choice([2, 3, 4])):
            if ci > 1 and r.random() < .5: L.append(r.choice(['\\ts\\*', '\\s5']))
            L.append(f'\\c {ci}')
            self.verses.append(V := Verse()); V.ts = 0; V.c, V.v, V.text, V.groups = str(ci), '0', '', []
            if bbb == 'PSA' and r.random() < .5:
                if r.random() < .3: L.append(f'\\d {r.choice(COMMON)} psalm')
                else: self.words(r, V, '\\d' + r.choice([' ', '\n']), False)
                if L[-1].startswith('\\d') and not V.text: V.text = L[-1][3:]
            L.append(r.choice(['\\p', '\\p', '\\q1', '\\m'])); k = 1
            for _ in range(r.choice([2, 4, 7])):
                v = str(k) if r.random() < .93 else f'{k}-{k+1}'; k += 1 + ('-' in v); nv += 1
                if self.verses[-1].v != '0':
                    x = r.random()
                    if x < .15: L += [r.choice(['\\ts\\*', '\\s5', '\\ts\\* ']), r.choice(['\\p', '\\q1'])]
                    elif x < .3: L.append(r.choice(['\\p', '\\q1', '\\q2', '\\m', '\\pi']))
                self.verse(r, str(ci), v, plain=nv > 1 and r.random() < .08)
    def source(self, r, ot):
        if ot:
            w = ''.join(r.choice(HEB) + r.choice(['', '', r.choice(POINTS)]) + r.choice(['', '', r.choice(CANT)]) for _ in range(r.randint(2, 5))); w = unicodedata.normalize('NFC', w)
            lem = ''.join(r.choice(HEB) for _ in range(3)); st = r.choice(['b:', 'c:d:', '', '', '']) + f'H{r.randint(1, 8674)}{r.choice(["", "", "a"])}'; mo = r.choice(['He,Ncmsa', 'He,Np', 'He,R:Ncmsc', 'He,Vqp3ms', 'He,R:Np'])
        else:
            w = ''.join(r.choice(GRK) for _ in range(r.randint(2, 6))); lem = ''.join(r.choice(GRK) for _ in range(4)); st = f'G{r.randint(1, 5624)}0'; mo = r.choice(['Gr,N,,,,,NMS,', 'Gr,EA,,,,ANS,', 'Gr,P,,,,,A,,,', 'Gr,V,IAA3,,S,'])
        return w, lem if r.random() < .95 else '', st, mo
    def verse(self, r, c, v, plain):
        V = Verse(); V.ts = 0; V.c, V.v = c, v; self.verses.append(V); self.words(r, V, f'\\v {v} ', plain)
    def words(self, r, V, cur, plain):
        c, v = V.c, V.v; L = self.lines; n = r.choice([1, 2, 3, 5, 8]); ws = []; els = []
        if c == '1' and v.startswith('1'): n = max(n, 5)
        word = lambda: r.choice(COMMON) if r.random() < .7 else gen_word(r)
        used = []
        for i in range(n):
            k = r.choice([1, 1, 1, 2, 3, 4]); w = [word() for _ in range(k)]
            if plain or r.random() < .12: els.append(['un', None, w])
            elif r.random() < .04 and v != '0': els.append(['un', None, ['Selah']])
            else:
                if used and r.random() < .2: src = r.choice(used)
                else:
                    src = []
                    for _ in range(r.choice([1, 1, 1, 1, 2, 3, 5])): s = r.choice(self.vocab); src.append(s)
                    # occurrence numbers make every source word of a verse unique
                    src = tuple((s, 1 + sum(s == t for u in used for t, *_ in u) + sum(s == t for t in src[:j])) for j, s in enumerate(src)); used.append(src)
                els.append(['grp', src, w])
        if not plain and not used:
            s = r.choice(self.vocab); used.append(((s, 1),)); els[0] = ['grp', used[0], [word()]]
        allw = [w for e in els for w in e[2]]; tot = {w: allw.count(w) for w in allw}; cnt = defaultdict(int)
        stot = defaultdict(int)
        for u in used:
            for s, o in u: stot[s] += 1
        xref = f' x-ref="{c}:{v.split("-")[0]}"' if '-' in v else ''
        # physical pieces
        text = ''; V.groups = []; groups = {}
        br = lambda f: self.style == 'wordlines' and f or self.style == 'mixed' and r.random() < .4
        for i, (kind, src, w) in enumerate(els):
            if i:      # what stands between elements
                x = r.random()
                if x < .02 and v != '0': L += [cur, '\\ts']; cur = ''; text += ' '; V.ts += 1
                elif x < .06 and v != '0' and not cur.endswith('-'): L.append(cur); m = r.choice(['q1', 'q2', 'p', 'm', 'pi1']); cur = f'\\{m} ' if r.random() < .4 else f'\\{m}\n'; text += ' '
                elif x < .1 and kind == 'grp' and els[i - 1][0] == 'grp' and cur.endswith('*'): cur += r.choice(['-', '—']) ; text += cur[-1]; groups[last][-1][1] += '—' if cur[-1] == '—' else ''
                elif self.style == 'oneline' or self.style == 'mixed' and r.random() < .5: cur += ' '; text += ' '
                else: cur += '\n'; text += ' '
            lead = r.choice(LEAD) if w != ['Selah'] and r.random() < .15 and cur and (not text or text[-1] == ' ') else ''
            tr = r.choice(TRAIL) if r.random() < .25 else ''
            body = ''; btext = ''; wl = []
            for j, x in enumerate(w):
                cnt[x] += 1; wl.append((x, cnt[x], tot[x]))
                sep = '' if not j else r.choice(['\n\\q1\n', '\n\\q2 ', '\n\\p\n', '\n\\pi1 ']) if r.random() < .05 and v != '0' else '\n' if br(1) else r.choice([' ', ' ', ' ', ', ']) if self.style != 'wordlines' else '\n'
                body += sep + f'\\w {x}|x-occurrence="{cnt[x]}" x-occurrences="{tot[x]}"\\w*'; btext += (' ' if sep[:1] == '\n' else sep) + x
            if kind == 'un' and w == ['Selah']: cur += '\\qs ' + body + tr + '\\qs*'
            elif kind == 'un': cur += lead + body + tr
            else:
                ms = [f'\\zaln-s |x-strong="{s[2]}" x-lemma="{s[1]}" x-morph="{s[3]}" x-occurrence="{o}" x-occurrences="{stot[s]}" x-content="{s[0]}"{xref}\\*' for s, o in src]
                cur += lead + ''.join(ms) + body + '\\zaln-e\\*' * len(ms) + tr
                key = tuple(ms); last = key
                if key not in groups: groups[key] = []; V.groups.append((src, groups[key]))
                groups[key].append([lead + btext + tr, '', wl])
            text += lead + btext + tr
            if r.random() < .04 and not tr and kind == 'un': cur += f'\\f + \\ft {gen_word(r)}\\f*'
        L.append(cur); V.text = norm(text); V.stot = stot; V.xref = xref[8:-1] if xref else None
    def expected(self):
        """the 5-tuples of the cleaned alignments"""
        out = []
        for V in self.verses:
            for src, parts in V.groups:
                out.append((V.c, V.v, [(s[0], s[1], s[2], s[3], o, V.stot[s], V.xref) for s, o in src], ' & '.join(a + b for a, b, _ in parts), [x for *_, wl in parts for x in wl]))
        return out
_n = [0]
def gen_word(r):
    _n[0] += 1; n = _n[0]; s = ''
    while n: s += 'abcdefghijklmnoprstuvwxyz'[n % 25]; n //= 25
    return r.choice(['zq', 'Zq', 'zq']) + s

def one(ctx, i):
    r = ctx.rng('uw', i); _n[0] = i * 1000
    books = [Book(r, *x) for x in sorted(r.sample(BOOKS, r.choice([1, 1, 2, 3])), key=lambda x: x[1])]
    d = ctx.tmpdir('u')
    for b in books:
        with open(os.path.join(d, f'{b.num}-{b.code}.usfm'), 'w', encoding='utf8') as f: f.write('\n'.join(b.lines) + '\n')
    rep = lambda: {'case': i, 'usfm': {b.bbb: '\n'.join(b.lines) for b in books}}
    from BibleOrgSys.Formats.USFMBible import USFMBible
    from BibleOrgSys.Internals.InternalBibleBook import cleanUWalignments
    from BibleOrgSys import BibleOrgSysGlobals as G
    try:
        with boot.quiet():
            B = USFMBible(d, 'XYZ', 'XYZ', 'utf-8'); B.loadBooks()
    except Exception as e: ctx.violation('load-raises', f'{type(e).__name__}: {e}', rep()); return
    finally: ctx.rmtree(d)
    if not ctx.check(set(B.books) == {b.bbb for b in books}, 'books-lost', lambda: f'{list(B.books)}', rep): return
    books.sort(key=lambda b: list(B.books).index(b.bbb))
    ctx.check(getattr(B, 'uWencoded', None) is True, 'not-recognised', lambda: 'the Bible is not marked as aligned', rep)
    cleaned = {}
    for b in books:
        bk = B.books[b.bbb]
        for e in bk: ctx.check('zaln' not in (e.getOriginalText() or '') and 'zaln' not in e.getMarker(), 'alignment-marker-left', lambda: f'{b.bbb} {e.getMarker()} {e.getOriginalText()!r}', rep)
        got = {k: norm(' '.join(x for x in t)) for k, t in obs.verseTexts(bk).items()}
        real = [V for V in b.verses if V.v != '0']
        heads = [(C, norm(e.getCleanText())) for C, _, m, e in obs.textEntries(bk) if m == 'd']
        ctx.check(heads == [(V.c, V.text) for V in b.verses if V.v == '0' and V.text], 'title-text', lambda: f'{b.bbb}: {heads} instead of {[(V.c, V.text) for V in b.verses if V.v == "0"]}', rep)
        ctx.check(list(got) == [(V.c, V.v) for V in real], 'verses', lambda: f'{b.bbb}: {list(got)}', rep)
        for V in real:
            ctx.seen('aligned-verse', V.text)
            ctx.check(got.get((V.c, V.v)) == V.text, 'verse-text', lambda: f'{b.bbb} {V.c}:{V.v}: got {got.get((V.c, V.v))!r} expected {V.text!r}', rep)
        ctx.check([e.getMarker() for e in bk if e.getMarker() in ('s5', 'ts', 'ts\\*')] == ['ts'] * sum(V.ts for V in real), 'chunk-marker-left', lambda: b.bbb, rep)
        al = getattr(bk, 'uWalignments', None); exp = b.expected()
        if not ctx.check(bool(al) == bool(exp), 'alignments-lost', lambda: f'{b.bbb}: {al!r:.80}', rep) or not exp: continue
        with boot.quiet(): cl = cleanUWalignments('XYZ', b.bbb, al)
        cleaned[b.bbb] = cl
        ctx.check(len(cl) == len(exp), 'alignment-count', lambda: f'{b.bbb}: {len(cl)} instead of {len(exp)}', rep)
        for g, x in zip(cl, exp):
            ctx.seen('alignment', repr(x)); ctx.count('discontiguous', ' & ' in x[3]); ctx.count('several-sources', len(x[2]) > 1)
            if not ctx.check((g[0], g[1], list(g[2]), g[4]) == (x[0], x[1], x[2], x[4]), 'alignment', lambda: f'{b.bbb}: got {g} expected {x}', rep): break
            ctx.check(norm(g[3]) == norm(x[3]), 'alignment-words-text', lambda: f'{b.bbb} {x[0]}:{x[1]}: got {g[3]!r} expected {x[3]!r}', rep)
    if r.random() < .5 and cleaned: analyse(ctx, B, books, cleaned, r, rep)

def analyse(ctx, B, books, cleaned, r, rep):
    """the collected tables, against tables counted from the alignments here"""
    from BibleOrgSys import BibleOrgSysGlobals as G
    from pathlib import Path
    B.abbreviation = 'XYZ'; out = ctx.tmpdir('o'); old = G.DEFAULT_WRITEABLE_OUTPUT_FOLDERPATH
    G.DEFAULT_WRITEABLE_OUTPUT_FOLDERPATH = Path(out)
    try:
        with boot.quiet(): B.analyseAndExportUWalignments()
        base = os.path.join(out, 'unfoldingWordAlignedTexts'); tab = {}
        for f in os.listdir(os.path.join(base, 'XYZ_Analysis')):
            if f.endswith('.json'): tab[f[4:-5]] = json.load(open(os.path.join(base, 'XYZ_Analysis', f), encoding='utf8'))
        byBook = {f[:3]: json.load(open(os.path.join(base, 'XYZ_Alignments_ByBook', f), encoding='utf8')) for f in os.listdir(os.path.join(base, 'XYZ_Alignments_ByBook'))}
        plain = ''.join(open(os.path.join(base, 'XYZ_TextOnly_USFM', f), encoding='utf8').read() for f in sorted(os.listdir(os.path.join(base, 'XYZ_TextOnly_USFM'))) if f.endswith('.usfm'))
        normd = ''.join(open(os.path.join(base, 'XYZ_Normalised_USFM', f), encoding='utf8').read() for f in sorted(os.listdir(os.path.join(base, 'XYZ_Normalised_USFM'))) if f.endswith('.usfm'))
    except Exception as e:
        import traceback
        ctx.violation('analysis-raises', f'{type(e).__name__}: {e} {traceback.format_exc().splitlines()[-3:]}', rep()); return
    finally: G.DEFAULT_WRITEABLE_OUTPUT_FOLDERPATH = old; ctx.rmtree(out)
    J = lambda x: json.loads(json.dumps(x))
    part = lambda b: 'OT' if b in ('RUT', 'JNA', 'OBA', 'GEN', 'PSA') else 'DC' if b == 'TOB' else 'NT'
    noCant = lambda w: ''.join(ch for ch in w if not '\u0591' <= ch <= '\u05af')
    rows = [(b.bbb, C, V, o, t, w) for b in books if b.bbb in cleaned for C, V, o, t, w in cleaned[b.bbb]]
    singles = {t for *_, t, w in rows if len(w) == 1}
    E = {}
    for p in ('', 'OT', 'NT', 'DC'):
        rs = [x for x in rows if not p or part(x[0]) == p]
        E[f'aligned{p}BookList'] = [b.bbb for b in books if b.bbb in cleaned and (not p or part(b.bbb) == p)]
        E[f'aggregatedAlignments{p}List'] = rs
        T = {k: defaultdict(list) for k in ('alignment', 'originalFormToTransAlignments', 'originalLemmaToTransAlignments', 'originalStrongsToTransAlignments', 'oneToOneTransToOriginalAlignments', 'manyToOneTransToOriginalAlignments', 'anyToOneTransToOriginalAlignments')}
        N = {k: defaultdict(lambda: defaultdict(int)) for k in ('originalFormToTransOccurrences', 'originalLemmaToTransOccurrences')}
        H = {k: defaultdict(lambda: defaultdict(list)) for k in ('Word', 'Lemma')}
        for b, C, V, o, t, w in rs:
            T['alignment'][f'{b}_{C}:{V}'].append((o, t, w))
            if len(o) == 1:
                f, lem, st, mo, oc, ocs, _ = o[0]
                if part(b) == 'OT': f = noCant(f)
                T['originalFormToTransAlignments'][f].append((b, C, V, lem, t)); T['originalLemmaToTransAlignments'][lem].append((b, C, V, t)); T['originalStrongsToTransAlignments'][st].append((b, C, V, t))
                u = t.replace(' & ', ' '); N['originalFormToTransOccurrences'][f][u] += 1; N['originalLemmaToTransOccurrences'][lem][u] += 1
                H['Word'][f][f'{lem}//{st}//{mo}'].append((b, C, V, oc, ocs, t)); H['Lemma'][lem][f'{f}//{st}//{mo}'].append((b, C, V, oc, ocs, t))
            if len(w) == 1:
                x = w[0][0]; morph = ' + '.join(z[3] for z in o)
                if x.lower() in singles and not morph.endswith((',Np', ':Np')) and x not in ('I', 'God', 'Lord', 'Father', 'Son', 'Spirit'): x = x.lower()
                T['anyToOneTransToOriginalAlignments'][x].append((b, C, V, o)); T[('oneToOne' if len(o) == 1 else 'manyToOne') + 'TransToOriginalAlignments'][x].append((b, C, V, o[0] if len(o) == 1 else o))
        for k, x in list(T.items()) + list(N.items()): E[k + p + 'Dict'] = x
        if p == 'OT': E['HebrewOTWordDict'], E['HebrewOTLemmaDict'] = H['Word'], H['Lemma']
        if p == 'NT': E['GreekNTWordDict'], E['GreekNTLemmaDict'] = H['Word'], H['Lemma']
    ctx.count('analysed-alignments', len(rows))
    ctx.check(set(tab) == {k for k, x in E.items() if x}, 'tables', lambda: f'tables {set(tab) ^ {k for k, x in E.items() if x}}', rep)
    for k in tab:
        if k not in E: continue
        ctx.seen('table', k + repr(tab[k])[:200]); want = J(E[k])
        ctx.check(tab[k] == want, 'table', lambda: f'{k}: ' + (f'{[(x, tab[k].get(x), want.get(x)) for x in set(tab[k]) | set(want) if tab[k].get(x) != want.get(x)][:2]}' if isinstance(want, dict) else f'{[(a, b) for a, b in zip(tab[k], want) if a != b][:2]} {len(tab[k])}/{len(want)}'), rep)
    for b in books:
        if b.bbb not in cleaned: continue
        want = defaultdict(list)
        for C, V, o, t, w in cleaned[b.bbb]: want[f'{C}:{V}'].append((o, t, w))
        ctx.check(byBook.get(b.bbb) == J(want), 'book-table', lambda: f'{b.bbb}', rep)
    ctx.check('\\w ' not in plain and 'zaln' not in plain + normd, 'markers-in-plain-text', lambda: plain[:300], rep)
    for b in books:
        for V in b.verses: ctx.check(norm(f'\\v {V.v} {V.text}')[:40].split('\\f')[0] and all(x in plain for x in V.text.split()), 'plain-text-lost', lambda: f'{b.bbb} {V.c}:{V.v} {[x for x in V.text.split() if x not in plain]}', rep)

def run(ctx):
    ctx.rule = 'random unfoldingWord-aligned USFM books; non-trivial = distinct verse texts, distinct alignments and distinct tables compared'
    ctx.need('aligned-verse', 50); ctx.need('alignment', 50); ctx.need('table', 50)
    for i in ctx.cases(200, 4000): one(ctx, i)
