"""Tables: the text of table rows stays in its verse in the loaded book and in everything made from it."""
import os, re, glob
from bosv import boot, gen, exports
import xml.etree.ElementTree as ET

TOK = re.compile(r'zq[a-p]{5}z')
# exporter: the files that hold the running text
FILES = {'toBOSBCV': '**/*_C*V*.txt', 'toUSFM2': '**/*.usfm', 'toUSFM3': '**/*.usfm', 'toESFM': '**/*.ESFM', 'toText': '**/BOS-*.txt', 'toVPL': '**/BOS-*.txt', 'toMarkdown': '**/BOS-*.md',
         'toHTML5': '**/{code}.html', 'toBibleDoor': '**/*.bd.txt', 'toUSX2XML': '**/*.usx', 'toUSXXML': '**/*.usx', 'toUSFXXML': '**/*.usfx', 'toOSISXML': '**/*.osis', 'toZefaniaXML': '**/*.zef',
         'toHaggaiXML': '**/*.hag', 'toOpenSongXML': '**/*.osong', 'totheWord': '**/*.?t', 'toMySword': None, 'toESword': None, 'toMyBible': None, 'toSwordSearcher': '**/Bible.txt',
         'toDrupalBible': '**/Bible.txt', 'toTeX': '**/00-*.tex'}

class Table:
    """a book with tables; verses: [(c, v, [words], {words that stand in table rows})]"""
    def __init__(self, r, code='EXO'):
        W = gen.W(r); W.punct = False; self.code = code; n = [0]
        def word():
            n[0] += 1; k = n[0]; s = ''
            while k: s = chr(97 + k % 16) + s; k //= 16
            return 'zq' + (s.rjust(5, 'a')) + 'z'
        L = self.lines = [f'\\id {code} tables', f'\\h {code}', f'\\mt1 {code}']; self.verses = []; self.rows = []
        for c in range(1, r.choice([2, 3, 4])):
            L += [f'\\c {c}', '\\p']; v = 0; para = True; cells = 0
            for _ in range(r.choice([2, 3, 5])):
                if v >= 8: break # (the module formats have no place for verses beyond the standard numbers)
                if not para: L.append('\\p'); para = True
                for _ in range(r.choice([1, 1, 2])):
                    v += 1; ws = [word() for _ in range(r.randint(1, 3))]; L.append(f'\\v {v} ' + ' '.join(ws)); self.verses.append((str(c), str(v), ws, set()))
                if r.random() < .6:
                    k = r.choice([1, 2, 3, 4]); para = False
                    for row in range(r.choice([1, 2, 3])):
                        kind = 'h' if row == 0 and r.random() < .6 else 'c'; l = '\\tr'; inVerse = False
                        for x in range(k):
                            l += f'{r.choice(["", " "]) if x else " "}\\t{kind}{r.choice(["", "", "r"])}{x+1} '
                            if kind == 'c' and v < 11 and r.random() < .2: v += 1; l += f'\\v {v} '; self.verses.append((str(c), str(v), [], set())); inVerse = True
                            ws = [word() for _ in range(r.randint(1, 3))]; l += ' '.join(ws)
                            self.verses[-1][2].extend(ws); self.rows += ws
                            if not inVerse: self.verses[-1][3].update(ws)
                        L.append(l)
        self.usfm = '\n'.join(L) + '\n'

def one(ctx, i):
    r = ctx.rng('t', i); num, code = r.choice([('02', 'EXO'), ('41', 'MAT'), ('16', 'NEH')]); t = Table(r, code); rp = {'case': i, 'usfm': t.usfm}
    d = ctx.tmpdir()
    with open(f'{d}/{num}{code}XYZ.usfm', 'wt') as f: f.write(t.usfm)
    B = gen.loadUSFMq(d)
    for c, v, ws, _ in t.verses:
        ctx.seen('verse', (c, v, tuple(ws)))
        with boot.quiet(): x = B.getVerseDataList((code, c, v))
        got = [w for e in x for w in TOK.findall(e.getAdjustedText() or '')] if x else None
        ctx.check(got == ws, 'verse-data', lambda: f'case {i} {c}:{v}: words {ws} became {got}', rp)
    ctx.count('row-words', len(t.rows))
    want = [w for v in t.verses for w in v[2]]; rows = {w for v in t.verses for w in v[3]}
    for ex, pat in FILES.items():
        o = ctx.tmpdir()
        try: exports.run(B, ex, o)
        except Exception as e: ctx.violation('export-fails', f'{ex} case {i}: {e!r}', rp); ctx.rmtree(o); continue
        if pat is None: text = '\n'.join(str(v) for k, v in sorted(exports.tree(o).items()) if re.search(r'\.(mybible|bblx|SQLite3)$', k))
        else:
            key = lambda f: [int(n) for n in re.findall(r'\d+', os.path.basename(f))]
            fs = sorted(glob.glob(o + '/' + pat.format(code=code), recursive=True), key=key)
            if ex == 'toText' or ex == 'toVPL': fs = fs[:1]
            text = '\n'.join(open(f, encoding='utf8').read() for f in fs)
            if fs and fs[0].endswith(('.usx', '.usfx', '.osis', '.zef', '.hag', '.osong')):
                ctx.seen('xml', (ex, t.usfm))
                try: ET.parse(fs[0])
                except ET.ParseError as e: ctx.violation('not-well-formed', f'{ex} case {i}: {e}', rp, known=f'not-well-formed-{ex}')
        got = TOK.findall(text); lost = [w for w in want if w not in got]
        ctx.seen('export', (ex, t.usfm))
        if lost:
            if all(w in rows for w in lost): ctx.violation('row-text-lost', f'{ex} case {i}: {lost[:4]} of table rows are not in the export', rp, known=f'row-text-lost-{ex}')
            else: ctx.violation('text-lost', f'{ex} case {i}: {[w for w in lost if w not in rows][:4]} are not in the export', rp)
        else: ctx.count('kept-' + ex)
        left = [w for w in want if w in got]
        if pat is not None: ctx.check(got == left, 'order', lambda: f'{ex} case {i}: {left} became {got}', rp)
        ctx.rmtree(o)
    ctx.rmtree(d)

def run(ctx):
    ctx.rule = 'a Bible with tables at random places, with verses beginning inside cells, in every export'
    ctx.need('verse', 50); ctx.need('export', 100); ctx.need('xml', 40)
    for i in ctx.cases(16, 300): one(ctx, i)
