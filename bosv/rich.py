"""Dense USFM for the loader: every inline construct next to every other one, in any physical layout, with an oracle made
from the parts themselves (what the reader sees, what is held aside and where)."""
import re
from bosv import gen

class P:
    """one inline part: usfm = source; shown = its contribution to the adjusted text; clean = to the clean text; extra = (type, body) or None"""
    __slots__ = ('usfm', 'shown', 'clean', 'extra')
    def __init__(self, usfm, shown=None, clean=None, extra=None):
        self.usfm = usfm; self.shown = usfm if shown is None else shown; self.clean = self.shown if clean is None else clean; self.extra = extra

CALL = ['+', '+', '-', 'a', '*', '†', '1']
STYLES = ['add', 'nd', 'wj', 'bk', 'it', 'bd', 'em', 'sc', 'tl', 'qt', 'pn', 'qs', 'sig', 'ord', 'no', 'k', 'bdit', 'sls', 'dc', 'addpn', 'rq', 'png', 'wg', 'wh']
class Inline:
    def __init__(self, r, styles=STYLES): self.r = r; self.w = gen.W(r); self.styles = styles
    def word(self): return self.w.word()
    def words(self, a=1, b=3): return self.w.words(self.r.randint(a, b))
    def note(self, c, v):
        r = self.r; w = self.words
        m = r.choice(['f', 'f', 'f', 'fe', 'x', 'x'])
        call = r.choice(CALL)
        if m in ('f', 'fe'):
            b = r.choice([lambda: f'\\ft {w()}', lambda: f'\\fr {c}:{v} \\ft {w()}', lambda: f'\\fr {c}:{v}: \\fq {w()}: \\ft {w()} \\fqa {w()}\\fqa* {w()}',
                          lambda: f'\\fr {c}.{v} \\fk {w(1,1)} \\ft {w()} \\fv {r.randint(1,9)}\\fv* {w()}', lambda: f'\\fr {c}:{v} \\ft {w()} \\+nd {w(1,1)}\\+nd* {w()}',
                          lambda: f'\\fr {c}:{v} \\fl {w(1,1)} \\ft {w()} - {w()}', lambda: f'\\fr {c}:{v} \\ft {w()}  {w()} / {w()}', lambda: f'\\fr {c}:{v} \\fqa {w()} \\ft {w()} \\fdc {w(1,1)}\\fdc* {w()}', lambda: f'\\fr {c}:{v}\\fr* \\ft {w()}\\ft*'])()
        else:
            t = lambda: r.choice(['Gen', '1Ki', 'Mat', 'Rom']) + f' {r.randint(1,16)}:{r.randint(1,6)}'
            b = r.choice([lambda: f'\\xo {c}:{v} \\xt {t()}', lambda: f'\\xo {c}:{v}: \\xt {t()}; {t()}', lambda: f'\\xt {t()}', lambda: f'\\xo {c}:{v} \\xk {w(1,1)} \\xt {t()}',
                          lambda: f'\\xo {c}:{v} \\xt {t()} \\xta {w()} \\xt {t()}', lambda: f'\\xo {c}:{v} \\xq {w()} \\xt {t()}', lambda: f'\\xo {c}:{v} \\xot {t()}\\xot* \\xnt {t()}\\xnt*'])()
        body = f'{call} {b}'
        held = '+ ' + body[2:] if call == '-' else body
        return P(f'\\{m} {body}\\{m}*', '', '', ({'f': 'fn', 'fe': 'en', 'x': 'xr'}[m], held))
    def fig(self, c, v):
        r = self.r
        b = r.choice([f'{self.words()}|src="f{r.randint(1,9)}.jpg" size="col" ref="{c}:{v}"', f'{self.words(1,1)}|file{r.randint(1,9)}.jpg|col|||{self.words(1,2)}|{c}:{v}', f'|src="x{r.randint(1,99)}.png" size="span" copy="(c) {self.word()}"'])
        return P(f'\\fig {b}\\fig*', '', '', ('fig', b))
    def strong(self): n = self.r.choice('HG') + str(self.r.randint(1, 9999)); return P(f'\\str {n}\\str*', '', '', ('str', n))
    def wfield(self, plus=''):
        """\\w with attributes (held aside right after the word) or without"""
        r = self.r; wd = self.words(1, 2) if r.random() < .2 else self.word(); x = r.random()
        if x < .3:
            return [P(f'\\{plus}w {wd}\\{plus}w*', None, wd)]
        a = r.choice([f'strong="H{r.randint(1,9999):04}"', f'lemma="{self.word()}" strong="G{r.randint(1,999)}"', f'{self.word()}', f'lemma="{self.word()}"', f'x-morph="He,{r.choice("VNAP")}" srcloc="gnt5:{r.randint(1,50)}.1.{r.randint(1,9)}.1"'])
        return [P(f'\\{plus}w {wd}|{a}\\{plus}w*', wd, wd), ('held', P('', '', '', ('ww', f'{wd}|{a}')))]
    def char(self):
        r = self.r; m = r.choice(self.styles); inner = []
        k = r.choice([1, 1, 1, 2])
        for i in range(k):
            x = r.random()
            if i: inner.append(P(' '))
            if x < .6: inner.append(P(self.words()))
            elif x < .75 and m != 'nd':
                n = r.choice(['nd', 'bd', 'it', 'sc']); t = self.words(1, 2); inner.append(P(f'\\+{n} {t}\\+{n}*', None, t))
            elif x < .9: inner += self.wfield('+')
            else: inner.append(P(self.words(1, 1))); inner.append(self.note('1', '1'))
        return [P(f'\\{m} ', None, '')] + inner + [P(f'\\{m}*', None, '')]
    def run(self, c, v, plain=False):
        """list of P, never beginning or ending with whitespace"""
        r = self.r; out = []; n = r.choice([1, 1, 2, 3, 5, 8]) if not plain else 1
        for i in range(n):
            if i: out.append(P(r.choice([' ', ' ', ' ', ' ', '\u00a0', '', '-', ', ', '  ', ' // ', ' /'])))
            x = r.random()
            if plain or x < .4: out.append(P(self.words()))
            elif x < .58: out += self.char()
            elif x < .75: out += self.wfield()
            elif x < .9:
                for _ in range(r.choice([1, 1, 1, 2, 3])): out.append(self.note(c, v))
                if i == 0 : out.append(P(self.words()))
            elif x < .94: out.append(P(self.word())); out.append(self.fig(c, v))
            elif x < .97: out.append(P(self.word())); out.append(self.strong())
            else: d = str(r.randint(2, 99)); out.append(P(f'\\sup {d}\\sup*', None, d)); out.append(P(self.word()))
        s = ''.join((p[1] if isinstance(p, tuple) else p).shown for p in out)
        if not s.strip() or s[-1].isspace(): out.append(P(self.word()))
        return Run(out)

class Run:
    def __init__(self, parts):
        self.usfm = ''; self.adj = ''; self.clean = ''; self.extras = []; self.tokens = []
        for p in parts:
            if isinstance(p, tuple): p = p[1]
            if p.extra: self.extras.append((p.extra[0], len(self.adj), p.extra[1]))
            self.usfm += p.usfm; self.adj += p.shown; self.clean += p.clean
        self.full = self.usfm

PARAS = ['p', 'm', 'pi1', 'q1', 'q2', 'q', 'nb', 'pmo', 'li1', 'mi', 'pc', 'qr', 'qm1', 'pi', 'q3', 'pm', 'cls', 'qc', 'li2', 'ph1', 'pr', 'q4', 'li3', 'li4', 'pi2', 'pi3', 'qm2', 'qm3', 'pmc', 'pmr', 'q3']
def std(m): return {'q': 'q1', 'pi': 'pi1', 's': 's1', 'ph': 'ph1', 'li': 'li1', 'mt': 'mt1', 'qm': 'qm1', 'ms': 'ms1'}.get(m, m)
class RBook:
    """lines: logical USFM lines; items: [(kind, marker, C, V, Run or text, noteRun)] in order, what must be in the book afterwards"""
    def __init__(self, r, bbb, code, num, simple=False):
        """simple: chapters and verses are numbered in the plain way, headings are plain, and only markers of the USFM standard"""
        self.bbb = bbb; self.code = code; self.num = num; I = Inline(r, STYLES if not simple else [x for x in STYLES if x != 'addpn']); paras = PARAS if not simple else [x for x in PARAS if x != 'qc']; self.lines = L = []; self.items = it = []
        L += [f'\\id {code} {I.words(2,2)}', f'\\h {bbb}', f'\\mt1 {I.words(1,2)}']
        for _ in range(r.choice([0, 0, 1, 2])):
            m = r.choice(['ip', 'im', 'is1', 'ipi', 'iq1', 'ili1']); rn = I.run('1', '0', plain=r.random() < .5 or simple); L.append(f'\\{m} {rn.usfm}'); it.append(('intro', m, '-1', '', rn))
        single = bbb in gen.SINGLE
        noC = self.noC = single and not simple and r.random() < .5
        for ci in range(1, 2 if single else r.choice([2, 3, 4])):
            c = str(ci)
            if ci > 1 and r.random() < .15: rn = I.run(c, '0', plain=True); L.append(f'\\ms1 {rn.usfm}'); it.append(('head', 'ms1', str(ci - 1), v, rn))      # (before the chapter number)
            if not noC:
                if not simple and r.random() < .15: n = I.note(c, '0'); L.append(f'\\c {c}{r.choice(["", " "])}{n.usfm}'); it.append(('cnote', 'c', c, '0', Run([n])))
                else: L.append(f'\\c {c}'); it.append(('c', 'c', c, '0', None))
                if not simple and r.random() < .1: L.append(f'\\cp {r.choice("ABCD")}'); it.append(('cp', 'cp', c, '0', L[-1][4:]))
                if r.random() < .3: rn = I.run(c, '0', plain=r.random() < .6 or simple); m = r.choice(['s1', 's', 's2', 'ms1', 'd', 'qa' if not simple else 's3', 'sp' if not simple else 'ms2']); L.append(f'\\{m} {rn.usfm}'); it.append(('head', std(m), c, '0', rn))
            m = r.choice(paras) if not noC else r.choice(['p', 'q1', 'm', 'nb'])
            L.append(f'\\{m}'); it.append(('para', std(m), c, '0', None))
            if noC: it.insert(len(it) - 1, ('c', 'c', c, '0', None))
            k = 1
            for _ in range(r.choice([1, 3, 6, 9])):
                x = r.random()
                v = str(k)
                if x < .08 : v = f'{k}-{k+1}'; k += 1
                elif x < .12 and not noC: v = f'{k}a'
                elif x < .15 and not noC and not simple: v = f'{k}b-{k+1}a'; k += 1
                k += 1
                if r.random() < .2 and len(it) > 1 and not (noC and k < 4) and not (simple and it[-1][0] == 'para'): m = r.choice(paras); L.append(f'\\{m}'); it.append(('para', std(m), c, v, None))
                rn = I.run(c, v); y = r.random()
                if y < .08: n = I.note(c, v); L.append(f'\\v {v}{n.usfm} {rn.usfm}'); it.append(('vnote', 'v', c, v, rn, Run([n])))
                elif y < .14 and not simple: vp = f'{k}{r.choice("abB")}'; L.append(f'\\v {v} \\vp {vp}\\vp* {rn.usfm}'); it.append(('vp', 'v', c, v, rn, vp))
                elif y < .18 and not noC: m = r.choice(paras); L += [f'\\v {v}', f'\\{m} {rn.usfm}']; it.append(('v', 'v', c, v, None)); it.append(('cont', std(m), c, v, rn))
                else: L.append(f'\\v {v} {rn.usfm}'); it.append(('v', 'v', c, v, rn))
                while r.random() < (.4 if simple else .2):
                    rn = I.run(c, v)
                    if r.random() < .25: L.append('\\b'); it.append(('para', 'b', c, v, None))
                    if r.random() < .3 and not (noC and k < 3): h = I.run(c, v, plain=True); L.append(f'\\s1 {h.usfm}'); it.append(('head', 's1', c, v, h))
                    m = r.choice(paras); L.append(f'\\{m} {rn.usfm}'); it.append(('cont', std(m), c, v, rn))
    def layout(self, r):
        """(bytes, how): physical layouts of the same lines"""
        how = []; out = list(self.lines)
        if r.random() < .4:      # several lines on one physical line
            how.append('joined'); new = [out[0], out[1]]
            for a in out[2:]:
                if r.random() < .35 and not new[-1].startswith(('\\id', '\\h', '\\c ', '\\cp')) and not a.startswith(('\\c ', '\\cp')): new[-1] += ' ' + a
                else: new.append(a)
            out = new
        if r.random() < .4:      # continuation lines, in text, notes, styles, headings
            how.append('wrapped'); new = []
            for a in out:
                if a.startswith(('\\id', '\\h', '\\c ')): new.append(a); continue
                m = re.match(r'\\v \S+ |\\\S+ ', a); k = m.end() if m else 0
                spots = [x.start() for x in re.finditer(r'(?<=[^\s]) (?=[^\s\\#]|\\(?!f |addpn ))', a) if x.start() >= k and not re.search(r'\\\+?[a-z]+\d?$', a[:x.start()]) and not re.search(r'\\v \S+$', a[:x.start()])]
                take = sorted(r.sample(spots, min(len(spots), r.choice([0, 1, 1, 2, 4])))); b = 0
                for s in take: new.append(('' if not b else '\0') + a[b:s]); b = s + 1
                new.append(('' if not b else '\0') + a[b:])
            out = new
        if r.random() < .3: how.append('blank-lines'); out = [x for a in out for x in ([a, ''] if r.random() < .2 else [a])]
        if r.random() < .2: how.append('trailing-spaces'); out = [a + ' ' * r.choice([0, 0, 1, 3]) if i + 1 == len(out) or out[i + 1].startswith('\\') else a for i, a in enumerate(out)]
        if r.random() < .1: how.append('comments'); out = [x for a in out for x in ([a, '# ' + a[:3].replace('\\', '')] if r.random() < .1 else [a])]
        out = [a[1:] if a[:1] == '\0' else a for a in out]
        nl = r.choice(['\n', '\n', '\n', '\r\n'])
        if nl != '\n': how.append('crlf')
        data = (nl.join(out) + (nl if r.random() < .9 else '')).replace('\u00a0', '~').encode('utf8')
        if r.random() < .15: how.append('bom'); data = b'\xef\xbb\xbf' + data
        return data, how
    def expected(self):
        """[(marker, C, V, adjusted text, clean text, full text, [extras])] of every entry that holds source text, in order"""
        out = []; pr = lambda m, c, v, rn: out.append((m, c, v, rn.adj, rn.clean, rn.full, rn.extras))
        for x in self.items:
            kind, m, c, v, a = x[:5]
            if kind in ('intro', 'head', 'cnote'): pr('c~' if kind == 'cnote' else m, c, v, a)
            elif kind in ('vp', 'vnote'):      # something directly at the verse number
                u, ex = (f'\\vp {x[5]}\\vp*', [('vp', 0, x[5])]) if kind == 'vp' else (x[5].usfm, x[5].extras)
                out.append(('v~', c, v, ' ' + a.adj, ' ' + a.clean, u + ' ' + a.full, ex + [(t, i + 1, b) for t, i, b in a.extras]))
            elif kind == 'v' and a is not None: pr('v~', c, v, a)
            elif kind == 'cont': pr('qc' if m == 'qc' else 'p~', c, v, a)
        return out

def model(b):
    """What exports of a simple book must hold, in the form of gen's Bibles (for exread.compare)."""
    from types import SimpleNamespace as NS
    vs = []
    for k, m, C, V, a, *rest in b.items:
        if k in ('v', 'vnote', 'vp'):
            n = re.findall(r'\d+', V); vs.append(NS(bbb=b.bbb, c=C, v=V, runs=[], notes=[], first=int(n[0]), last=int(n[-1])))
            if k == 'vnote': vs[-1].notes += rest[0].extras
            if a is not None: vs[-1].runs.append(a)
        elif k == 'cont': vs[-1].runs.append(a)
    for v in vs:
        v.plain = ' '.join(x.clean.strip() for x in v.runs); v.main = gen.tokens(v.plain)
        v.notes = [('\\x ' if t == 'xr' else '\\f ') + body for t, _, body in v.notes + [e for x in v.runs for e in x.extras] if t in ('fn', 'en', 'xr')]
    lines = [l for l in b.lines if l.startswith('\\mt1')] + [f'\\{x[1]} {x[4].usfm}' for x in b.items if x[0] in ('intro', 'head')] + [l for l in b.lines if re.fullmatch(r'\\v \S+', l)]
    return NS(verses=vs, books=[NS(bbb=b.bbb, verses=vs, lines=lines, titles={'h': b.bbb.title()}, chapters=sorted({v.c for v in vs}))])

def load(ctx, r, bbbs=None, simple=False):
    """(RBook, source text, loaded book) of one dense book in a random layout; None if it could not be loaded (C01 reports that)"""
    import os
    from bosv import boot
    b = RBook(r, *r.choice(bbbs or gen.BOOKS), simple); data, how = b.layout(r)
    d = ctx.tmpdir('d')
    with open(os.path.join(d, f'{b.num}{b.code}XYZ.usfm'), 'wb') as f: f.write(data)
    try:
        with boot.quiet(): B = gen.loadUSFM(d)
    finally: ctx.rmtree(d)
    ctx.count('dense-books')
    return b, data.decode('utf8'), B, B.books[b.bbb]

def loaded(items):
    """[(marker, number)] of the lines that were loaded, from the items of a book"""
    out = []
    for it in items:
        k, m, c, v = it[:4]
        out.append(('c', c) if k in ('c', 'cnote') else ('cp', it[4]) if k == 'cp' else ('v', v) if k in ('v', 'vnote', 'vp') else (m, ''))
    return out
ADDED = {'headers', 'intro', 'chapters', 'list', 'ilist', 'iot', 'c#', 'v=', 'v~', 'p~', 'vp#', 'c~', 'id', 'h', 'mt1'}
