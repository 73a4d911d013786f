"""Random Bibles as USFM source, together with a model (ground truth) of what they say.

Every text word that matters carries a unique token  zq????z  (four letters a-p), so that where it ends up can be
observed in any output format: lost, duplicated, moved to another verse, or out of order.
"""
import re, random

TOKEN = re.compile(r'[Zz][Qq]([a-pA-P]{4})[zZ]')
def tokens(s): return [m.group(1).lower() for m in TOKEN.finditer(s)]

FILLER = ['the', 'and', 'of', 'Lord', 'to', 'I', 'a', 'in', 'his', 'David', 'king’s', 'shall', 'un-named', 'Y’all']
UNIWORDS = ['ñame', 'Ἰησοῦς', 'שָׁלוֹם', '神', 'naïve', 'ŋgo', 'bukasən', 'ʻokina', 'œuvre', 'Иисус']
AMPWORDS = ['&', 'R&B', '<', '3>2', 'a<b', '"quoted"', "it's", '100%', 'x_y', '$5', '#7', '*star*', '{brace}', '~'[:0] + '^']
ATWORDS = ('a@b', '@', '@@', '^', 'x^1', '^^')
PUNCT = ['', '', '', '', '', ',', '.', ';', ':', '!', '?', '—', '…', '”', '’']
OPENP = ['', '', '', '', '', '', '“', '‘', '(', '«']

CHARSTYLES = ['add', 'nd', 'wj', 'bk', 'qs', 'it', 'bd', 'em', 'sc', 'tl', 'k', 'qt', 'pn', 'no', 'ord', 'sig', 'dc', 'sls', 'bdit']

class W:
    """Allocates unique tokens."""
    amp = at = False
    def __init__(self, rng, uni=True, filler=True, punct=True, caps=True):
        self.r = rng; self.k = rng.randrange(20000); self.uni = uni; self.filler = filler; self.punct = punct; self.caps = caps
    def tok(self):
        self.k += 1
        k = self.k % 65536; s = ''
        for _ in range(4): s = 'abcdefghijklmnop'[k & 15] + s; k >>= 4
        return s
    def word(self):
        t = 'zq' + self.tok() + 'z'
        if self.caps and self.r.random() < .2: t = t.capitalize()
        if self.uni and self.r.random() < .08: t += self.r.choice(['é', '’s', '-ñ', 'ŋ', 'א'])
        return t
    def words(self, n):
        out = []
        for _ in range(n):
            if self.amp and self.r.random() < .08: out.append(self.r.choice(AMPWORDS))
            if self.at and self.r.random() < .08: out.append(self.r.choice(ATWORDS))
            elif self.filler and self.r.random() < .2: out.append(self.r.choice(FILLER))
            elif self.uni and self.r.random() < .06: out.append(self.r.choice(UNIWORDS))
            else:
                w = self.word()
                if self.punct: w = self.r.choice(OPENP) + w + self.r.choice(PUNCT)
                out.append(w)
        return ' '.join(out)

class Seg:
    """A piece of inline content: kind in text, char, note, xref, fig, w."""
    __slots__ = ('kind', 'marker', 'text', 'parts', 'usfm')
    def __init__(self, kind, usfm, text='', marker='', parts=()):
        self.kind = kind; self.usfm = usfm; self.text = text; self.marker = marker; self.parts = parts

class Piece:
    """One run of text belonging to a verse (or title/heading): a list of Seg."""
    __slots__ = ('segs',)
    def __init__(self, segs): self.segs = segs
    @property
    def usfm(self): return ''.join(s.usfm for s in self.segs)
    @property
    def plain(self):
        """What a reader sees, without notes, figures and character markup."""
        return ''.join(s.text for s in self.segs if s.kind in ('text', 'char', 'w'))
    @property
    def noteUSFM(self): return [s.usfm for s in self.segs if s.kind in ('note', 'xref', 'fig')]

class Verse:
    __slots__ = ('c', 'v', 'pieces', 'bbb', 'paraBreaks')
    def __init__(self, bbb, c, v): self.bbb = bbb; self.c = c; self.v = v; self.pieces = []; self.paraBreaks = []
    @property
    def plain(self): return ' '.join(p.plain for p in self.pieces)
    @property
    def main(self): return tokens(self.plain)
    @property
    def notes(self): return [u for p in self.pieces for u in p.noteUSFM]
    @property
    def first(self): return int(re.match(r'\d+', self.v).group())
    @property
    def last(self): return int(re.findall(r'\d+', self.v)[-1])

class Book:
    def __init__(self, bbb): self.bbb = bbb; self.lines = []; self.verses = []; self.headings = []; self.titles = {}; self.chapters = []; self.intro = []
    @property
    def usfm(self): return '\n'.join(self.lines) + '\n'
    def verse(self, c, v):
        for x in self.verses:
            if x.c == c and x.v == v: return x

ALLFEATS = frozenset('gaps noteonly xoletters char nest notes xrefs figs w poetry lists headings intro bridges suffix d b r uni punct filler nbsp rem ms multip wj edges endnotes sup emptyv moreintro'.split())

class Gen:
    """feats: a set of feature names, so that a format is only driven with what it supports."""
    def __init__(self, rng, feats=ALLFEATS):
        self.r = rng; self.f = set(feats)
        self.w = W(rng, 'uni' in self.f, 'filler' in self.f, 'punct' in self.f)
        self.w.amp = 'amp' in self.f; self.w.at = 'at' in self.f
        self.used = set()
    def has(self, x): return x in self.f
    def p(self, x): return self.r.random() < x

    # -- inline ----------------------------------------------------------
    def noteBody(self, c, v):
        r = self.r; s = ''
        kind = r.random()
        caller = r.choice(['+', '+', '-', 'a'])
        if kind < .3: s = f'\\ft {self.w.words(r.randint(1,4))}'
        elif kind < .7: s = f'\\fr {c}:{v} \\ft {self.w.words(r.randint(1,5))}'
        elif kind < .9: s = f'\\fr {c}:{v} \\fk {self.w.words(1)} \\ft {self.w.words(r.randint(1,3))}'
        else: s = f'\\fr {c}:{v} \\fq {self.w.words(2)} \\ft {self.w.words(r.randint(1,3))}'
        return f'\\f {caller} {s}\\f*'
    def xrefBody(self, c, v):
        r = self.r
        bk = r.choice(['Gen', 'Exo', 'Mat', 'Psa', 'Isa', 'Rom'])
        if self.has('xoletters') and r.random() < .2: # a second reference of the same verse
            return f"\\x {r.choice(['+','-','a'])} \\xo {c}:{v}: a \\xt {bk} {r.randint(1,16)}:{r.randint(1,6)}; \\xo b \\xt {bk} {r.randint(1,16)}:{r.randint(1,6)}.\\x*"
        return f"\\x {r.choice(['+','-','a'])} \\xo {c}:{v} \\xt {bk} {r.randint(1,16)}:{r.randint(1,6)}\\x*"

    def piece(self, c='1', v='1', n=None, notes=True, char=True):
        """A random run of text with inline markup. Never starts or ends with whitespace."""
        r = self.r
        segs = []
        k = n if n is not None else r.choice([1, 1, 1, 2, 3, 4])
        def text(t): segs.append(Seg('text', t.replace('\u00a0', '~'), t))
        start = r.random()
        if self.has('edges') and char and self.has('char') and start < .08:
            inner = self.w.words(r.randint(1, 2)); mk = r.choice(['add', 'nd', 'bk', 'wj'] if self.has('wj') else ['add', 'nd', 'bk'])
            segs.append(Seg('char', f'\\{mk} {inner}\\{mk}*', inner, mk)); text(' ' + self.w.words(r.randint(1, 3)))
        elif self.has('edges') and notes and self.has('notes') and start < .12:
            segs.append(Seg('note', self.noteBody(c, v), marker='f')); text(self.w.words(r.randint(1, 3)))
        else: text(self.w.words(r.randint(1, 5)))
        for _ in range(k - 1):
            x = r.random()
            if self.has('edges') and notes and self.has('notes') and x > .97:   # adjacent notes
                segs.append(Seg('note', self.noteBody(c, v), marker='f')); segs.append(Seg('xref', self.xrefBody(c, v), marker='x'))
                text(' ' + self.w.words(2)); continue
            if self.has('endnotes') and notes and x > .95:
                segs.append(Seg('note', self.noteBody(c, v).replace('\\f ', '\\fe ').replace('\\f*', '\\fe*'), marker='fe')); text(' ' + self.w.words(2)); continue
            if self.has('sup') and x > .93:
                segs.append(Seg('char', f'\\sup {r.randint(1,9)}\\sup*', '', 'sup')); segs[-1].text = segs[-1].usfm[5:-5]; text(' ' + self.w.words(2)); continue
            if char and self.has('char') and x < .35:
                pool = CHARSTYLES if self.has('extrachar') else ['add', 'nd', 'bk', 'it', 'bd', 'em', 'tl', 'qt', 'sc', 'pn', 'no', 'ord']
                if self.has('charpool'): pool = self.charpool
                if self.has('wj') and r.random() < .25: pool = ['wj']
                m = r.choice(pool)
                inner = self.w.words(r.randint(1, 3))
                if self.has('nest') and r.random() < .15 and m != 'nd':
                    i2 = self.w.words(1)
                    u = f'\\{m} {inner} \\+nd {i2}\\+nd*\\{m}*'; t = f'{inner} {i2}'
                else: u = f'\\{m} {inner}\\{m}*'; t = inner
                sp = ' '
                text(sp); segs.append(Seg('char', u, t, m)); text(r.choice([' ', ' ', ', ', '. ']) + self.w.words(r.randint(1, 4)))
            elif notes and self.has('notes') and x < .5:
                segs.append(Seg('note', self.noteBody(c, v), marker='f')); text(' ' + self.w.words(r.randint(1, 4)))
            elif notes and self.has('xrefs') and x < .62:
                segs.append(Seg('xref', self.xrefBody(c, v), marker='x')); text(' ' + self.w.words(r.randint(1, 4)))
            elif notes and self.has('figs') and x < .66:
                segs.append(Seg('fig', f'\\fig {self.w.words(2)}|src="f{r.randint(1,9)}.jpg" size="col" ref="{c}:{v}"\\fig*', marker='fig')); text(' ' + self.w.words(r.randint(1, 3)))
            elif self.has('w') and x < .76:
                wd = self.w.word(); text(' ')
                segs.append(Seg('w', f'\\w {wd}|lemma="l{r.randint(1,99)}" strong="H{r.randint(1,9999):04}"\\w*', wd, 'w')); text(' ' + self.w.words(r.randint(1, 3)))
            elif self.has('nbsp') and x < .82:
                text('\u00a0' + self.w.words(r.randint(1, 3)))
            else: text(' ' + self.w.words(r.randint(1, 3)))
        if notes and self.has('notes') and r.random() < .06: segs.append(Seg('note', self.noteBody(c, v), marker='f'))
        return Piece(segs)

    # -- a book ------------------------------------------------------------
    def book(self, bbb, usfmCode, chapters=None, maxVerses=6, name=None):
        r = self.r; b = Book(bbb)
        L = b.lines
        name = name or bbb.title()
        L.append(f'\\id {usfmCode} Test {self.w.words(1)}')
        if r.random() < .6: L.append('\\usfm 3.0')
        if r.random() < .6: L.append('\\ide UTF-8')
        def title(m, t): b.titles[m] = t; L.append(f'\\{m} {t}')
        title('h', name)
        if r.random() < .9 or self.has('alltoc'):
            title('toc1', f'The Book of {name}'); title('toc2', name); title('toc3', bbb.title())
        title('mt1', f'{name} {self.w.words(1)}')
        if self.has('intro') and r.random() < .5:
            for m in r.choice([['is1', 'ip'], ['ip'], ['is1', 'ip', 'ip'], ['is1', 'ip', 'iot', 'io1', 'io1'], ['imt1', 'ip']] + ([['imt1', 'im', 'ipi'], ['is1', 'ili1', 'ili2', 'ip'], ['is1', 'iq1', 'iq2', 'imi'], ['is1', 'is2', 'ipq', 'imq', 'iot', 'io1', 'io2']] if self.has('moreintro') else [])):
                pc = self.piece('1', '0', 1, notes=False, char=False)
                L.append(f'\\{m} {pc.usfm}'); b.intro.append((m, pc))
        nC = chapters if isinstance(chapters, int) else r.choice([1, 2, 2, 3])
        para = ['p', 'm', 'pi1', 'p', 'p', 'pmo', 'nb'] if self.has('multip') else ['p']
        numbers = range(1, nC + 1)
        if self.has('gaps') and nC > 1 and (r.random() < .3 or self.has('ends')): numbers = [12, 13] if bbb == 'REV' else [118, 119] if bbb == 'PSA' and nC == 2 else [9, 10] if nC == 2 and bbb in TEN and r.random() < .35 else [] if self.has('bare') and r.random() < .2 else sorted(r.sample(range(1, nC + 2), nC - 1))
        for ci in numbers:
            c = str(ci); b.chapters.append(c)
            L.append(f'\\c {c}')
            nV = r.randint(1, maxVerses)
            vs = []
            k = 1
            if self.has('gaps') and (bbb, ci) in (('REV', 12), ('JN3', 1), ('PSA', 119)): k = {'REV': 15, 'JN3': 12, 'PSA': 172}[bbb]; nV = k + (4 if bbb == 'PSA' else 3)   # (here the numbering of the King James Bible has one verse less; the last verses of its longest chapter)
            elif self.has('gaps') and r.random() < .06: k = 8; nV = 11
            while k <= nV:
                if self.has('gaps') and r.random() < .1 and (vs or k < nV - 2 or self.has('bare')): k += r.choice([1, 1, 2]); continue
                if self.has('bridges') and r.random() < .12 and k < nV:
                    e = min(nV, k + r.choice([1, 1, 2])); vs.append(f'{k}-{e}'); k = e + 1
                elif self.has('suffix') and r.random() < .06: vs += [f'{k}a', f'{k}b']; k += 1
                else: vs.append(str(k)); k += 1
            needPara = True; first = True; inPoetry = False
            for vi, v in enumerate(vs):
                if self.has('headings') and (r.random() < (.5 if first else .15)) and 'a' not in v and 'b' not in v:
                    if self.has('ms') and r.random() < .1:
                        pc = self.piece(c, v, 1, notes=False, char=False); L.append(f'\\ms1 {pc.usfm}'); b.headings.append((c, v, 'ms1', pc))
                    pc = self.piece(c, v, 1, notes=False, char=False)
                    m = r.choice(['s1', 's1', 's', 's2']); L.append(f'\\{m} {pc.usfm}'); b.headings.append((c, v, m, pc)); needPara = True
                    if self.has('moreheads') and r.random() < .15:
                        for mk in r.choice([['sr'], ['mr'], ['sr', 'mr']]):
                            pc = self.piece(c, v, 1, notes=False, char=False); L.append(f'\\{mk} {pc.usfm}'); b.headings.append((c, v, mk, pc))
                    if self.has('r') and r.random() < .3: L.append(f'\\r (Mark {r.randint(1,9)}:{r.randint(1,9)})')
                if first and self.has('d') and bbb == 'PSA' and r.random() < .6:
                    pc = self.piece(c, '0', 1, notes=False, char=False); L.append(f'\\d {pc.usfm}'); b.headings.append((c, '0', 'd', pc)); needPara = True
                if self.has('moreheads') and inPoetry and r.random() < .1:
                    pc = self.piece(c, v, 1, notes=False, char=False); L.append(f'\\qa {pc.usfm}'); b.headings.append((c, v, 'qa', pc)); needPara = True
                first = False
                if needPara or r.random() < .35:
                    inPoetry = self.has('poetry') and r.random() < .35
                    L.append('\\' + ('q1' if inPoetry else r.choice(para))); needPara = False
                vo = Verse(bbb, c, v); b.verses.append(vo)
                pc = self.piece(c, v); vo.pieces.append(pc)
                if self.has('noteonly') and r.random() < .04: pc.segs = [Seg('note', self.noteBody(c, v), marker='f')]   # a verse which is left out in this translation
                if self.has('emptyv') and r.random() < .05:   # the verse number on a line of its own, the text in the next paragraph
                    m = 'q1' if inPoetry else r.choice(para); vo.paraBreaks.append(m)
                    L.append(f'\\v {v}'); L.append(f'\\{m} {pc.usfm}')
                else: L.append(f'\\v {v} {pc.usfm}')
                while r.random() < (.45 if inPoetry else .12):
                    x = r.random()
                    if inPoetry: m = r.choice(['q1', 'q2', 'q2'])
                    elif self.has('lists') and x < .3: m = r.choice(['li1', 'li2', 'li1'])
                    elif self.has('headings') and x < .5:
                        hp = self.piece(c, v, 1, notes=False, char=False); L.append(f'\\s1 {hp.usfm}'); b.headings.append((c, v, 's1', hp)); m = r.choice(para)
                    else: m = r.choice(para)
                    if self.has('b') and r.random() < .2: L.append('\\b')
                    pc = self.piece(c, v); vo.pieces.append(pc); vo.paraBreaks.append(m)
                    L.append(f'\\{m} {pc.usfm}')
                    if m.startswith('li'): needPara = True
            if self.has('rem') and r.random() < .1: L.append(f'\\rem {self.w.words(2)}')
        return b

BOOKS = [('GEN', 'GEN', '01'), ('EXO', 'EXO', '02'), ('RUT', 'RUT', '08'), ('JOB', 'JOB', '18'), ('PSA', 'PSA', '19'), ('OBA', 'OBA', '31'), ('MAL', 'MAL', '39'),
         ('MAT', 'MAT', '41'), ('MRK', 'MRK', '42'), ('JHN', 'JHN', '44'), ('ROM', 'ROM', '46'), ('PHM', 'PHM', '58'), ('JN3', '3JN', '65'), ('JDE', 'JUD', '66'), ('REV', 'REV', '67')]
NAMES = {'GEN': 'Genesis', 'EXO': 'Exodus', 'RUT': 'Ruth', 'PSA': 'Psalms', 'JOB': 'Job', 'OBA': 'Obadiah', 'MAL': 'Malachi', 'MAT': 'Matthew', 'MRK': 'Mark',
         'JHN': 'John', 'ROM': 'Romans', 'PHM': 'Philemon', 'JN3': '3 John', 'JDE': 'Jude', 'REV': 'Revelation'}
# (code here, code in USFM, number in USFM)
ALL66 = [(b, u or b, f'{n + 1 if n < 39 else n + 2:02}') for n, (b, u) in enumerate((x.split('/') + [''])[:2] for x in """GEN EXO LEV NUM DEU JOS JDG RUT SA1/1SA SA2/2SA KI1/1KI KI2/2KI CH1/1CH CH2/2CH
EZR NEH EST JOB PSA PRO ECC SNG ISA JER LAM EZE/EZK DAN HOS JOL AMO OBA JNA/JON MIC NAH/NAM HAB ZEP HAG ZEC MAL MAT MRK LUK JHN ACT ROM CO1/1CO CO2/2CO GAL EPH PHP COL TH1/1TH TH2/2TH TI1/1TI TI2/2TI
TIT PHM HEB JAM/JAS PE1/1PE PE2/2PE JN1/1JN JN2/2JN JN3/3JN JDE/JUD REV""".split())]
assert all(b in ALL66 for b in BOOKS) and len(ALL66) == 66
SINGLE = {'OBA', 'PHM', 'JN2', 'JN3', 'JDE'}

TEN = {'GEN', 'EXO', 'JOB', 'MAT', 'MRK', 'JHN', 'ROM', 'REV'}     # (some that have more than nine chapters)

class BibleModel:
    def __init__(self): self.books = []
    def get(self, bbb):
        for b in self.books:
            if b.bbb == bbb: return b
    @property
    def verses(self): return [v for b in self.books for v in b.verses]

def bible(rng, feats=ALLFEATS, nBooks=None, maxVerses=6, pool=None, chapters=None):
    g = Gen(rng, feats)
    pool = pool or BOOKS
    n = nBooks or rng.choice([1, 2, 2, 3])
    chosen = sorted(rng.sample(range(len(pool)), min(n, len(pool))))
    m = BibleModel()
    for i in chosen:
        bbb, code, num = pool[i]
        m.books.append(g.book(bbb, code, chapters=1 if bbb in SINGLE else chapters, maxVerses=maxVerses, name=NAMES.get(bbb)))
    m.pool = {b[0]: b for b in pool}
    return m

def writeUSFM(model, folder, name='XYZ'):
    import os
    os.makedirs(folder, exist_ok=True)
    for b in model.books:
        bbb, code, num = model.pool[b.bbb]
        with open(os.path.join(folder, f'{num}{code}{name}.usfm'), 'wt', encoding='utf8') as f: f.write(b.usfm)

def loadUSFM(folder, name='XYZ'):
    from bosv import boot
    from BibleOrgSys.Formats.USFMBible import USFMBible
    B = USFMBible(folder, name, name); B.preload(); B.loadBooks()
    return B

def loadUSFMq(folder, name='XYZ'):
    from bosv import boot
    with boot.quiet(): return loadUSFM(folder, name)
