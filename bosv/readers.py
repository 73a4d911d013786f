"""Independent readers of the formats the exporters write.

Each reader takes the folder an exporter wrote to and returns a Reading: for each verse, as its number is printed there,
the plain text (markup and notes removed) and the text of its notes; headings and introductions are kept apart.
None of them uses code of BibleOrgSys.
"""
import os, re, glob, html, sqlite3, json, zlib
import xml.etree.ElementTree as ET
from bosv import gen

ORDER = ('GEN EXO LEV NUM DEU JOS JDG RUT SA1 SA2 KI1 KI2 CH1 CH2 EZR NEH EST JOB PSA PRO ECC SNG ISA JER LAM EZE DAN HOS JOL AMO OBA JNA MIC NAH HAB ZEP HAG ZEC MAL '
         'MAT MRK LUK JHN ACT ROM CO1 CO2 GAL EPH PHP COL TH1 TH2 TI1 TI2 TIT PHM HEB JAM PE1 PE2 JN1 JN2 JN3 JDE REV').split()
OSIS = {'GEN': 'Gen', 'EXO': 'Exod', 'RUT': 'Ruth', 'JOB': 'Job', 'PSA': 'Ps', 'OBA': 'Obad', 'MAL': 'Mal', 'MAT': 'Matt', 'MRK': 'Mark', 'JHN': 'John', 'ROM': 'Rom', 'PHM': 'Phlm',
        'JN3': '3John', 'JDE': 'Jude', 'REV': 'Rev'}
FORGE = {'GEN': 'Ge', 'EXO': 'Ex', 'RUT': 'Ru', 'JOB': 'Job', 'PSA': 'Ps', 'OBA': 'Ob', 'MAL': 'Mal', 'MAT': 'Mt', 'MRK': 'Mr', 'JHN': 'Joh', 'ROM': 'Ro', 'PHM': 'Phm',
        'JN3': '3Jo', 'JDE': 'Jude', 'REV': 'Re'}
MYBIBLE = [10, 20, 30, 40, 50, 60, 70, 80, 90, 100, 110, 120, 130, 140, 150, 160, 190, 220, 230, 240, 250, 260, 290, 300, 310, 330, 340, 350, 360, 370, 380, 390, 400, 410, 420, 430, 440, 450, 460,
        470, 480, 490, 500, 510, 520, 530, 540, 550, 560, 570, 580, 590, 600, 610, 620, 630, 640, 650, 660, 670, 680, 690, 700, 710, 720, 730]
NUM = {b: i + 1 for i, b in enumerate(ORDER)}
BOOK = {v: k for k, v in NUM.items()}

ENG_OSIS = dict(zip(ORDER, 'Gen Exod Lev Num Deut Josh Judg Ruth 1Sam 2Sam 1Kgs 2Kgs 1Chr 2Chr Ezra Neh Esth Job Ps Prov Eccl Song Isa Jer Lam Ezek Dan Hos Joel Amos Obad Jonah Mic Nah Hab Zeph Hag Zech Mal Matt Mark Luke John Acts Rom 1Cor 2Cor Gal Eph Phil Col 1Thess 2Thess 1Tim 2Tim Titus Phlm Heb Jas 1Pet 2Pet 1John 2John 3John Jude Rev'.split()))
ENG_USFM = dict(zip(ORDER, 'GEN EXO LEV NUM DEU JOS JDG RUT 1SA 2SA 1KI 2KI 1CH 2CH EZR NEH EST JOB PSA PRO ECC SNG ISA JER LAM EZK DAN HOS JOL AMO OBA JON MIC NAM HAB ZEP HAG ZEC MAL MAT MRK LUK JHN ACT ROM 1CO 2CO GAL EPH PHP COL 1TH 2TH 1TI 2TI TIT PHM HEB JAS 1PE 2PE 1JN 2JN 3JN JUD REV'.split()))
ENG_FORGE = dict(zip(ORDER, 'Ge Ex Le Nu De Jos Jg Ru 1Sa 2Sa 1Ki 2Ki 1Ch 2Ch Ezr Ne Es Job Ps Pr Ec Song Isa Jer La Eze Da Ho Joe Am Ob Jon Mic Na Hab Zep Hag Zec Mal Mt Mr Lu Joh Ac Ro 1Co 2Co Ga Eph Php Col 1Th 2Th 1Ti 2Ti Tit Phm Heb Jas 1Pe 2Pe 1Jo 2Jo 3Jo Jude Re'.split()))

OSIS = {**ENG_OSIS, **OSIS}; FORGE = {**ENG_FORGE, **FORGE}

class Reading:
    def __init__(self): self.verses = []; self.text = {}; self.notes = {}; self.heads = []; self.problems = []; self.books = []; self.shown = {}
    def verse(self, b, c, v):
        k = (b, str(c), str(v))
        if k in self.text: self.problems.append(('verse twice', k))
        else: self.text[k] = ''; self.notes[k] = []; self.verses.append(k)
        return k
    def add(self, k, s):
        if k is None:
            if s.strip(): self.problems.append(('text outside verses', s))
        else: self.text[k] += s
    def note(self, k, s):
        if k is None: self.problems.append(('note outside verses', s))
        else: self.notes[k].append(s)

def only(folder, pattern):
    fs = sorted(glob.glob(os.path.join(folder, pattern)))
    if len(fs) != 1: raise ValueError(f'{pattern}: {[os.path.basename(x) for x in fs]}')
    return fs[0]
def slurp(fn):
    with open(fn, encoding='utf-8-sig', newline='') as f: return f.read()

HEADTAGS = re.compile(r'^(usfm|id|ide|h|toc\d|mt\d?|is\d?|ip|iot|io\d?|im|imi|ipi|ipq|imq|imt\d?|ili\d?|iq\d?|ms\d?|s\d?|r|d|rem|mr|sr|sp|qa|cl)$')

def usfx(folder):
    R = Reading(); root = ET.parse(only(folder, '*.usfx')).getroot()
    for book in root.findall('book'):
        b = gen_code(book.attrib['id']); R.books.append(b); st = {'k': None, 'c': None}
        def walk(e):
            t = e.tag
            if t == 'c': st['c'] = e.attrib['id']; st['k'] = None
            elif t == 'v': st['k'] = R.verse(b, st['c'], e.attrib['id'])
            elif t in ('f', 'x', 'fe'): R.note(st['k'], ''.join(e.itertext()))
            elif HEADTAGS.match(t): R.heads.append((b, t, ''.join(e.itertext())))
            else:
                gap = t not in ('char', 'sup', 'book') and st['k']
                if gap: R.add(st['k'], ' ')
                if e.text and (st['k'] or e.text.strip()): R.add(st['k'], e.text)
                for x in e: walk(x)
                if gap: R.add(st['k'], ' ')
            if e.tail and e is not book and (st['k'] or e.tail.strip()): R.add(st['k'], e.tail)
        walk(book)
    return R

CODES = {**{v: k for k, v in ENG_USFM.items()}, **{code: bbb for bbb, code, num in gen.BOOKS}}
def gen_code(x): return CODES.get(x, x)

def osis(folder):
    R = Reading()
    N = '{http://www.bibletechnologies.net/2003/OSIS/namespace}'
    inv = {v: k for k, v in OSIS.items()}
    for fn in sorted(glob.glob(folder + '/*.osis'), key=lambda f: ORDER.index(f[-8:-5])):
        root = ET.parse(fn).getroot()
        div = root.find(f'{N}osisText/{N}div'); b = inv[div.attrib['osisID']]; R.books.append(b)
        st = {'k': None, 'sid': None, 'cid': None}
        def walk(e):
            t = e.tag.replace(N, '')
            if t == 'chapter':
                if 'sID' in e.attrib:
                    if st['cid']: R.problems.append(('chapter left open', st['cid']))
                    st['cid'] = e.attrib['sID']
                elif e.attrib['eID'] != st['cid']: R.problems.append(('chapter end', e.attrib, st['cid']))
                else: st['cid'] = None
            elif t == 'verse':
                if 'sID' in e.attrib:
                    if st['sid']: R.problems.append(('verse left open', st['sid']))
                    st['sid'] = e.attrib['sID']; ids = e.attrib['osisID'].split(' ')
                    p = [i.split('.') for i in ids]
                    if any(x[0] != OSIS[b] or x[1] != p[0][1] for x in p): R.problems.append(('osisID', ids))
                    if st['cid'] != '.'.join(p[0][:2]): R.problems.append(('verse in the wrong chapter', ids, st['cid']))
                    st['k'] = R.verse(b, p[0][1], p[0][2] if len(p) == 1 else p[0][2] + '-' + p[-1][2])
                elif e.attrib['eID'] != st['sid']: R.problems.append(('verse end', e.attrib, st['sid']))
                else: st['sid'] = st['k'] = None
            elif t == 'note': R.note(st['k'], ''.join(e.itertext()))
            elif t in ('title', 'speaker') or (t == 'div' and e.attrib.get('type') == 'introduction'): R.heads.append((b, t, ''.join(e.itertext())))
            else:
                if e.text and (st['k'] or e.text.strip()): R.add(st['k'], e.text)
                for x in e: walk(x)
            if e.tail and e is not div and (st['k'] or e.tail.strip()): R.add(st['k'], e.tail)
        walk(div)
        if st['sid'] or st['cid']: R.problems.append(('left open at the end', st))
    return R

def zefania(folder, pattern='*.zef', V='VERS'):
    R = Reading(); root = ET.parse(only(folder, pattern)).getroot()
    for book in root.findall('BIBLEBOOK'):
        b = BOOK.get(int(book.attrib['bnumber'])); R.books.append(b)
        for ch in book.iter('CHAPTER'):
            c = ch.attrib['cnumber']; k = None
            for e in ch.iter(V):
                n = e.attrib.get('vnumber')
                if n:
                    if 'enumber' in e.attrib: n += '-' + e.attrib['enumber']
                    k = R.verse(b, c, n)
                else: R.add(k, ' ')
                def walk(x):
                    if x.tag in ('NOTE', 'XREF'): R.note(k, ''.join(x.itertext()))
                    else:
                        R.add(k, x.text or '')
                        for y in x: walk(y)
                    if x is not e: R.add(k, x.tail or '')
                walk(e)
    return R
def haggai(folder): return zefania(folder, '*.hag', 'VERSE')

def opensong(folder, names):
    R = Reading(); root = ET.parse(only(folder, '*.osong')).getroot()
    inv = {v: k for k, v in names.items()}
    for book in root.findall('b'):
        b = inv.get(book.attrib['n'], book.attrib['n']); R.books.append(b)
        for ch in book.findall('c'):
            for e in ch.findall('v'):
                if len(e): R.problems.append(('markup in verse', ET.tostring(e)))
                R.add(R.verse(b, ch.attrib['n'], e.attrib['n']), e.text or '')
    return R

# -- modules with one record per verse ------------------------------------
def TW(R, k, s, notes=True):
    """theWord / MySword markup."""
    for x in re.findall(r'<TS\d?>(.*?)<Ts>', s): R.heads.append((k[0], 'TS', x))
    s = re.sub(r'<TS\d?>.*?<Ts>', ' ', s)
    for x in re.finditer(r'<RF[^>]*>(.*?)<Rf>|<RX ([^>]*)>', s): R.note(k, x[1] if x[2] is None else x[2])
    s = re.sub(r'<RF[^>]*>.*?<Rf>', '', s); s = re.sub(r'<RX [^>]*>', '', s)
    R.shown.setdefault(k, []).extend(re.findall(r'<sup>\(([\dab-]+)\)</sup>', s))
    s = re.sub(r'<sup>\(([\dab-]+)\)</sup>', '', s)
    s = re.sub(r'<(CM|CI|CL|PI\d?|PF\d?|P[IF]?\d?)>', ' ', s)
    s = re.sub(r'<(F[IORi]|Fi|Fo|Fr|FO|FR|/?[biu]|/?font[^>]*|/?sup|/?sub|/?strong|/?em)>', '', s)
    return s.replace('•', ' ')

def theword(folder, counts):
    """counts: {BBB: [verses in chapter 1, ...]} for the books of the testament(s) of the file."""
    R = Reading(); fn = [f for f in glob.glob(folder + '/*') if f.endswith(('.nt', '.ot', '.ont'))]
    if len(fn) != 1: raise ValueError(f'{fn}')
    ext = fn[0].rsplit('.', 1)[1]
    books = {'ot': ORDER[:39], 'nt': ORDER[39:], 'ont': ORDER}[ext]
    want = [(b, c + 1, v + 1) for b in books for c, n in enumerate(counts[b]) for v in range(n)]
    lines = slurp(fn[0]).replace('\r\n', '\n').split('\n')
    if len(lines) < len(want): R.problems.append(('too few lines', len(lines), len(want)))
    for (b, c, v), l in zip(want, lines):
        k = R.verse(b, c, v); s = TW(R, k, l)
        R.add(k, '' if s.strip() == '(-)' else s)
    R.rest = lines[len(want):]; R.raw = lines; R.ext = ext
    return R

def sqlrows(fn, q):
    db = sqlite3.connect(fn)
    try: return db.execute(q).fetchall()
    finally: db.close()

def mysword(folder):
    R = Reading()
    for b, c, v, s in sqlrows(only(folder, '*.mybible'), 'select Book,Chapter,Verse,Scripture from Bible order by rowid'):
        k = R.verse(BOOK[b], c, v); R.add(k, TW(R, k, s))
    return R

def esword(folder):
    R = Reading()
    for b, c, v, s in sqlrows(only(folder, '*.bblx'), 'select Book,Chapter,Verse,Scripture from Bible order by rowid'):
        k = R.verse(BOOK[b], c, v)
        for x in re.findall(r'\\b\\i\\f0 (.*?)\\cf0\\b0\\i0', s): R.heads.append((k[0], 's', x))
        s = re.sub(r'\\b\\i\\f0 .*?\\cf0\\b0\\i0', ' ', s)
        s = re.sub(r'\\line ?', ' ', s); s = re.sub(r'\\(cf\d+|i0|b0|f\d|[ib](?![a-z0-9])) ?', '', s)
        R.add(k, TW(R, k, s))
    return R

def mybible(folder):
    R = Reading()
    for b, c, v, s in sqlrows(only(folder, '*.SQLite3'), 'select book_number,chapter,verse,text from verses order by rowid'):
        k = R.verse(ORDER[MYBIBLE.index(b)], c, v)
        for x in re.findall(r'<t>(.*?)</t>', s): R.heads.append((k[0], 't', x))
        s = re.sub(r'<t>.*?</t>', ' ', s)
        for x in re.findall(r'<n>(.*?)</n>', s): R.note(k, x)
        s = re.sub(r'<n>.*?</n>', '', s)
        R.shown.setdefault(k, []).extend(re.findall(r'<sup>\(([\dab-]+)\)</sup>', s)); s = re.sub(r'<sup>\(([\dab-]+)\)</sup>', '', s)
        s = re.sub(r'<(pb|br)/>', ' ', s); s = re.sub(r'<S>[HG]?\d+</S>', '', s); s = re.sub(r'</?(i|b|J|e|sup|font[^>]*)>', '', s)
        R.add(k, s.replace('•', ' '))
    return R

# -- one line per verse ----------------------------------------------------
def swordsearcher(folder, pattern='*.txt', code=FORGE):
    R = Reading(); inv = {v: k for k, v in code.items()}
    def place(fn):
        x = os.path.basename(fn)[:-4].split('-')[-1]; x = inv.get(x, x)
        return ORDER.index(x) if x in ORDER else -1
    for fn in sorted(glob.glob(os.path.join(folder, pattern)), key=place):
        k = None
        for l in slurp(fn).split('\n'):
            l = l.rstrip('\r')
            if l.startswith(';'): continue
            m = re.fullmatch(r'\$\$ (\w+) (\d+):([\d\-ab]+)', l)
            if m: k = R.verse(inv.get(m.group(1), m.group(1)), m.group(2), m.group(3))
            elif l.startswith('$$'): R.problems.append(('reference', l))
            else: R.add(k, l.lstrip('¶') + ' ' if l else '')
    return R
def forge(folder): return swordsearcher(os.path.join(folder, 'Forge'), 'BOS*.txt')

def drupal(folder):
    """Verses are numbered by the first verse of a bridge; the parts of a split verse have a line each. <> marks added text."""
    R = Reading(); part = None; R.counts = {}; from bosv import plain; inv = {v: k for k, v in plain.DRUPAL.items()}; code = lambda x: inv.get(x, x)
    for l in slurp(only(folder, '*.txt')).split('\n'):
        l = l.rstrip('\r')
        if l.startswith('*'): part = l; continue
        if l.startswith('#') or not l: continue
        f = l.split('|')
        if part == '*Chapter': R.counts[code(f[0])] = int(f[3]); R.books.append(code(f[0]))
        if part == '*Context':
            if len(f) != 5: R.problems.append(('fields', l)); continue
            k = (code(f[0]), f[1], f[2])
            if R.verses and R.verses[-1] == k: R.add(k, ' ')
            else: R.verse(*k)
            R.add(k, f[4].replace('<', '').replace('>', ''))
    return R

def text(folder):
    R = Reading()
    for fn in sorted(glob.glob(folder + '/*.txt'), key=lambda f: ORDER.index(f[-7:-4])):
        b = fn[-7:-4]; R.books.append(b); c = None; k = None
        for l in slurp(fn).split('\n'):
            m = re.fullmatch(r'Chapter (\d+)', l)
            if m: c = m.group(1); k = None; continue
            m = re.match(r'(\d+(?:-\d+)?[ab]?) (.*)$', l) if c else None
            if m: k = R.verse(b, c, m.group(1)); R.add(k, m.group(2)); continue
            if k is None: R.heads.append((b, '', l))
            else: R.add(k, ' ' + l)
    return R

# -- formats for reading ----------------------------------------------------
from html.parser import HTMLParser
VOID = {'meta', 'link', 'img', 'br', 'hr', 'input', 'wbr'}
class _Page(HTMLParser):
    """Reads one page into a tree of [tag, attributes, children], reporting tags that do not match."""
    def __init__(self):
        super().__init__(convert_charrefs=True); self.root = ['', {}, []]; self.stack = [self.root]; self.problems = []
    def handle_starttag(self, tag, attrs):
        e = [tag, dict(attrs), []]; self.stack[-1][2].append(e)
        if tag in ('p', 'h1', 'h2', 'h3', 'div', 'section') and any(x[0] == 'p' for x in self.stack): self.problems.append(('inside a paragraph', tag, [x[0] for x in self.stack]))
        if tag not in VOID: self.stack.append(e)
    def handle_startendtag(self, tag, attrs): self.stack[-1][2].append([tag, dict(attrs), []])
    def handle_endtag(self, tag):
        if len(self.stack) < 2 or self.stack[-1][0] != tag: self.problems.append(('tags do not match', tag, [x[0] for x in self.stack]))
        else: self.stack.pop()
    def handle_data(self, s): self.stack[-1][2].append(s)
def page(s):
    """The tree of an HTML page, with the list of problems of its markup."""
    p = _Page(); p.feed(s); p.close()
    p.problems += [('not escaped', x) for x in re.findall(r'&(?!#\d+;|#x[0-9a-fA-F]+;|\w+;).{0,20}', s)]
    if len(p.stack) > 1: p.problems.append(('left open', [x[0] for x in p.stack]))
    return p.root, p.problems
def alltext(e): return ''.join(x if isinstance(x, str) else alltext(x) for x in e[2])
def allnodes(e):
    for x in e[2]:
        if not isinstance(x, str): yield x; yield from allnodes(x)

def html5(folder):
    R = Reading(); R.titles = {}; R.chapters = []
    site = os.path.join(folder, 'Website'); pages = {}
    for fn in sorted(glob.glob(site + '/*.html')):
        name = os.path.basename(fn); root, prob = page(slurp(fn)); pages[name] = root
        R.problems += [(p[0], name) + p[1:] for p in prob]
    ids = {n: [x[1]['id'] for x in allnodes(p) if 'id' in x[1]] for n, p in pages.items()}
    for n, p in pages.items():
        for i in set(ids[n]):
            if ids[n].count(i) > 1: R.problems.append(('id twice', n, i))
        for x in allnodes(p):
            h = x[1].get('href')
            if not h or x[0] == 'link' or h.startswith('http'): continue
            f, _, frag = h.partition('#'); f = f or n
            if f not in pages: R.problems.append(('link to no page', n, h))
            elif frag and frag not in ids[f] and x[1].get('class') not in ('sectionCrossReferenceLink', 'CVReference'): R.problems.append(('link to no place', n, h))
    R.pages = pages
    books = [n for n in pages if n[:-5] in NUM]
    for name in sorted(books, key=lambda n: NUM[n[:-5]]):
        b = name[:-5]; R.books.append(b); st = {'k': None, 'c': None, 'num': None}
        byid = {}
        for e in allnodes(pages[name]):
            if 'id' in e[1]: byid[e[1]['id']] = e
        used = []
        def walk(e):
            t, a, kids = e; cl = a.get('class', '')
            if t in ('header', 'nav', 'footer', 'head'): return
            if t == 'div' and any(not isinstance(x, str) and x[1].get('class') in ('footnotesHeader', 'endnotesHeader', 'xrefsHeader') for x in kids): return
            if t in ('h1', 'h2', 'h3', 'h4', 'h5') or (t == 'p' and re.match(r'introduction|sectionCrossReference|sectionReferenceRange|majorSectionReferenceRange|speaker|acrosticHeading|descriptiveTitle|outline', cl)) or cl.startswith(('introduction', 'outline')):
                R.heads.append((b, cl, alltext(e))); return
            if t == 'span' and cl == 'chapterNumber':
                st['c'] = alltext(e).strip(); st['k'] = None; R.chapters.append((b, st['c']))
                if a.get('id') != 'CT' + st['c']: R.problems.append(('chapter id', b, a, st['c']))
                return
            if cl in ('verseNumber', 'verseOneNumber'):
                if st['k'] is None or alltext(e) != st['k'][2]: R.problems.append(('verse number', b, alltext(e), st['k']))
                return
            if re.match(r'(verse(One)?Number|verseOne|verse|chapterNumber)(Pre|Post)space|chapterStart', cl): return
            if t == 'span' and cl == 'verse' and 'id' in a:
                m = re.fullmatch(r'C(\d+)V(.*)', a['id'])
                if not m: R.problems.append(('verse id', a))
                else: st['k'] = R.verse(b, m.group(1), m.group(2))
            if t == 'a' and cl.endswith('LinkSymbol'):
                i = a['href'][1:]; used.append(i)
                n = byid.get(i)
                if n is None: return
                entry = [x for x in allnodes(n) if x[1].get('class', '').endswith('Entry')]
                if len(entry) != 1: R.problems.append(('note entry', b, i))
                else: R.note(st['k'], alltext(entry[0]))
                back = [x[1].get('href') for x in allnodes(n) if x[1].get('class', '').endswith('Origin')]
                if st['k'] and any(x != f'#C{st["k"][1]}V{st["k"][2]}' for x in back): R.problems.append(('note goes back elsewhere', b, back, st['k']))
                return
            if t in ('p', 'ul', 'li', 'div', 'section') and st['k']: R.add(st['k'], ' ')
            for x in kids:
                if isinstance(x, str):
                    if st['k'] or x.strip(): R.add(st['k'], x)
                else: walk(x)
            if t in ('p', 'ul', 'li', 'div', 'section') and st['k']: R.add(st['k'], ' ')
        body = [x for x in allnodes(pages[name]) if x[0] == 'body'][0]
        for x in body[2]:
            if not isinstance(x, str): walk(x)
        want = [i for i in byid if re.fullmatch(r'(FNote|ENote|XRef)\d+', i)]
        if sorted(used) != sorted(want): R.problems.append(('notes without a caller', b, sorted(set(want) ^ set(used))))
    return R

def markdown(folder):
    """Emphasis marks are taken away. The notes are listed at the end, as HTML."""
    R = Reading()
    for fn in sorted(glob.glob(folder + '/*.md'), key=lambda f: ORDER.index(f[-6:-3])):
        b = fn[-6:-3]; R.books.append(b); c = k = None; calls = []; used = []; end = False
        lines = slurp(fn).split('\n'); notes = {}
        for l in lines:
            m = re.fullmatch(r'<p id="((?:FNote|ENote|XRef)\d+)" class="\w+">(.*)</p>', l)
            if m:
                if m.group(1) in notes: R.problems.append(('note twice', b, l))
                R.problems += page(l)[1]
                notes[m.group(1)] = html.unescape(re.sub('<[^>]*>', '', re.sub(r'<a .*?</a>', '', m.group(2))))
        def take(m):
            used.append(m.group(2))
            if m.group(2) not in notes: R.problems.append(('no such note', b, m.group(0)))
            elif k: R.note(k, notes[m.group(2)])
            return ''
        for last, l in zip([''] + lines, lines):
            if re.fullmatch('### (Footnotes|Endnotes|Cross References)', l): end = True
            if end: continue
            m = re.fullmatch(r'Chapter (\d+)', l)
            if m: c = m.group(1); k = None; continue
            if re.match(r'#+ ', l) or c is None: R.heads.append((b, '#', l)); continue
            m = re.match(r'(\d+(?:-\d+)?[ab]?) (.*)$', l)
            if m: k = R.verse(b, c, m.group(1)); l = m.group(2)
            elif not last and l: R.heads.append((b, '', l)); continue
            l = re.sub(r'\[(fn\w*|xr\d*)\]\(#(\w+)\)', take, l)
            l = re.sub(r'[_*]', '', l)
            if k is None: R.heads.append((b, '', l))
            else: R.add(k, l if m else ' ' + l)
        if sorted(used) != sorted(notes): R.problems.append(('notes without a caller', b, sorted(set(notes) ^ set(used))))
    return R

def _tex(s):
    """Parse into a list of text, and (command, [contents of the braces]) with contents parsed in the same way."""
    out = []; i = 0
    def group(i):
        d = 0; j = i
        while True:
            if j >= len(s): raise ValueError('brace left open: ' + s[i:i+60])
            if s[j] == '\\': j += 2; continue
            if s[j] == '{': d += 1
            if s[j] == '}':
                d -= 1
                if not d: return s[i + 1:j], j + 1
            j += 1
    while i < len(s):
        ch = s[i]
        if ch == '\\':
            m = re.compile(r'\\([A-Za-z]+)').match(s, i)
            if not m: out.append(s[i + 1]); i += 2; continue
            i = m.end()
            if m.group(1) == 'textasciicircum': out.append('^'); i += 2; continue
            if s.startswith('{', i): g, i = group(i); out.append((m.group(1), _tex(g)))
            else: out.append((m.group(1), None))
        elif ch in '{}$&#^_%': raise ValueError(f'special character: {s[max(0, i - 40):i + 20]!r}')
        else: out.append(ch); i += 1
    return out
def _textext(L): return ''.join(x if isinstance(x, str) else _textext(x[1] or []) for x in L)

def tex(folder):
    R = Reading()
    def read(body, b):
        c = k = None; fresh = False
        def put(L):
            nonlocal c, k, fresh
            for x in L:
                if isinstance(x, str):
                    if fresh and x.strip(): k = R.verse(b, c, '1'); fresh = False
                    if k: R.add(k, x)
                    elif x.strip(): R.heads.append((b, '', x))
                    continue
                n, arg = x
                if n in ('BibleFootnote', 'BibleCrossReference'):
                    if fresh: k = R.verse(b, c, '1'); fresh = False
                    if k: R.note(k, _textext([y for y in arg if isinstance(y, str) or not y[0].endswith('Anchor')]))
                elif n == 'BibleFigure': pass
                elif n == 'chapterNumber': c = _textext(arg); k = None; fresh = True; R.chapters.append((b, c))
                elif n == 'verseNumber': k = R.verse(b, c, _textext(arg)); fresh = False
                elif n.startswith('BibleCharacterStyle'): put(arg)
                elif n.startswith('BibleParagraphStyle'):
                    if k: R.add(k, ' ')
                elif n in ('addcontentsline', 'BibleBook'): pass
                elif arg is not None:
                    R.heads.append((b, n, _textext(arg)))
                    if k: R.add(k, ' ')
        # text outside verses comes one character at a time: join it
        put(body)
        h = []
        for x in R.heads:
            if h and not x[1] and not h[-1][1] and x[0] == h[-1][0]: h[-1] = (x[0], '', h[-1][2] + x[2])
            else: h.append(x)
        R.heads = h
    R.chapters = []
    def body(fn):
        s = slurp(fn); s = s[s.index('\\begin{document}') + 16:s.rindex('\\end{document}')]
        return re.sub(r'\\addcontentsline\{toc\}\{toc\}\{.*\}', '', s)
    for fn in sorted(glob.glob(folder + '/[0-9]*.tex')): b = os.path.basename(fn).split('_')[0].split('-')[1]; R.books.append(b); read(_tex(body(fn)), b)
    return R
def texAll(folder):
    """What the file with all the books has for each, and what the file of each book has, in order and without what only the latter have."""
    def clean(s):
        s = s[s.index('\\begin{document}') + 16:s.rindex('\\end{document}')]
        return re.sub(r'\n\n+', '\n', re.sub(r'\\addcontentsline\{toc\}\{toc\}\{.*\}|\\BibleBookTableOfContents', '', s)).strip()
    A = clean(slurp(os.path.join(folder, 'All-BOS-BibleWriter.tex')))
    return A, '\n'.join(clean(slurp(fn)) for fn in sorted(glob.glob(folder + '/[0-9]*.tex')))

def bibledoor(folder):
    """The sections of each book as the index of the compressed file gives them."""
    R = Reading(); R.sections = {}; R.raw = {}
    js = lambda fn: json.loads(slurp(os.path.join(folder, fn)))
    comp = js('BySection.1.CHTML/BDCmprnDict.1.json')
    def decompress(s):
        for a, b in comp: s = s.replace(a, b)
        return s
    names = js('BDBookNames.1.json'); R.books = [x[0] for x in names]; R.names = names
    index = js('BySection.1.CHTML/BD-BCV-CHTML-Index.1.json'); R.index = index
    for b in R.books:
        with open(os.path.join(folder, f'BySection.1.CHTML/BDBook.{b}.1.chtml'), 'rb') as f: data = f.read()
        pos = 0; R.sections[b] = []
        for e in [x for x in index if x[0] == b]:
            if e[5] != pos: R.problems.append(('index offset', b, e, pos))
            pos = e[5] + e[6]; R.sections[b].append((e, decompress(data[e[5]:pos].decode('utf-8'))))
        if pos != len(data): R.problems.append(('index does not cover the file', b, pos, len(data)))
        st = {'k': None, 'c': None}; calls = []; R.raw[b] = ''.join(s for _, s in R.sections[b])
        for e, s in R.sections[b]:
            root, prob = page(s); R.problems += [(p[0], b, e) + p[1:] for p in prob]
            before = len(R.verses)
            def walk(x):
                t, a, kids = x; cl = a.get('class', '')
                if cl in ('footnote', 'endnote', 'xref') and t == 'p': R.problems.append(('note in text', b, x)); return
                if t in ('h1', 'h2', 'h3', 'h4', 'h5') or (t == 'p' and re.match(r'introduction|introductory|sectionCrossReference|sectionReferenceRange|majorSectionReferenceRange|speaker|acrosticHeading|descriptiveTitle|outline', cl)) or cl.startswith(('introduction', 'outline')):
                    R.heads.append((b, cl, alltext(x))); return
                if t == 'span' and cl == 'chapterNumber':
                    st['c'] = alltext(x).strip(); st['k'] = None; return
                if cl in ('verseNumber', 'verseOneNumber'):
                    if st['k'] is None or alltext(x) != st['k'][2]: R.problems.append(('verse number', b, alltext(x), st['k']))
                    return
                if re.match(r'(verse(One)?Number|verseOne|verse|chapterNumber)(Pre|Post)space|chapterStart', cl): return
                if t == 'span' and cl == 'verse' and 'id' in a:
                    m = re.fullmatch(r'C(\d+)V([\d\-]+[a-z]*)', a['id'])
                    if not m: R.problems.append(('verse id', a))
                    elif any(y[1].get('class') in ('verseNumber', 'verseOneNumber') for y in allnodes(x)): st['k'] = R.verse(b, m.group(1), m.group(2))
                    elif not st['k'] or st['k'][1:] != (m.group(1), m.group(2)[:-1]) or m.group(2)[-1] != 'b': R.problems.append(('continuation of another verse', b, a, st['k']))
                if t == 'a' and cl.endswith('LinkSymbol'): R.note(st['k'], a.get('title', '')); return
                if t in ('p', 'ul', 'li', 'div', 'section') and st['k']: R.add(st['k'], ' ')
                for y in kids:
                    if isinstance(y, str):
                        if st['k'] or y.strip(): R.add(st['k'], y)
                    else: walk(y)
                if t in ('p', 'ul', 'li', 'div', 'section') and st['k']: R.add(st['k'], ' ')
            for x in root[2]:
                if isinstance(x, str): R.add(st['k'], x)
                else: walk(x)
    return R
