"""Verse-level Bibles as meaning first, and writers of the formats that other programs use to distribute such Bibles.

A model is a list of books; a verse is a list of (kind, text) runs. Writers are independent of BibleOrgSys: they follow the public
descriptions of the formats (which the docstrings of its modules repeat)."""
import os, re, sqlite3
from bosv import gen, readers

ORDER = readers.ORDER
ENG = dict(zip(ORDER, '''Genesis Exodus Leviticus Numbers Deuteronomy Joshua Judges Ruth 1_Samuel 2_Samuel 1_Kings 2_Kings 1_Chronicles 2_Chronicles Ezra Nehemiah Esther Job Psalms Proverbs
Ecclesiastes Song_of_Songs Isaiah Jeremiah Lamentations Ezekiel Daniel Hosea Joel Amos Obadiah Jonah Micah Nahum Habakkuk Zephaniah Haggai Zechariah Malachi Matthew Mark Luke John Acts Romans
1_Corinthians 2_Corinthians Galatians Ephesians Philippians Colossians 1_Thessalonians 2_Thessalonians 1_Timothy 2_Timothy Titus Philemon Hebrews James 1_Peter 2_Peter 1_John 2_John 3_John Jude
Revelation'''.replace('\n', ' ').split(' ')))
ENG = {k: v.replace('_', ' ') for k, v in ENG.items()}
SHORT = dict(zip(ORDER, '''Ge Ex Le Nu De Jos Jg Ru 1Sa 2Sa 1Ki 2Ki 1Ch 2Ch Ezr Ne Es Job Ps Pr Ec Song Isa Jer La Eze Da Ho Joe Am Ob Jon Mic Na Hab Zep Hag Zec Mal Mt Mr Lu Joh Ac Ro
1Co 2Co Ga Eph Php Col 1Th 2Th 1Ti 2Ti Tit Phm Heb Jas 1Pe 2Pe 1Jo 2Jo 3Jo Jude Re'''.split()))
OSIS = dict(zip(ORDER, '''Gen Exod Lev Num Deut Josh Judg Ruth 1Sam 2Sam 1Kgs 2Kgs 1Chr 2Chr Ezra Neh Esth Job Ps Prov Eccl Song Isa Jer Lam Ezek Dan Hos Joel Amos Obad Jonah Mic Nah Hab Zeph
Hag Zech Mal Matt Mark Luke John Acts Rom 1Cor 2Cor Gal Eph Phil Col 1Thess 2Thess 1Tim 2Tim Titus Phlm Heb Jas 1Pet 2Pet 1John 2John 3John Jude Rev'''.split()))
USFM = dict(zip(ORDER, '''GEN EXO LEV NUM DEU JOS JDG RUT 1SA 2SA 1KI 2KI 1CH 2CH EZR NEH EST JOB PSA PRO ECC SNG ISA JER LAM EZK DAN HOS JOL AMO OBA JON MIC NAM HAB ZEP HAG ZEC MAL MAT MRK LUK JHN
ACT ROM 1CO 2CO GAL EPH PHP COL 1TH 2TH 1TI 2TI TIT PHM HEB JAS 1PE 2PE 1JN 2JN 3JN JUD REV'''.split()))
NUM = readers.NUM

class PBook:
    def __init__(self, bbb): self.bbb = bbb; self.chapters = []   # [(c, [(v, runs)])]
    def verses(self):
        for c, vs in self.chapters:
            for v, runs in vs: yield c, v, runs

def plain(runs): return ''.join(' ' if k == 'line' else t for k, t in runs if k not in ('note', 'xref', 'para'))
def notes(runs, kinds=('note', 'xref')): return [t for k, t in runs if k in kinds]

def bible(rng, kinds=(), nBooks=None, maxVerses=6, allChapters=.3, counts=None, pool=ORDER, punct=True, uni=True, titles=False, glue=(' ', ' ', ', ', '; ', '. ')):
    """kinds: the run kinds beside plain text that may occur. counts: {BBB: [verses per chapter]}; verses 1..n of chapters 1..m then."""
    w = gen.W(rng, uni=uni, punct=punct)
    n = nBooks or rng.choice([1, 1, 2, 3, 5])
    bs = [PBook(b) for b in sorted(rng.sample(list(pool), min(n, len(pool))), key=ORDER.index)]
    for b in bs:
        cc = counts[b.bbb] if counts else [40] * 9
        if counts and rng.random() < allChapters and len(cc) <= 16: cs = range(1, len(cc) + 1)
        else: cs = range(1, min(len(cc), rng.choice([1, 1, 2, 3])) + 1)
        for c in cs:
            m = min(cc[c - 1], rng.randint(1, maxVerses) if rng.random() < .9 else cc[c - 1])
            vs = []
            for v in range(1, m + 1):
                runs = [('text', w.words(rng.randint(1, 6)))]
                for _ in range(rng.choice([0, 0, 1, 2, 3]) if kinds else 0):
                    k = rng.choice(list(kinds))
                    if k == 'para':
                        if runs[0][0] != 'para' and rng.random() < .5: runs.insert(0, ('para', ''))
                        continue
                    if k == 'line':
                        if runs[-1][0] != 'line' and len(runs) > 0: runs += [('line', ''), ('text', w.words(rng.randint(1, 3)))]
                        continue
                    if k in ('note', 'xref'): runs.append((k, w.words(rng.randint(1, 4))))
                    else:
                        if runs[-1][0] in ('note', 'xref') or not runs[-1][1].endswith(' '): runs.append(('text', ' '))
                        runs.append((k, w.words(rng.randint(1, 3))))
                    if rng.random() < .7: runs.append(('text', rng.choice(glue) + w.words(rng.randint(1, 4))))
                vs.append((v, runs))
            b.chapters.append((c, vs))
    return bs

def write(fn, text, enc='utf-8', newline='\n'):
    with open(fn, 'w', encoding=enc, newline=newline) as f: f.write(text)

# ---------------------------------------------------------------- text formats
def flat(runs, m):
    """runs with each kind wrapped as m[kind] = (before, after)"""
    return ''.join(m.get(k, ('', ''))[0] + t + m.get(k, ('', ''))[1] for k, t in runs)

def csv(bs, fn, style='quoted', enc='utf-8', newline='\n'):
    out = []
    if style == 'quoted':
        out.append('"Book","Chapter","Verse","Scripture"')
        for b in bs:
            for c, v, r in b.verses(): out.append(f'"{NUM[b.bbb]}","{c}","{v}","{plain(r)}"')
    elif style == 'bare':
        out.append('Book,Chapter,Verse,Scripture')
        for b in bs:
            for c, v, r in b.verses(): out.append(f'{NUM[b.bbb]},{c},{v},{plain(r)}')
    elif style == 'bar':
        out.append('Book|Chapter|Verse|Text')
        for b in bs:
            for c, v, r in b.verses(): out.append(f'{OSIS[b.bbb]}|{c}|{v}|{plain(r)}')
    elif style == 'tab':
        out.append('Some Version'); out.append('')
        for b in bs:
            for c, v, r in b.verses(): out.append(f'{ENG[b.bbb]} {c}:{v}\t{plain(r)}')
    write(fn, '\n'.join(out) + '\n', enc, newline)

def vpl(bs, fn, style=1, enc='utf-8', newline='\n'):
    out = []
    if style == 1:
        for b in bs:
            for c, v, r in b.verses(): out.append(f"{SHORT[b.bbb]} {c}:{v} {flat(r, {'para': ('¶ ', ''), 'add': ('[', ']'), 'wj': ('<', '>')})}")
    elif style in (2, 3):
        if style == 3: out += ['# language_name:        Matigsalug', '# closest ISO 639-3:    mbt', '# title:                The New Testament', '# copyright_long:       Not available']
        for b in bs:
            for c, v, r in b.verses(): out.append(f"{NUM[b.bbb]:02}{c:03}{v:03}\t{flat(r, {'para': ('¶ ', '')})}")
    elif style == 5:
        out += ['Some Bible', '', 'This Bible is in the Public Domain.', '']
        for b in bs:
            out += ['', ENG[b.bbb], '']
            for c, vs in b.chapters:
                out += [f"{'Psalm' if b.bbb == 'PSA' else 'Chapter'} {c}", '']
                for v, r in vs:
                    words = plain(r).split(' '); line = str(v)
                    for x in words:
                        if len(line) > 40: out.append(line); line = x
                        else: line += ' ' + x
                    out.append(line)
                out.append('')
    write(fn, '\n'.join(out) + '\n', enc, newline)

def forge(bs, fn, enc='utf-8', newline='\n'):
    out = ['; TITLE: Some new version', '; ABBREVIATION: SNV', '; HAS ITALICS', '; HAS FOOTNOTES', '; HAS REDLETTER', '$$ {AUTHORDETAIL}', '<p>Translated by me.</p>', '<p>Copyright.</p>', '']
    for b in bs:
        for c, v, r in b.verses():
            out.append(f'$$ {SHORT[b.bbb]} {c}:{v}')
            out.append(flat(r, {'para': ('¶ ', ''), 'add': ('[', ']'), 'wj': ('+r/', '-r/'), 'note': ('{', '}'), 'xref': ('<scripref>', '</scripref>')}))
    write(fn, '\n'.join(out) + '\n', enc, newline)

def unbound(bs, fn, style=6, enc='utf-8', newline='\n'):
    cols = {6: 'orig_book_index\torig_chapter\torig_verse\torig_subverse\torder_by\ttext', 4: 'orig_book_index\torig_chapter\torig_verse\ttext',
            9: 'nrsva_book_index\tnrsva_chapter\tnrsva_verse\torig_book_index\torig_chapter\torig_verse\torig_subverse\torder_by\ttext'}[style]
    out = ['#THE UNBOUND BIBLE (www.unboundbible.org)', '#name\tEnglish: Some Version', '#filetype\tUnmapped-BCVS', '#copyright\tPublic Domain', '#abbreviation\t', '#language\teng', '#note\t', '#columns\t' + cols]
    n = 0
    for b in bs:
        for c, v, r in b.verses():
            n += 10; bk = f"{NUM[b.bbb]:02}{'O' if NUM[b.bbb] < 40 else 'N'}"; t = flat(r, {'para': ('¶ ', '')})
            out.append({6: f'{bk}\t{c}\t{v}\t\t{n}\t{t}', 4: f'{bk}\t{c}\t{v}\t{t}', 9: f'{bk}\t{c}\t{v}\t{bk}\t{c}\t{v}\t\t{n}\t{t}'}[style])
    write(fn, '\n'.join(out) + '\n', enc, newline)

DRUPAL = dict(zip(ORDER, '''GEN EXO LEV NUM DEU JOS JUG RUT 1SM 2SM 1KG 2KG 1CH 2CH EZR NEH EST JOB PS PRO ECC SON ISA JER LAM EZE DAN HOS JOE AMO OBA JON MIC NAH HAB ZEP HAG ZEC MAL MAT MAK LUK JHN
ACT ROM 1CO 2CO GAL EPH PHL COL 1TS 2TS 1TM 2TM TIT PHM HEB JAM 1PE 2PE 1JN 2JN 3JN JUD REV'''.split()))
def drupal(bs, fn, enc='utf-8', newline='\n'):
    out = ['*Bible', '#shortname fullname language', 'SNV|Some New Version|en', '', '*Chapter', '#book,fullname,shortname,chap-count']
    for b in bs: out.append(f'{DRUPAL[b.bbb]}|{ENG[b.bbb]}|{DRUPAL[b.bbb]}|{len(b.chapters)}')
    out += ['', '*Context', '#Book,Chapter,Verse,LineMark,Context']
    for b in bs:
        for c, v, r in b.verses(): out.append(f"{DRUPAL[b.bbb]}|{c}|{v}||{flat(r, {'add': ('[', ']'), 'it': ('<', '>')})}")
    write(fn, '\n'.join(out) + '\n', enc, newline)

def yet(bs, fn, enc='utf-8', newline='\n'):
    out = ['info\tshortName\tSNV', 'info\tlongName\tSome New Version', 'info\tdescription\tSome New Version', 'info\tlocale\ten']
    for b in bs: out.append(f'book_name\t{NUM[b.bbb]}\t{ENG[b.bbb]}')
    fns = []
    for b in bs:
        for c, v, r in b.verses():
            t = ''; i = 0
            for k, x in r:
                if k == 'add': t += '@9' + x + '@7'
                elif k == 'wj': t += '@6' + x + '@5'
                elif k == 'para': t += '@^'
                elif k == 'note': i += 1; t += f'@<f{i}@>@/'; fns.append(f'footnote\t{NUM[b.bbb]}\t{c}\t{v}\t{i}\t{x}')
                else: t += x
            out.append(f"verse\t{NUM[b.bbb]}\t{c}\t{v}\t{'@@' if '@' in t else ''}{t}")
    write(fn, '\n'.join(out + fns) + '\n', enc, newline)

# ---------------------------------------------------------------- XML formats
def X(t): return t.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
def xflat(runs, m):
    """m[kind] = (before, after) or a function of the text"""
    return ''.join(m[k](t) if callable(m.get(k)) else m.get(k, ('', ''))[0] + X(t) + m.get(k, ('', ''))[1] for k, t in runs)
def att(t): return '"' + X(t).replace('"', '&quot;') + '"'

def zefania(bs, fn, indent=True, info=True, enc='utf-8', newline='\n'):
    """kinds it, nd, em, add, note, line"""
    nl = '\n' if indent else ''; i1, i2, i3 = ('  ', '    ', '      ') if indent else ('', '', '')
    m = {'it': ('<STYLE css="font-style:italic">', '</STYLE>'), 'em': ('<STYLE css="color:#FF0000">', '</STYLE>'), 'nd': ('<STYLE id="cl:divineName">', '</STYLE>'), 'note': ('<NOTE type="n-studynote">', '</NOTE>'),
         'xref': ('<NOTE type="x-studynote">', '</NOTE>'), 'line': ('<BR art="x-nl"/>', '')}
    out = ['<?xml version="1.0" encoding="utf-8"?>\n<!--Some comment-->\n<XMLBIBLE xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xsi:noNamespaceSchemaLocation="zef2005.xsd" version="2.0.1.18" status="v" biblename="Some New Version" type="x-bible" revision="0">\n']
    if info: out.append('<INFORMATION>\n<title>Some New Version</title>\n<format>Zefania XML Bible Markup Language</format>\n<identifier>SNV</identifier>\n<language>ENG</language>\n</INFORMATION>\n')
    for b in bs:
        out.append(f'{i1}<BIBLEBOOK bnumber="{NUM[b.bbb]}" bname={att(ENG[b.bbb])} bsname={att(SHORT[b.bbb])}>{nl}')
        for c, vs in b.chapters:
            out.append(f'{i2}<CHAPTER cnumber="{c}">{nl}')
            for v, r in vs: out.append(f'{i3}<VERS vnumber="{v}">{xflat(r, m)}</VERS>{nl}')
            out.append(f'{i2}</CHAPTER>{nl}')
        out.append(f'{i1}</BIBLEBOOK>{nl}')
    out.append('</XMLBIBLE>\n'); write(fn, ''.join(out), enc, newline)

def haggai(bs, fn, indent=True, info=True, enc='utf-8', newline='\n'):
    nl = '\n' if indent else ''; i1, i2, i3 = ('  ', '    ', '      ') if indent else ('', '', '')
    m = {'em': ('<STYLE fs="emphasis">', '</STYLE>'), 'bdit': ('<STYLE fs="super">', '</STYLE>'), 'note': ('<NOTE>', '</NOTE>'), 'xref': ('<NOTE type="variant">', '</NOTE>'), 'line': ('<BR art="x-nl"/>', '')}
    out = ['<?xml version="1.0" encoding="utf-8"?>\n<XMLBIBLE xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xsi:noNamespaceSchemaLocation="haggai_20130620.xsd" biblename="Some New Version" status="-" version="haggai.1.0" revision="1">\n']
    if info: out.append('<INFORMATION>\n<title>Some New Version</title>\n<format>Haggai XML Bible Markup Language</format>\n<identifier>SNV</identifier>\n<language>ENG</language>\n</INFORMATION>\n')
    for b in bs:
        out.append(f'{i1}<BIBLEBOOK bnumber="{NUM[b.bbb]}" bname={att(ENG[b.bbb])} bsname={att(SHORT[b.bbb])}>{nl}{i2}<CAPTION>{X(ENG[b.bbb])}</CAPTION>{nl}')
        for c, vs in b.chapters:
            out.append(f'{i2}<CHAPTER cnumber="{c}">{nl}{i2}<PARAGRAPH>{nl}')
            for v, r in vs:
                if v > 1 and r[0][0] == 'para': out.append(f'{i2}</PARAGRAPH>{nl}{i2}<PARAGRAPH>{nl}')
                out.append(f'{i3}<VERSE vnumber="{v}">{xflat(r, m)}</VERSE>{nl}')
            out.append(f'{i2}</PARAGRAPH>{nl}{i2}</CHAPTER>{nl}')
        out.append(f'{i1}</BIBLEBOOK>{nl}')
    out.append('</XMLBIBLE>\n'); write(fn, ''.join(out), enc, newline)

def opensong(bs, fn, indent=True, info=True, enc='utf-8', newline='\n'):
    nl = '\n' if indent else ''; i1, i2, i3 = ('  ', '    ', '      ') if indent else ('', '', '')
    out = ['<?xml version="1.0" encoding="utf-8"?>\n<bible>\n']
    for b in bs:
        out.append(f'{i1}<b n={att(ENG[b.bbb])}>{nl}')
        for c, vs in b.chapters:
            out.append(f'{i2}<c n="{c}">{nl}')
            for v, r in vs: out.append(f"{i3}<v n=\"{v}\">{xflat(r, {'it': ('<i>', '</i>'), 'line': (chr(10), '')})}</v>{nl}")
            out.append(f'{i2}</c>{nl}')
        out.append(f'{i1}</b>{nl}')
    out.append('</bible>\n'); write(fn, ''.join(out), enc, newline)

def verseview(bs, fn, indent=True, info=True, enc='utf-8', newline='\n'):
    """the books from Genesis on, in order, without gaps"""
    nl = '\n' if indent else ''
    out = ['<?xml version="1.0" encoding="utf-8"?>\n<bible>\n<fname>snv.xml</fname>\n<revision>1</revision>\n<title>Some New Version</title>\n<font>Arial</font>\n<copyright>Public Domain</copyright>\n<sizefactor>1</sizefactor>\n']
    for b in bs:
        out.append(f'<b n={att(ENG[b.bbb])}>{nl}')
        for c, vs in b.chapters:
            out.append(f'<c n="{c}">{nl}')
            for v, r in vs: out.append(f'<v n="{v}">{X(plain(r))}</v>{nl}')
            out.append(f'</c>{nl}')
        out.append(f'</b>{nl}')
    out.append('</bible>\n'); write(fn, ''.join(out), enc, newline)

# ---------------------------------------------------------------- modules (KJV versification)
TW = {'add': ('<FI>', '<Fi>'), 'wj': ('<FR>', '<Fr>'), 'it': ('<i>', '</i>'), 'note': ('<RF>', '<Rf>'), 'xref': ('<RX>', '<Rx>'), 'head': ('<TS>', '<Ts>')}
def twline(runs, last=False): return flat(runs, TW) + ('<CM>' if last else '')
def testaments(bs):
    o = any(NUM[b.bbb] < 40 for b in bs); n = any(NUM[b.bbb] > 39 for b in bs)
    return o, n
def parend(bs):
    """(BBB, c, v) of the verses before a paragraph"""
    S = set()
    for b in bs:
        L = list(b.verses())
        for (c, v, r), (c2, v2, r2) in zip(L, L[1:]):
            if r2[0][0] == 'para': S.add((b.bbb, c, v))
    return S
def noPara(runs): return [x for x in runs if x[0] != 'para']

def theword(bs, folder, name, counts, enc='utf-8', newline='\n', info=()):
    """the file with all the lines of its testaments, blank where there is no verse"""
    o, n = testaments(bs); D = {(b.bbb, c, v): r for b in bs for c, v, r in b.verses()}; P = parend(bs)
    out = [twline(noPara(D[b, c, v]), (b, c, v) in P) if (b, c, v) in D else '' for b in ORDER if (o and NUM[b] < 40) or (n and NUM[b] > 39) for c, m in enumerate(counts[b], 1) for v in range(1, m + 1)]
    fn = os.path.join(folder, name + ('.ont' if o and n else '.ot' if o else '.nt'))
    write(fn, '\n'.join(out + list(info)) + '\n', enc, newline); return fn

def db(fn, sqls):
    C = sqlite3.connect(fn)
    for s, rows in sqls: C.executemany(s, rows) if rows is not None else C.execute(s)
    C.commit(); C.close()

def mysword(bs, fn, missing=False, counts=None):
    o, n = testaments(bs); P = parend(bs)
    rows = [(NUM[b.bbb], c, v, twline(noPara(r), (b.bbb, c, v) in P)) for b in bs for c, v, r in b.verses()]
    db(fn, [('CREATE TABLE Details (Description NVARCHAR(255), Abbreviation NVARCHAR(50), Comments TEXT, Version TEXT, VersionDate DATETIME, PublishDate DATETIME, RightToLeft BOOL, OT BOOL, NT BOOL, Strong BOOL)', None),
            ('INSERT INTO Details VALUES (?,?,?,?,?,?,?,?,?,?)', [('Some New Version', 'SNV', 'None', '1.0', '2020-01-01', '2020-01-01', 0, int(o), int(n), 0)]),
            ('CREATE TABLE Bible (Book INT, Chapter INT, Verse INT, Scripture TEXT, Primary Key(Book,Chapter,Verse))', None), ('INSERT INTO Bible VALUES (?,?,?,?)', rows)])

ES = {'it': ('{\\i ', '}'), 'bd': ('{\\b ', '}'), 'add': ('{\\cf15 ', '}')}
def esline(runs): return flat([(k, t.replace('“', '\\ldblquote').replace('”', '\\rdblquote') if 0 else t) for k, t in runs], ES)
def esword(bs, fn):
    o, n = testaments(bs); rows = []
    for b in bs:
        for c, v, r in b.verses(): rows.append((NUM[b.bbb], c, v, ('\\par ' if r[0][0] == 'para' and v > 1 else '') + esline(noPara(r))))
    db(fn, [('CREATE TABLE Details (Description NVARCHAR(255), Abbreviation NVARCHAR(50), Comments TEXT, Version TEXT, Font NVARCHAR(50), RightToLeft BOOL, OT BOOL, NT BOOL, Apocrypha BOOL, Strong BOOL)', None),
            ('INSERT INTO Details VALUES (?,?,?,?,?,?,?,?,?,?)', [('Some New Version', 'SNV', 'None', '1', 'Arial', 0, int(o), int(n), 0, 0)]),
            ('CREATE TABLE Bible (Book INT, Chapter INT, Verse INT, Scripture TEXT)', None), ('INSERT INTO Bible VALUES (?,?,?,?)', rows)])

MB = {'add': ('<i>', '</i>'), 'wj': ('<J>', '</J>'), 'em': ('<e>', '</e>'), 'note': ('<n>', '</n>')}
MBNUM = dict(zip(ORDER, [10, 20, 30, 40, 50, 60, 70, 80, 90, 100, 110, 120, 130, 140, 150, 160, 190, 220, 230, 240, 250, 260, 290, 300, 310, 330, 340, 350, 360, 370, 380, 390, 400, 410, 420, 430, 440, 450, 460, 470, 480,
                          490, 500, 510, 520, 530, 540, 550, 560, 570, 580, 590, 600, 610, 620, 630, 640, 650, 660, 670, 680, 690, 700, 710, 720, 730]))
def mybible(bs, fn, table='books', every=False):
    """table: books (older) or books_all (newer, with the books of no text not present)"""
    here = {b.bbb for b in bs}; L = [b for b in ORDER if every or b in here]
    rows = [(MBNUM[b.bbb], c, v, ('<pb/>' if r[0][0] == 'para' and v > 1 else '') + flat(noPara(r), MB)) for b in bs for c, v, r in b.verses()]
    B = [('CREATE TABLE books (book_color TEXT, book_number NUMERIC, short_name TEXT, long_name TEXT)', None), ('INSERT INTO books VALUES (?,?,?,?)', [('#ccccff', MBNUM[b], SHORT[b], ENG[b]) for b in L])] if table == 'books' else \
        [('CREATE TABLE books_all (book_number NUMERIC, short_name TEXT, long_name TEXT, title TEXT, book_color TEXT, is_present BOOLEAN)', None), ('INSERT INTO books_all VALUES (?,?,?,?,?,?)', [(MBNUM[b], SHORT[b], ENG[b], ENG[b], '#ccccff', int(b in here)) for b in L])]
    db(fn, [('CREATE TABLE info (name TEXT, value TEXT)', None), ('INSERT INTO info VALUES (?,?)', [('description', 'Some New Version'), ('language', 'en'), ('russian_numbering', 'false')]), *B,
            ('CREATE TABLE verses (book_number INTEGER, chapter INTEGER, verse INTEGER, text TEXT)', None), ('INSERT INTO verses VALUES (?,?,?,?)', rows)])

# ---------------------------------------------------------------- paragraph-level XML (all books in one file)
def fnote(t, r):
    """the text of a footnote, sometimes partly quoted or in another style"""
    ws = X(t).split(' ')
    if len(ws) < 2 or r.random() < .5: return f'<ft>{X(t)}</ft>'
    k = r.randint(1, len(ws) - 1); j = r.randint(k, len(ws)); a, b, z = (' '.join(x) for x in (ws[:k], ws[k:j], ws[j:]))
    how = r.choice(['it', 'bd', 'fq', 'fqa', 'w', 'join', 'into', 'loose'])
    if not b or how == 'join': return f'<ft>{a}</ft><fqa> {b} {z}</fqa>'.replace('  ', ' ')
    if how in ('it', 'bd', 'w'): return f'<ft>{a} <{how}>{b}</{how}>{" " + z if z else ""}</ft>'
    if how == 'into': return f'<ft>{a} {b[:1]}</ft><fqa>{b[1:]} </fqa>' + (f'<ft>{z}</ft>' if z else '') if b[1:] and b[0] not in '&' else f'<ft>{a} {b} {z}</ft>'
    if how == 'loose': return f'<ft>{a} </ft><it>{b}</it>' + (f'<ft> {z}</ft>' if z else '')
    return f'<ft>{a} </ft><{how}>{b} </{how}>' + (f'<ft>{z}</ft>' if z else '')

def usfx(bs, fn, r, enc='utf-8', newline='\n', poetry=True, heads=True):
    """kinds add, nd, wj, it, bd, note, xref, para, line"""
    cs = {k: (f'<{k}>', f'</{k}>') for k in ('add', 'nd', 'wj', 'it', 'bd')}
    out = ['<?xml version="1.0" encoding="utf-8"?>\n<usfx xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xsi:noNamespaceSchemaLocation="usfx.xsd">\n<languageCode>eng</languageCode>\n']
    for b in bs:
        u = USFM[b.bbb]
        out.append(f'<book id="{u}">\n<id id="{u}">Some New Version</id>\n<ide charset="UTF-8"/>\n<h>{X(ENG[b.bbb])}</h>\n<toc level="1">The book of {X(ENG[b.bbb])}</toc>\n<p sfm="mt" level="1" style="mt1">{X(ENG[b.bbb])}</p>\n')
        for c, vs in b.chapters:
            out.append(f'<c id="{c}"/>\n'); open_ = None
            for n, (v, runs) in enumerate(vs):
                if n == 0 or runs[0][0] == 'para':
                    if open_: out.append(f'</{open_[0]}>\n')
                    if heads and r.random() < .4: out.append(r.choice(['<s>', '<s level="1">']) + f'heading{n}</s>\n')
                    open_ = r.choice(['p', 'p', 'q', 'p sfm="m" style="m"', 'q level="1"']) if poetry else 'p'; out.append(f'<{open_}>' + r.choice(['', '\n']))
                out.append(f'<v id="{v}" bcv="{u}.{c}.{v}"/>')
                for k, t in runs:
                    if k == 'line':
                        if poetry: out.append(f'</{open_[0]}>\n'); open_ = 'q level="2"'; out.append(f'<{open_}>')
                        else: out.append(' ')
                    elif k == 'note': out.append(f'<f caller="+"><fr>{c}:{v} </fr>{fnote(t, r)}</f>')
                    elif k == 'xref': out.append(f'<x caller="-"><xo>{c}:{v} </xo><xt>{X(t)}</xt></x>')
                    elif k != 'para': out.append(''.join((cs[k][0], X(t), cs[k][1])) if k in cs else X(t))
                out.append('<ve/>' + r.choice(['', '\n', '\n']))
            if open_: out.append(f'</{open_[0]}>\n')
        out.append('</book>\n')
    out.append('</usfx>\n'); write(fn, ''.join(out), enc, newline)

HI = ('emphasis', 'small-caps', 'super', 'normal', 'underline', 'illuminated', 'acrostic', 'sub', 'line-through')
def osis(bs, fn, r, style='milestone', enc='utf-8', newline='\n', heads=True, poetry=True, words=None, wrap=None, ends=None):
    """kinds add, nd, wj, it, bd, pn, note, xref, para, line; style: milestone (verses, in paragraphs), container (verses, in chapters), both (chapter containers, verse milestones)"""
    m = {'add': ('<transChange type="added">', '</transChange>'), 'nd': ('<divineName>', '</divineName>'), 'wj': ('<q who="Jesus" marker="">', '</q>'), 'it': ('<hi type="italic">', '</hi>'), 'bd': ('<hi type="bold">', '</hi>'), 'pn': ('<name>', '</name>')}
    words = r.random() < .15 if words is None else words; wrap = r.random() < .3 if wrap is None else wrap; ends = r.random() < .8 if ends is None else ends
    def T(t):
        if words: return re.sub(r'\w+', lambda z: f'<w lemma="strong:G{len(z[0])}">{z[0]}</w>' if r.random() < .8 else z[0], X(t)) if '&' not in X(t) else X(t)
        return re.sub('(?<!^) (?!$)', lambda z: '\n' if r.random() < .1 else ' ', X(t)) if wrap else X(t)
    out = ['<?xml version="1.0" encoding="UTF-8"?>\n<osis xmlns="http://www.bibletechnologies.net/2003/OSIS/namespace" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xsi:schemaLocation="http://www.bibletechnologies.net/2003/OSIS/namespace http://www.bibletechnologies.net/osisCore.2.1.1.xsd">\n'
           '<osisText osisIDWork="SNV" osisRefWork="Bible" xml:lang="en" canonical="true">\n<header>\n<work osisWork="SNV">\n<title>Some New Version</title>\n<type type="OSIS">Bible</type>\n<identifier type="OSIS">Bible.en.SNV</identifier>\n<refSystem>Bible</refSystem>\n</work>\n</header>\n']
    for b in bs:
        o = OSIS[b.bbb]; out.append(f'<div type="book" osisID="{o}" canonical="true">\n')
        if heads and r.random() < .5: out.append(f'<title type="main">{X(ENG[b.bbb])}</title>\n')
        for c, vs in b.chapters:
            out.append(f'<chapter osisID="{o}.{c}">\n' if style != 'milestone' else f'<chapter osisID="{o}.{c}" sID="{o}.{c}"/>\n'); open_ = ''
            for n, (v, runs) in enumerate(vs):
                if style != 'container' and (n == 0 or runs[0][0] == 'para'):
                    if open_: out.append(f'{open_}\n')
                    if heads and r.random() < .4: out.append(f'<title>heading{n}</title>\n')
                    if poetry and style == 'milestone' and not words and r.random() < .4: out.append('<lg>'); open_ = '</lg>'
                    else: out.append('<p>'); open_ = '</p>'
                i = f'{o}.{c}.{v}'; l = open_ == '</lg>'
                if l: out.append('<l level="1">')
                out.append(f'<verse osisID="{i}">' if style == 'container' else f'<verse osisID="{i}" sID="{i}"/>')
                for k, t in runs:
                    if k == 'line': out.append('</l>\n<l level="2">' if l else '<lb/>')
                    elif k == 'note': out.append(f'<note type="study" osisRef="{i}" osisID="{i}!footnote.1" n="1">{X(t)}</note>' if r.random() < .5 else f'<note>{X(t)}</note>')
                    elif k == 'xref': out.append(f'<note type="crossReference" osisRef="{i}" osisID="{i}!crossreference.1">{X(t)}</note>')
                    elif k == 'it' and r.random() < .4: out.append(f'<hi type="{r.choice(HI)}">{X(t)}</hi>')
                    elif k in m and not (l and k in ('add', 'wj', 'pn')): out.append(m[k][0] + X(t) + m[k][1])
                    elif k != 'para': out.append(T(t))
                out.append('</verse>\n' if style == 'container' else f'<verse eID="{i}"/>' * ends)
                if style != 'container': out.append('</l>\n' if l else r.choice(['', '\n']))
            if open_: out.append(f'{open_}\n')
            out.append('</chapter>\n' if style != 'milestone' else f'<chapter eID="{o}.{c}"/>\n')
        out.append('</div>\n')
    out.append('</osisText>\n</osis>\n'); write(fn, ''.join(out), enc, newline)
