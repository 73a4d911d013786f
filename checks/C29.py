"""Finding the book files of a folder: each is found under its book, whatever the names, and nothing else is."""
import os
from bosv import boot

USFM = {'ddBBBlll': lambda a, d, o: f'{d}{a.upper()}web.usfm', 'ddBBBWriter': lambda a, d, o: f'{d}{a.upper()}BibleWriter.SFM', 'ddbbblll': lambda a, d, o: f'{d}{a.lower()}engweb.sfm', 'lllddBBB': lambda a, d, o: f'web{d}{a.upper()}.usfm', 'ddBBB': lambda a, d, o: f'{d}{a.upper()}.usfm',
        'dd-BBB': lambda a, d, o: f'{d}-{a.upper()}.usfm', 'BBB': lambda a, d, o: f'{a.upper()}.usfm', 'bbb': lambda a, d, o: f'{a.lower()}.sfm', 'en_BBB': lambda a, d, o: f'en_{a.upper()}.usfm', 'Bibledit': lambda a, d, o: o[0] + '.usfm', 'OEB': lambda a, d, o: o[1] + '.usfm',
        'names': lambda a, d, o: f'text {d} of many.usfm', 'letters': lambda a, d, o: 'zzzz' + ''.join(chr(97 + ord(c) % 26) * 2 for c in d + a).replace('a', 'q') + '.txt'}
ENGLISH = 'Genesis Exodus Leviticus Numbers Deuteronomy Joshua Judges Ruth 1_Samuel 2_Samuel 1_Kings 2_Kings 1_Chronicles 2_Chronicles Ezra Nehemiah Esther Job Psalms Proverbs Ecclesiastes Song_of_Solomon Isaiah Jeremiah Lamentations Ezekiel Daniel Hosea Joel Amos Obadiah Jonah Micah Nahum Habakkuk Zephaniah Haggai Zechariah Malachi Matthew Mark Luke John Acts Romans 1_Corinthians 2_Corinthians Galatians Ephesians Philippians Colossians 1_Thessalonians 2_Thessalonians 1_Timothy 2_Timothy Titus Philemon Hebrews James 1_Peter 2_Peter 1_John 2_John 3_John Jude Revelation'.split()
def old(n): return f'{n + 1:02}_{ENGLISH[n]}', f'{n + 1:02}-' + (ENGLISH[n].replace('_', '-') if 'Song' in ENGLISH[n] else ENGLISH[n].replace('_', ' '))
def usxHyphen(a, d): n = int(d); return f'{n if n < 40 else n + 1:02}-{a.upper()}.usx'
USX = {'dddBBB': lambda a, d: f'{d}{a.upper()}.usx', 'dddBBB.USX': lambda a, d: f'{d}{a.upper()}.USX', 'BBB': lambda a, d: f'{a.upper()}.usx', 'bbb': lambda a, d: f'{a.lower()}.usx', 'dd-BBB': usxHyphen}
NOISE = ['names.txt', 'small.csv', 'README.md', 'LICENSE', 'manifest.yaml', 'project.json', 'actual.log', 'notes.doc', 'isaac.html', 'roman.css', 'Luke.jpg', 'settings', 'index.htm', 'empty', 'Thumbs.db', 'Daniel.txt', 'usfm.sty', 'bookmarks.ini']

def noise(r, d):
    out = []
    for n in r.sample(NOISE, r.choice([1, 3, 6, 18])):
        f = os.path.join(d, n); out.append(n)
        if n == 'Luke.jpg': open(f, 'wb').write(b'\xff\xd8\xff\xe0\0\x10JFIF' + bytes(range(32, 92)) * 3)
        elif n == 'empty': open(f, 'w').close()
        elif n == 'usfm.sty': open(f, 'w').write('\\Marker id\n\\Name id\n')
        else: open(f, 'w').write('Some words here.\nAnd more of them,\nthree lines.\n')
    return out

ROMAN = {'1': 'I', '2': 'II', '3': 'III', '4': 'IV', '5': 'V'}
LONG = {'JDG': ['JUDG', 'Judges'], 'GEN': ['Genesis'], 'ISA': ['Isaiah'], 'ROM': ['Romans'], 'LEV': ['Leviticus'], 'MAT': ['Matthew'], 'HEB': ['Hebrews']}
def code(t, r):
    """The code of a book as people write it on the id line."""
    c = t[0].upper()
    if c in LONG: return r.choice(LONG[c])
    if c[0] in ROMAN: n = r.choice([c[0], ROMAN[c[0]]]); return n + (' ' if n != c[0] else r.choice(' _-')) + r.choice([c[1:], c[1:].title(), c[1:].lower()])
    return r.choice([c, c.title()])

def usfm(ctx, i):
    from BibleOrgSys.InputOutput.USFMFilenames import USFMFilenames
    from BibleOrgSys.Formats.USFMBible import USFMBible
    T = boot.G.loadedBibleBooksCodes.getAllUSFMBooksCodeNumberTriples(); r = ctx.rng(i); style = list(USFM)[i // 2 % len(USFM)]; d = ctx.tmpdir('f')
    pool = T[:66] if style in ('Bibledit', 'OEB') or r.random() < .6 else [t for t in T if t[0] not in ('ADE', 'EsG')]   # share a number
    picked = r.sample(pool, r.choice([1, 1, 2, 3, 5, 12, 66])); exp = []; lower = r.random() < .2; bom = r.random() < .3; nl = r.choice(['\n', '\n', '\r\n'])
    r2 = ctx.rng('code', i); forms = r2.random() < .4
    for n, t in enumerate(T):
        if t not in picked: continue
        ident = code(t, r2) if forms else t[0].lower() if lower else t[0].upper(); ctx.count('other-id-forms', int(ident.upper() != t[0].upper()))
        f = USFM[style](t[0], t[1], old(n) if n < 66 else None); exp.append((t[2], f))
        with open(os.path.join(d, f), 'w', encoding='utf-8-sig' if bom else 'utf-8', newline=nl) as h: h.write(f'\\id {ident} – Some text\n\\h Head\n\\c 1\n\\p\n\\v 1 word{n}\n')
    extra = noise(r, d) if r.random() < .6 else []
    if r.random() < .3:
        for f in (exp[0][1] + '.bak', exp[0][1] + '~'): open(os.path.join(d, f), 'w').write('\\id XXX old\n'); extra.append(f)
    what = (style, len(exp), bool(extra), i); show = lambda g: f'{what}: missing {[x for x in exp if x not in g][:4]}, wrong {[x for x in g if x not in exp][:4]}'
    with boot.quiet(): U = USFMFilenames(d); g = U.getMaximumPossibleFilenameTuples(); rest = U.getUnusedFilenames(); s = U.getMaximumPossibleFilenameTuples(strictCheck=True)
    order = [b for b in boot.G.loadedBibleBooksCodes.getSequenceList([b for b, f in exp])]
    ctx.seen('usfm', what); ctx.count('usfm-files', len(exp)); ctx.seen('style', ('usfm', style)); ctx.check(sorted(g) == sorted(exp), 'usfm', lambda: show(g), what); ctx.check(sorted(s) == sorted(exp), 'usfm-strict', lambda: show(s), what)
    if sorted(g) == sorted(exp): ctx.check([b for b, f in g] == order, 'order', lambda: f'{what}: {[b for b, f in g]} not {order}', what); ctx.check(sorted(rest) == sorted(extra), 'unused', lambda: f'{what}: {rest} not {extra}', what)
    with boot.quiet(): c = U.getConfirmedFilenameTuples(); cs = U.getConfirmedFilenameTuples(strictCheck=True)
    if 'BBB' in style and style not in ('BBB', 'en_BBB'): ctx.seen('pattern', what); ctx.check(sorted(c) == sorted(exp), 'confirmed', lambda: show(c), what)
    ctx.check(set(c) <= set(exp), 'confirmed-wrong', lambda: show(c), what); ctx.check(sorted(cs) == sorted(c), 'confirmed-strict', lambda: f'{what}: {cs} but {c}', what)
    with boot.quiet():
        B = USFMBible(d, 'T'); B.preload()
        ab = set(B.availableBBBs); B.loadBooks()
    ctx.seen('loaded', what); ctx.check(sorted(B.books) == sorted(order) == sorted(ab), 'loaded', lambda: f'{what}: available {sorted(ab)}, loaded {sorted(B.books)}, not {order}', what)
    if sorted(B.books) == sorted(order):
        idx = {t[2]: n for n, t in enumerate(T)}
        for b in order: ctx.check(any(e.getFullText() == f'word{idx[b]}' for e in B.books[b]._processedLines), 'content', lambda: f'{what}: {b} has no word{idx[b]}: {[e.getFullText() for e in B.books[b]._processedLines]}', what)
    if len(exp) > 1 and set(c) == set(exp):   # a file whose id line names another book (not in the folder)
        other = r.choice([t for t in T if t[2] not in dict(exp)][:1] or [None]); b, f = r.choice(exp)
        if other:
            with open(os.path.join(d, f), 'w') as h: h.write(f'\\id {other[0].upper()} Text\n\\h Head\n')
            with boot.quiet(): cs = USFMFilenames(d).getConfirmedFilenameTuples(strictCheck=True)
            ctx.seen('wrong-id', what); ctx.check(sorted(cs) == sorted(set(exp) - {(b, f)}), 'wrong-id', lambda: f'{what}: {f} has id {other[0]}: {[x for x in cs if x not in exp]} lacks {[x for x in exp if x not in cs]}', what)
    ctx.rmtree(d)

def usx(ctx, i):
    from BibleOrgSys.InputOutput.USXFilenames import USXFilenames
    from BibleOrgSys.Formats.USXXMLBible import USXXMLBible, USXXMLBibleFileCheck
    X = boot.G.loadedBibleBooksCodes.getAllUSXBooksCodeNumberTriples(); r = ctx.rng(i); style = list(USX)[i // 2 % len(USX)]; d = ctx.tmpdir('f')
    pool = X[:66] if style == 'dd-BBB' or r.random() < .6 else [t for t in X if not t[0].isupper()]
    picked = r.sample(pool, r.choice([1, 1, 2, 3, 5, 12, 66])); exp = []; bom = r.random() < .3; declaration = '<?xml version="1.0" encoding="utf-8"?>\n' if r.random() < .8 else ''
    for n, t in enumerate(X):
        if t not in picked: continue
        f = USX[style](t[0], t[1]); exp.append((t[2], f))
        with open(os.path.join(d, f), 'w', encoding='utf-8-sig' if bom else 'utf-8') as h: h.write(declaration + f'<usx version="3.0">\n  <book code="{t[0].upper()}" style="id">Text</book>\n  <chapter number="1" style="c" sid="{t[0].upper()} 1"/>\n  <para style="p"><verse number="1" style="v" sid="{t[0].upper()} 1:1"/>word{n}<verse eid="{t[0].upper()} 1:1"/></para>\n  <chapter eid="{t[0].upper()} 1"/>\n</usx>\n')
    extra = noise(r, d) if r.random() < .6 else []
    what = (style, len(exp), bool(extra), i); show = lambda g: f'{what}: missing {[x for x in exp if x not in g][:4]}, wrong {[x for x in g if x not in exp][:4]}'
    order = boot.G.loadedBibleBooksCodes.getSequenceList([b for b, f in exp])
    with boot.quiet(): U = USXFilenames(d); g = U.getConfirmedFilenameTuples(); s = U.getConfirmedFilenameTuples(strictCheck=True); rest = U.getUnusedFilenames()
    ctx.seen('usx', what); ctx.count('usx-files', len(exp)); ctx.seen('style', ('usx', style)); ctx.check(sorted(g) == sorted(exp), 'usx', lambda: show(g), what); ctx.check(sorted(s) == sorted(exp), 'usx-strict', lambda: show(s), what)
    if sorted(g) == sorted(exp): ctx.check([b for b, f in g] == order, 'order', lambda: f'{what}: {[b for b, f in g]} not {order}', what); ctx.check(sorted(rest) == sorted(extra), 'unused', lambda: f'{what}: {rest} not {extra}', what)
    with boot.quiet():
        n = USXXMLBibleFileCheck(d); B = USXXMLBible(d, 'T'); B.preload(); ab = set(B.availableBBBs); B.loadBooks()
    ctx.check(n == 1, 'usx-check', lambda: f'{what}: USXXMLBibleFileCheck gives {n!r}', what)
    ctx.seen('loaded', what); ctx.check(sorted(B.books) == sorted(order) == sorted(ab), 'loaded', lambda: f'{what}: available {sorted(ab)}, loaded {sorted(B.books)}, not {order}', what)
    if sorted(B.books) == sorted(order):
        idx = {t[2]: n for n, t in enumerate(X)}
        for b in order: ctx.check(any(e.getFullText() == f'word{idx[b]}' for e in B.books[b]._processedLines), 'content', lambda: f'{what}: {b} has no word{idx[b]}: {[e.getFullText() for e in B.books[b]._processedLines]}', what)
    ctx.rmtree(d)

def run(ctx):
    ctx.rule = 'folders of USFM files named in thirteen and USX files named in five styles, 1 to 66 books, beside files of other kinds; distinct = distinct (style, number of books, other files, seed)'
    ctx.need('usfm', 60); ctx.need('usx', 60); ctx.need('loaded', 120); ctx.need('wrong-id', 10); ctx.need('pattern', 15); ctx.need('style', 18)
    for i in ctx.cases(260, 6000): (usx if i % 2 else usfm)(ctx, i)
