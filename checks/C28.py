"""Format detection: a folder of a Bible is recognised as the format it was written in, and is left as it was."""
import os, shutil
from bosv import boot, exports, exread, gen, plain as P

# format: name reported, class, label in counts, writer kind
PLAIN = {'csv-quoted': ('CSV Bible', 'CSVBible', 'CSV', lambda b, d, r: P.csv(b, d + '/snv.csv', 'quoted')), 'csv-bar': ('CSV Bible', 'CSVBible', 'CSV', lambda b, d, r: P.csv(b, d + '/snv.csv', 'bar')), 'csv-bare': ('CSV Bible', 'CSVBible', 'CSV', lambda b, d, r: P.csv(b, d + '/snv.csv', 'bare')),
         'vpl-names': ('VPL Bible', 'VPLBible', 'VPL', lambda b, d, r: P.vpl(b, d + '/snv.txt', 1)), 'vpl-numbers': ('VPL Bible', 'VPLBible', 'VPL', lambda b, d, r: P.vpl(b, d + '/snv.txt', 2)), 'vpl-header': ('VPL Bible', 'VPLBible', 'VPL', lambda b, d, r: P.vpl(b, d + '/snv.txt', 3)),
         'forge': ('Forge Bible', 'ForgeForSwordSearcherBible', 'Forge', lambda b, d, r: P.forge(b, d + '/snv.txt')), 'unbound': ('Unbound Bible', 'UnboundBible', 'Unbound', lambda b, d, r: P.unbound(b, d + '/snv_utf8.txt', r.choice([4, 6, 9]))),
         'drupal': ('Drupal Bible', 'DrupalBible', 'Drupal', lambda b, d, r: P.drupal(b, d + '/snv.bc')), 'yet': ('YET Bible', 'YETBible', 'YET', lambda b, d, r: P.yet(b, d + '/snv.yet')),
         'zefania': ('Zefania XML Bible', 'ZefaniaXMLBible', 'Zefania', lambda b, d, r: P.zefania(b, d + '/snv.xml', info=True)), 'haggai': ('Haggai XML Bible', 'HaggaiXMLBible', 'Haggai', lambda b, d, r: P.haggai(b, d + '/snv.xml')),
         'opensong': ('OpenSong XML Bible', 'OpenSongXMLBible', 'OpenSong', lambda b, d, r: P.opensong(b, d + '/snv')), 'verseview': ('VerseView XML Bible', 'VerseViewXMLBible', 'VerseView', lambda b, d, r: P.verseview(b, d + '/snv.xml')),
         'theword': ('theWord Bible', 'theWordBible', 'theWord', lambda b, d, r: P.theword(b, d, 'snv', exread.kjv())), 'mysword': ('MySword Bible', 'MySwordBible', 'MySword', lambda b, d, r: P.mysword(b, d + '/snv.bbl.mybible')),
         'esword': ('e-Sword Bible', 'ESwordBible', 'e-Sword-Bible', lambda b, d, r: P.esword(b, d + '/snv.bblx')), 'mybible': ('MyBible Bible', 'MyBibleBible', 'MyBible', lambda b, d, r: P.mybible(b, d + '/snv.SQLite3', r.choice(['books', 'books_all'])))}
EXPORT = {'usfm': ('USFM Bible', 'USFMBible', 'USFM', None, ''), 'usfm-exported': ('USFM Bible', 'USFMBible', 'USFM', 'toUSFM3', ''), 'usfm2-exported': ('USFM2 Bible', 'USFM2Bible', 'USFM2', 'toUSFM2', ''), 'esfm': ('ESFM Bible', 'ESFMBible', 'ESFM', 'toESFM', ''), 'usx': ('USX XML Bible', 'USXXMLBible', 'USX', 'toUSXXML', 'USX3Files'), 'usfx': ('USFX XML Bible', 'USFXXMLBible', 'USFX', 'toUSFXXML', ''),
          'osis': ('OSIS XML Bible', 'OSISXMLBible', 'OSIS', 'toOSISXML', ''), 'pickle': ('pickled Bible', 'PickledBible', 'Pickled', 'toPickledBible', ''), 'easyworship': ('EasyWorship Bible', 'EasyWorshipBible', 'EasyWorship', 'toEasyWorshipBible', '')}

def tree(d):
    out = {}
    for p, ds, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(p, f), 'rb') as h: out[os.path.relpath(os.path.join(p, f), d)] = h.read()
        for x in ds: out[os.path.relpath(os.path.join(p, x), d)] = None
    return out

def make(ctx, r, kind, d):
    """Write a Bible of the kind into folder d; gives its books"""
    if kind in PLAIN:
        K = exread.kjv()
        bs = P.bible(r, counts=K, pool=P.ORDER[:3], nBooks=99, maxVerses=3) if kind == 'verseview' else P.bible(r, counts=K, pool=P.ORDER[39:] if kind == 'theword' else P.ORDER, maxVerses=8)
        while sum(len(vs) for b in bs for c, vs in b.chapters) < 4: bs = P.bible(r, counts=K, pool=P.ORDER[39:] if kind == 'theword' else P.ORDER, maxVerses=8)
        os.makedirs(d, exist_ok=True); PLAIN[kind][3](bs, d, r); return [b.bbb for b in bs]
    from BibleOrgSys.Formats.USFMBible import USFMBible
    m = gen.bible(r, ('para',), 1 if kind == 'osis' else r.choice([1, 2, 3]), 6)   # OSIS is exported as a file for each book
    src = ctx.tmpdir('s'); gen.writeUSFM(m, src)
    name, sub = EXPORT[kind][3:]
    if name is None: shutil.copytree(src, d, dirs_exist_ok=True); ctx.rmtree(src); return [b.bbb for b in m.books]
    with boot.quiet(): B = USFMBible(src, 'Test'); B.preload(); B.loadBooks()
    if kind == 'esfm' and versionOf(src)[0] != 'USFM Bible': return make(ctx, r, kind, d)   # an ESFM Bible has \usfm 3 lines
    o = ctx.tmpdir('o'); exports.run(B, name, o); shutil.copytree(os.path.join(o, sub) if sub else o, d, dirs_exist_ok=True); ctx.rmtree(o); ctx.rmtree(src)
    return list(B.books)

def versionOf(d):
    three = any(l.startswith('\\usfm 3') for f in os.listdir(d) if os.path.isfile(os.path.join(d, f)) for l in open(os.path.join(d, f), encoding='utf-8-sig', errors='replace').read().split('\n')[:4])
    return ('USFM Bible', 'USFMBible', 'USFM') if three else ('USFM2 Bible', 'USFM2Bible', 'USFM2')

def noise(r, d):
    for n in r.sample(['README.md', 'notes.txt', 'page.xml', 'images', 'LICENSE', 'empty', 'old.bak', 'notes.yet', 'table.csv', 'x.bc', 'text_utf8.txt', 'Foreword.usfm', 'x.usx', 'x.osis', 'small.csv', 'small.xml', 'names.txt'], r.choice([1, 2, 4, 7, 15])):
        f = os.path.join(d, n)
        if n == 'images': os.makedirs(f, exist_ok=True); open(os.path.join(f, 'a.png'), 'wb').write(b'\x89PNG\r\n\x1a\n\xff\xfe\0\1')
        elif n == 'page.xml': open(f, 'w').write('<?xml version="1.0"?>\n<html>\n<body>\n</body>\n</html>\n')
        elif n == 'small.csv': open(f, 'w').write('a,b\n1,2\n')
        elif n == 'small.xml': open(f, 'w').write('<?xml version="1.0"?>\n<a/>\n')
        elif n == 'names.txt': open(f, 'w').write('Gen Genesis\nExo Exodus\nLev Leviticus\nNum Numbers\n')
        elif n == 'empty': open(f, 'w').close()
        elif n == 'old.bak': open(f, 'wb').write(bytes(range(256)))
        else: open(f, 'w').write('This is some text.\n\nIt is not a Bible.\nBut it has some lines.\nMore than four.\n')

def run(ctx):
    from BibleOrgSys.UnknownBible import UnknownBible
    ctx.rule = 'folders with a Bible in one of 26 styles of 22 formats, flat or one level down, alone or beside other files and folders, two of the same or of different formats; distinct = distinct (formats, arrangement, question, seed)'
    ctx.need('type', 100); ctx.need('object', 60); ctx.need('loaded', 60); ctx.need('two', 35); ctx.need('many', 10); ctx.need('unchanged', 150); ctx.need('empty', 5); ctx.need('folder-of-no-bible', 5)
    A = {**PLAIN, **EXPORT}; kinds = list(A)
    def ask(d, **kw):
        with boot.quiet():
            u = UnknownBible(d)
            try: return u.search(**kw), u
            except (Exception, SystemExit) as e: return e, u
    def show(x): return f'{x[0]!r} / {x[1]}'
    for i in ctx.cases(150, 3000):
        r = ctx.rng(i); kind = kinds[i % len(kinds)]; name, cls, label = A[kind][:3]; top = ctx.tmpdir('u'); nested = r.random() < .5; d = os.path.join(top, r.choice(['one', 'My Bible'])) if nested else top
        if r.random() < .15:
            if r.random() < .5: noise(r, top)
            before = tree(top); x = ask(top, autoLoad=r.random() < .3); ctx.seen('folder-of-no-bible' if before else 'empty', (i, tuple(before)))
            ctx.check(x[0] == 'None found' or x[0] is None, 'found-nothing', lambda: f'folder with {list(before)}: {show(x)}', i); ctx.check(tree(top) == before, 'folder-changed', lambda: f'{list(before)}', i)
        books = make(ctx, r, kind, d)
        if kind in ('usfm', 'usfm2-exported'): name, cls, label = versionOf(d)
        noisy = r.random() < .5; what = (kind, 'nested' if nested else 'flat', noisy, i)
        if noisy: noise(r, top)
        before = tree(top)
        x = ask(top); ctx.seen('type', what); ctx.check(x[0] == name and x[1].foundType == name, 'type', lambda: f'{what}: {show(x)} not {name!r}', what)
        x = ask(top, strictCheck=False, **({'autoLoad': True} if r.random() < .3 else {})); ctx.seen('loose', what); ctx.check(x[1].foundType == name, 'loose-type', lambda: f'{what}: {show(x)} not {name!r}', what)
        how = r.choice(['autoLoad', 'autoLoadAlways']); x = ask(top, **{how: True}); ctx.seen('object', what); ctx.check(type(x[0]).__name__ == cls and x[1].foundType == name and not x[0].books, 'object', lambda: f'{what} {how}: {show(x)} not a {cls} without books', what)
        x = ask(top, autoLoadBooks=True); ctx.seen('loaded', what)
        ok = type(x[0]).__name__ == cls
        ctx.check(ok and (set(books) <= set(x[0].books) if kind == 'easyworship' else sorted(x[0].books) == sorted(books)), 'loaded', lambda: f'{what}: {show(x)} with {list(x[0].books) if ok else None}, not a {cls} with {books}', what)
        ctx.seen('unchanged', what); ctx.check(tree(top) == before, 'folder-changed', lambda: f'{what}: {[f for f in set(before) | set(tree(top)) if before.get(f, 0) != tree(top).get(f, 0)][:5]}', what)
        if nested:
            two = r.choice([kind, kind, r.choice(kinds)]); make(ctx, r, two, os.path.join(top, 'two')); before = tree(top); x = ask(top, strictCheck=r.random() < .7); w2 = (kind, two, i)
            n2, c2 = versionOf(os.path.join(top, 'two'))[:2] if two in ('usfm', 'usfm2-exported') else A[two][:2]; same = n2 == name
            if same: ctx.seen('two', w2); ctx.check(x[0] == f'Multiple found: {label}:2 Bibles', 'two', lambda: f'{w2}: {show(x)}', w2)
            else: ctx.seen('many', w2); ctx.check(x[0] == 'Many types found', 'many', lambda: f'{w2}: {show(x)}', w2)
            x = ask(top, autoLoadAlways=True); ctx.seen('autoload-always', w2)
            if not same: ctx.check(type(x[0]).__name__ in (cls, c2), 'autoload-always', lambda: f'{w2}: {show(x)}', w2)
            ctx.check(tree(top) == before, 'folder-changed', lambda: f'{w2}', w2)
        ctx.rmtree(top)
