"""BibleDoor packages, pickled Bibles and verse-by-verse (BCV) folders."""
import os, re, glob, json, hashlib, zipfile, bz2, tarfile
from bosv import boot, gen, exports, readers, obs, usxw, exread

def ents(b):
    return [(e.getMarker(), e.getOriginalMarker(), e.getAdjustedText(), e.getCleanText(), [(x.getType(), x.getIndex(), x.getText(), x.getCleanText()) for x in (e.getExtras() or [])], e.getOriginalText()) for e in b._processedLines]

def js(*p):
    with open(os.path.join(*p), encoding='utf-8') as f: return json.load(f)
def data(*p):
    with open(os.path.join(*p), 'rb') as f: return f.read()

def firstInt(v): return int(re.match(r'\d+', v).group())

def sections(ctx, o, m, tag, rp):
    """The sections of compressed HTML."""
    R = readers.bibledoor(o)
    ctx.seen('package', repr(R.verses) + repr(R.text))
    for p in R.problems[:3]: ctx.violation('bibledoor-' + str(p[0]).replace(' ', '-'), f'{tag}: {p}', rp)
    want = [(v.bbb, v.c, v.v) for v in m.verses]
    ctx.check(R.verses == want, 'bibledoor-verses', lambda: f'{tag}: verses {[x for x in want if x not in R.verses][:4]} missing, {[x for x in R.verses if x not in want][:4]} added (or out of order)', rp)
    sp = lambda s: obs.norm(s.replace('\u00a0', ' '))
    for v in m.verses:
        k = (v.bbb, v.c, v.v)
        if k not in R.text: continue
        ctx.count('verses')
        ctx.check(gen.tokens(R.text[k]) == v.main, 'bibledoor-words', lambda: f'{tag} {k}: {v.main} became {gen.tokens(R.text[k])}', rp)
        ctx.check(sp(R.text[k]) == sp(v.plain), 'bibledoor-text', lambda: f'{tag} {k}: {sp(v.plain)!r} became {sp(R.text[k])!r}', rp)
        en = [gen.tokens(n) for n in v.notes if not n.startswith('\\fig')]; gn = [gen.tokens(x) for x in R.notes[k]]
        ctx.check(en == gn, 'bibledoor-notes', lambda: f'{tag} {k}: notes {en} became {gn}', rp); ctx.count('notes', len(en))
    for b in m.books:
        eh = [t for l in b.lines if l[1:].split(' ')[0] not in usxw.PARA | {'v', 'id', 'rem'} for t in gen.tokens(l)]
        gh = [t for h in R.heads if h[0] == b.bbb for t in gen.tokens(h[-1])]
        ctx.check(gh == eh, 'bibledoor-headings', lambda: f'{tag} {b.bbb}: {eh} became {gh}', rp); ctx.count('heading-words', len(eh))
        # the uncompressed book is the same, and its index gives the same sections
        fn = f'BDBook.{b.bbb}.1.html'
        with zipfile.ZipFile(glob.glob(o + f'/**/{fn}.zip', recursive=True)[0]) as z:
            ctx.check(z.namelist() == [fn], 'bibledoor-archive-members', lambda: f'{tag}: {z.namelist()}', rp)
            whole = z.read(fn).decode('utf-8')
        ctx.check(whole == R.raw[b.bbb], 'bibledoor-zipped-book', f'{tag} {b.bbb}: differs from the compressed book', rp)
        zi = [e for e in js(o, 'BySection.1.HTML.zip/BD-BCV-ZHTML-Index.1.json') if e[0] == b.bbb]
        ctx.check([whole[e[5]:e[5] + e[6]] for e in zi] == [s for _, s in R.sections[b.bbb]] and [e[:5] for e in zi] == [e[:5] for e, _ in R.sections[b.bbb]], 'bibledoor-zipped-index', f'{tag} {b.bbb}', rp)
        last = None        # (the verse in which the section before ends, where a section starts within a verse)
        for e, s in R.sections[b.bbb]:
            ids = [x[1]['id'] for x in readers.allnodes(readers.page(s)[0]) if x[1].get('class') == 'verse' and 'id' in x[1]]
            ids = [(int(a), int(v)) for a, v in re.findall(r"C(\d+)V(\d+)", ' '.join(ids))]
            ctx.count('sections')
            if ids: ctx.check(tuple(e[3:5]) == ids[-1], 'bibledoor-section-end', lambda: f'{tag} {e}: last verse is {ids[-1]}', rp)
            nums = [x for x in readers.allnodes(readers.page(s)[0]) if x[1].get('class') in ('verseNumber', 'verseOneNumber')]
            if nums and len(R.sections[b.bbb]) > 1: ctx.check(tuple(e[1:3]) in (ids[0], last) or e[1] == -1, 'bibledoor-section-start', lambda: f'{tag} {e}: first verse is {ids[0]}', rp)
            if ids: last = ids[-1]

def rest(ctx, o, m, B, tag, rp):
    """JSON files, plain text, names, checksums."""
    names = js(o, 'BDBookNames.1.json')
    ctx.check([x[0] for x in names] == [b.bbb for b in m.books], 'bibledoor-book-list', lambda: f'{tag}: {names}', rp)
    index = js(o, 'BySection.1.CHTML/BD-BCV-CHTML-Index.1.json')
    divs = js(o, 'BDDivisionNames.1.json')
    sums = js(o, 'BDChecksums.1.json'); files = {}
    for p, _, fs in os.walk(o):
        for f in fs: files.setdefault(f, []).append(os.path.join(p, f))
    for f, h in sums.items():
        ctx.check(f in files and h in [hashlib.md5(data(x)).hexdigest() for x in files[f]], 'bibledoor-checksum', f'{tag}: {f}', rp); ctx.count('checksums')
    for b, nm in zip(m.books, names):
        chapters = [l.split()[1] for l in b.lines if l.startswith('\\c ')]
        ctx.check(nm[4] == (int(chapters[-1]) if chapters else 0), 'bibledoor-chapter-count', f'{tag}: {nm} for {chapters}', rp)
        ctx.check(nm[5] == len([e for e in index if e[0] == b.bbb]), 'bibledoor-section-count', f'{tag}: {nm}', rp)
        ot = list(exread.kjv()).index(b.bbb) < 39
        ctx.check(divs[nm[6]] == ('Old Testament' if ot else 'New Testament'), 'bibledoor-division', f'{tag}: {nm} {divs}', rp)
        book = js(o, f'ByBook.1.JSON/{b.bbb}.1.json')
        want = []
        for e in B.books[b.bbb]._processedLines:
            row = [e.getMarker().replace('¬', '~')]
            if e.getAdjustedText() is not None or e.getExtras(): row.append(e.getAdjustedText())
            if e.getExtras(): row.append([[x.getType(), x.getIndex(), x.getText()] for x in e.getExtras()])
            want.append(row)
        d = next((i for i, (x, y) in enumerate(zip(book, want)) if x != y), None)
        ctx.check(book == want, 'bibledoor-json-book', lambda: f'{tag} {b.bbb}: line {d}: {book[d] if d is not None else len(book)} for {want[d] if d is not None else len(want)}', rp)
        parts = [js(o, f'ByChapter.1.JSON/{b.bbb}_{c}.1.json') for c in ['0'] + chapters]
        ctx.check([r for p in parts for r in p] == book, 'bibledoor-json-chapters', f'{tag} {b.bbb}: the chapters do not make up the book', rp)
        ctx.check(all(p and p[0] == ['c', c] for c, p in zip(chapters, parts[1:])), 'bibledoor-json-chapters', f'{tag} {b.bbb}: wrong chapter in a file', rp)
        ctx.count('json-lines', len(book))
        text = readers.slurp(os.path.join(o, f'ByBook.1.BDTXT/{b.bbb}.1.bd.txt'))
        idx = js(o, f'ByBook.1.BDTXT/{b.bbb}.1.bd.idx')
        pos = 0; V = {}; H = []; k = None; order = []; c = '1' if len(chapters) == 1 else None # books of one chapter have no chapter number
       
        for e in idx:
            ctx.check(e[2] == pos, 'bdtext-index', lambda: f'{tag} {b.bbb}: {e} at {pos}', rp)
            sec = text[e[2]:e[2] + e[3]]; pos = e[2] + e[3]; firstV = None
            for line in sec.split('\n'):
                mk, _, t = line.partition('=')
                if not ctx.check(re.fullmatch(r'[a-z]+\d?¤?', mk) is not None, 'bdtext-line', lambda: f'{tag} {b.bbb}: {line!r}', rp): continue
                if mk not in usxw.PARA: H += gen.tokens(t); continue
                for x in re.split(r'(\{[cv][\w\-]+\})', t):
                    if x.startswith('{c'): c = x[2:-1]
                    elif x.startswith('{v'):
                        if not ctx.check(c is not None, 'bdtext-no-chapter', lambda: f'{tag} {b.bbb}: {line!r}', rp): c = '1'
                        k = (c, x[2:-1]); order.append(k); V.setdefault(k, [])
                    elif k: V[k] += gen.tokens(x)
                    elif x.strip(): ctx.violation('bdtext-outside-verses', f'{tag} {b.bbb}: {x!r}', rp)
            if k: ctx.check((e[5] if len(e) > 5 else e[0], e[4]) == (int(k[0]), firstInt(k[1])), 'bdtext-section-end', lambda: f'{tag} {b.bbb}: {e} ends with {k}', rp)
            ctx.count('bdtext-sections')
        ctx.check(pos == len(text), 'bdtext-index', f'{tag} {b.bbb}: covers {pos} of {len(text)}', rp)
        W = {}; h = []; k = None; c = None
        for l in b.lines:
            mk, _, t = l[1:].partition(' ')
            if mk == 'c': c = t.strip(); continue
            if mk == 'v': k = (c, t.split()[0]); t = t.partition(' ')[2]; W[k] = []
            if mk in ('id', 'ide', 'usfm', 'h', 'toc1', 'toc2', 'toc3', 'rem'): continue
            if mk == 'v' or mk in usxw.PARA:
                if k: W[k] += gen.tokens(t)
            else: h += gen.tokens(t)
        ctx.check(order == list(W), 'bdtext-verses', lambda: f'{tag} {b.bbb}: {[x for x in W if x not in order][:4]} missing, {[x for x in order if x not in W][:4]} added', rp)
        for x in W:
            if x in V: ctx.check(V[x] == W[x], 'bdtext-words', lambda: f'{tag} {b.bbb} {x}: {W[x]} became {V[x]}', rp); ctx.count('bdtext-verses')
        ctx.check(H == h, 'bdtext-headings', lambda: f'{tag} {b.bbb}: {h} became {H}', rp)

def answers(B):
    out = []
    for b in B.books:
        X = B.books[b]._CVIndex
        for k in list(X): out.append((b, k, repr(X.getVerseEntries(k))))
        out.append((B.getNumChapters(b), [B.getNumVerses(b, str(c)) for c in range(1, (B.getNumChapters(b) or 0) + 1)]))
    return out

def same(ctx, A, Z, kind, tag, rp):
    if not ctx.check(list(A.books) == list(Z.books), f'{kind}-books', lambda: f'{tag}: {list(A.books)} became {list(Z.books)}', rp): return
    for b in A.books:
        x, y = ents(A.books[b]), ents(Z.books[b])
        d = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), None)
        ctx.check(x == y, f'{kind}-lines', lambda: f'{tag} {b}: {len(x)} lines, {len(y)} back; {x[d] if d is not None else ""} became {y[d] if d is not None else ""}', rp)
        ctx.count(f'{kind}-lines', len(x))
    ctx.check(answers(A) == answers(Z), f'{kind}-answers', f'{tag}: answers of the index differ', rp)

def run(ctx):
    from BibleOrgSys.Formats import PickledBible, BCVBible
    ctx.rule = 'a generated Bible with any mix of markup, packed for BibleDoor, pickled (folder and archive, each data level) and split into verse files; read back independently or with the real loader'
    for k, n in (('package', 60), ('verses', 300), ('notes', 100), ('heading-words', 100), ('sections', 100), ('json-lines', 2000), ('bdtext-verses', 300), ('bdtext-sections', 100), ('pickle-lines', 2000), ('bcv-lines', 2000)): ctx.need(k, n)
    for i in ctx.cases(100, 2500):
        r = ctx.rng('bd', i)
        f = {x for x in gen.ALLFEATS | {'amp', 'moreheads', 'bare'} if r.random() > .12}
        lists = r.random() < .3
        if not lists: f -= {'lists'}
        if i % 10 == 7: m = gen.bible(r, f, nBooks=66 if i == 7 else 15, maxVerses=r.choice([1, 2, 3]), pool=gen.ALL66, chapters=r.choice([1, 2, 13]))
        elif i % 5 == 3: m = gen.bible(r, f | {'at'}, nBooks=2, maxVerses=6)
        else: m = gen.bible(r, f, nBooks=r.choice([1, 2, 3]), maxVerses=r.choice([3, 6, 9]))
        d = ctx.tmpdir(); gen.writeUSFM(m, d); B = gen.loadUSFMq(d)
        rp = {'case': i, 'usfm': {b.bbb: b.usfm for b in m.books}}
        if 'lists' not in f:
            o = ctx.tmpdir(); tag = f'toBibleDoor case {i}'; exports.run(B, 'toBibleDoor', o)
            try: sections(ctx, o, m, tag, rp); rest(ctx, o, m, B, tag, rp)
            except (KeyError, ValueError, IndexError, OSError) as e: ctx.violation('bibledoor-unreadable', f'{tag}: {type(e).__name__} {e}', rp)
            ctx.rmtree(o)
        level = r.choice([1, 1, 2]); zipOnly = r.random() < .3
        o = ctx.tmpdir(); tag = f'toPickledBible case {i} level {level}'
        exports.run(B, 'toPickledBible', o, dataLevel=level, zipOnly=zipOnly)
        z = glob.glob(o + '/*.zip')
        ctx.check(len(z) == 1, 'pickle-archive', f'{tag}: {os.listdir(o)}', rp)
        want = {f'{b.bbb}.pickle' for b in m.books} | {'BibleInfo.pickle', 'BibleVersion.pickle'}
        with zipfile.ZipFile(z[0]) as zf: ctx.check(set(zf.namelist()) == want and len(zf.namelist()) == len(want), 'pickle-archive', lambda: f'{tag}: {zf.namelist()}', rp)
        ctx.check({x for x in os.listdir(o) if x.endswith('.pickle')} == (set() if zipOnly else want), 'pickle-files', f'{tag}: {os.listdir(o)}', rp)
        for src in z + ([] if zipOnly else [o]):
            try:
                with boot.quiet(): P = PickledBible.PickledBibleFileCheck(src, autoLoad=True, autoLoadBooks=True)
            except Exception as e: ctx.violation('pickle-load', f'{tag} {os.path.basename(src)}: {type(e).__name__} {e}', rp); continue
            if ctx.check(hasattr(P, 'books'), 'pickle-not-found', f'{tag} {os.path.basename(src)}: {P!r}', rp): same(ctx, B, P, 'pickle', tag, rp)
        ctx.rmtree(o)
        o = ctx.tmpdir() + '/bcv'; tag = f'toBOSBCV case {i}'; exports.run(B, 'toBOSBCV', o)
        on = {os.path.relpath(os.path.join(p, x), o) for p, _, fs in os.walk(o) for x in fs if not x.endswith('.zip')}
        with zipfile.ZipFile(o + '/AllFiles.zip') as zf:
            ctx.check(set(zf.namelist()) == on, 'bcv-archive', lambda: f'{tag}: {zf.namelist()[:6]} for {sorted(on)[:6]}', rp)
            for n in zf.namelist(): ctx.check(n not in on or zf.read(n) == data(o, n), 'bcv-archive', f'{tag}: {n}', rp)
        for v in m.verses:
            fn = f'{o}/{v.bbb}/{v.bbb}_C{v.c}V{v.v}.txt'
            if not ctx.check(os.path.exists(fn), 'bcv-verse-file', f'{tag}: {os.path.basename(fn)}', rp): continue
            t = readers.slurp(fn)
            ctx.check(re.search(r'^\\v=' + re.escape(v.v) + '$', t, re.M), 'bcv-verse-file', lambda: f'{tag}: {os.path.basename(fn)} {t!r}', rp); ctx.count('bcv-files')
        try:
            with boot.quiet(): P = BCVBible.BCVBibleFileCheck(o, autoLoad=True, autoLoadBooks=True)
        except Exception as e: ctx.violation('bcv-load', f'{tag}: {type(e).__name__} {e}', rp)
        else:
            if ctx.check(hasattr(P, 'books'), 'bcv-not-found', f'{tag}: {P!r}', rp): same(ctx, B, P, 'bcv', tag, rp)
        ctx.rmtree(os.path.dirname(o)); ctx.rmtree(d)
