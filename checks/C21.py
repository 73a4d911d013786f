"""USX: exported files say what the Bible says (ElementTree), reload to the same Bible, and foreign USX loads to what the same USFM loads to."""
import os, glob, re
from bosv import boot, gen, exports, obs, usxw, rich

FEATS = frozenset(gen.ALLFEATS | {'extrachar', 'alltoc', 'bare'})

def relax(x):
    """The caller of a note, the closing of note parts and the plus sign of nested markers may be written either way."""
    if isinstance(x, str): return re.sub(r'\\(f|x|fe) \S+ ', r'\\\1 + ', re.sub(r'\\(fr|ft|fk|fq|fqa|xo|xt)\*', '', x.replace('\\+', '\\')))
    if isinstance(x, (list, tuple)): return type(x)(relax(y) for y in x)
    return x

def loadUSX(folder, name='XYZ', viaAll=True):
    from BibleOrgSys.Formats.USXXMLBible import USXXMLBible
    with boot.quiet():
        B = USXXMLBible(folder, name); B.preload()
        if viaAll: B.loadBooks()
    return B

def sameBible(ctx, A, B, part, tag, replay):
    if list(A.books) != list(B.books):
        ctx.violation(part + '-books', f'{tag}: books {list(A.books)} became {list(B.books)}', replay); return
    for BBB in A.books:
        a, e = relax(obs.bookSig(A.books[BBB])), relax(obs.bookSig(B.books[BBB]))
        ctx.seen(part, repr(a))
        if a != e:
            d = next(((x, y) for x, y in zip(a, e) if x != y), (len(a), len(e)))
            ctx.violation(part, f'{tag} {BBB}: {d[0]!r} became {d[1]!r}', replay)

def paraMarkers(b):
    return [l[1:].split(' ')[0] for l in b.lines]

def exportReading(ctx, m, B, folder, version, tag, replay):
    """Read the export with ElementTree and compare with what was generated."""
    g = boot.G.loadedBibleBooksCodes
    names = {BBB: g.getUSFMAbbreviation(BBB).upper() for BBB in B.books}
    files = sorted(os.path.basename(f) for f in glob.glob(folder + '/*.usx'))
    ctx.check(sorted(f[3:-4] for f in files) == sorted(names.values()), 'export-files', f'{tag}: {files} for {list(B.books)}', replay)
    for b in m.books:
        fn = [f for f in files if f[3:-4] == names[b.bbb]]
        if not fn: continue
        try: R = usxw.Read(os.path.join(folder, fn[0]))
        except usxw.ET.ParseError as e:
            ctx.violation('not-well-formed', f'{tag} {b.bbb}: {e}', replay); continue
        ctx.seen('export-read', (version, b.usfm))
        ctx.check(not R.problems and not R.open, 'milestones', lambda: f'{tag} {b.bbb}: {R.problems[:3]} left open {R.open}', replay)
        ctx.check(R.root.find('book') is not None and R.root.find('book').attrib.get('code') == names[b.bbb], 'book-code', f'{tag} {b.bbb}', replay)
        ctx.check(R.chapters == b.chapters, 'chapters', lambda: f'{tag} {b.bbb}: {R.chapters} for {b.chapters}', replay)
        order = [(v.c, v.v) for v in b.verses]
        ctx.check(R.order == order, 'verse-order', lambda: f'{tag} {b.bbb}: {R.order} for {order}', replay)
        code = names[b.bbb]
        if version == 3:
            bad = [x for x in R.sids if x[0] != ' '.join([code, ':'.join(x[1:])])] + [x for x in R.vids if x[2] is not None and x[2] != f'{code} {x[0]}:{x[1]}']
            ctx.check(not bad, 'identifiers', lambda: f'{tag} {b.bbb}: {bad[:4]}', replay)
            ctx.check(len(R.sids) == len(b.chapters) + len(b.verses), 'identifiers', lambda: f'{tag} {b.bbb}: {len(R.sids)} identifiers for {len(b.chapters)} chapters and {len(b.verses)} verses', replay)
            ctx.count('paragraph-identifiers', sum(x[2] is not None for x in R.vids))
        idl = b.lines[0][4:].partition(' ')[2]
        ctx.check((R.bookText or '').strip() == idl.strip(), 'book-text', lambda: f'{tag} {b.bbb}: {idl!r} became {R.bookText!r}', replay)
        for v in b.verses:
            k = (v.c, v.v)
            ctx.count('verses-read')
            t = sq(v.plain).replace(' ', ''); a = sq(R.text.get(k, '')).replace(' ', '')
            ctx.check(a == t, 'verse-characters', lambda: f'{tag} {b.bbb} {k}: {v.plain!r} became {R.text.get(k)!r}', replay)
            got = R.main.get(k, [])
            ctx.check(got == v.main, 'verse-words', lambda: f'{tag} {b.bbb} {k}: words {v.main} became {got}', replay)
            notes = [n for n in v.notes if not n.startswith('\\fig')]
            en = [t for n in notes for t in gen.tokens(n)]
            ctx.check(R.notes.get(k, []) == en, 'note-words', lambda: f'{tag} {b.bbb} {k}: notes {en} became {R.notes.get(k)}', replay)
            es = [re.match(r'\\(\w+)', n).group(1) for n in notes]
            ctx.check(R.noteStyles.get(k, []) == es, 'note-kinds', lambda: f'{tag} {b.bbb} {k}: notes {es} became {R.noteStyles.get(k)}', replay)
            if es: ctx.count('notes-read', len(es))
        # headings and titles: same words, same marker, same place
        eh = [(l[1:].split(' ')[0], t) for l in b.lines if not l.startswith(('\\v ', '\\id ')) and l[1:].split(' ')[0] not in usxw.PARA for t in gen.tokens(l)]
        gh = [(h[2], h[3]) for h in R.heads]
        relaxed = lambda L: [(re.sub(r'1$', '', a), t) for a, t in L]
        ctx.check(relaxed(gh) == relaxed(eh), 'headings', lambda: f'{tag} {b.bbb}: headings {[x for x in eh if x not in gh][:5]} became {[x for x in gh if x not in eh][:5]}', replay)
        ctx.count('heading-words', len(eh))
        # paragraphs: the same sequence of markers
        ep = [re.sub(r'1$', '', p) for p in paraMarkers(b) if p not in ('id', 'c', 'v')]
        gp = [re.sub(r'1$', '', p[2] or '') for p in R.paras]
        ctx.check(gp == ep, 'paragraphs', lambda: f'{tag} {b.bbb}: paragraph styles {ep} became {gp}', replay)
        if version == 3:
            ew = [(v.c, v.v, re.match(r'\\w ([^|]*)', s.usfm).group(1), tuple(sorted(re.findall(r'([\w-]+)="([^"]*)"', s.usfm)))) for v in b.verses for p in v.pieces for s in p.segs if s.kind == 'w']
            ctx.check(R.words == ew, 'word-attributes', lambda: f'{tag} {b.bbb}: {ew[:3]} became {R.words[:3]}', replay)
            ctx.count('word-attributes', len(ew))
        # character styles around the same words
        def charsOf(u, c, v):
            u = re.sub(r'\\(fe|f|x|fig) .*?\\\1\*', '', u)
            out = []
            for x in re.finditer(r'\\(?!w |\+)(\w+) ((?:[^\\]|\\\+\w+ [^\\]*\\\+\w+\*|\\w [^\\]*\\w\*)*)\\\1\*', u):
                out.append((c, v, x.group(1), tuple(gen.tokens(x.group(2)))))
                out += [(c, v, y.group(1), tuple(gen.tokens(y.group(2)))) for y in re.finditer(r'\\\+(\w+) ([^\\]*)\\\+\1\*', x.group(2))]
            return out
        ec = [x for v in b.verses for p in v.pieces for x in charsOf(p.usfm, v.c, v.v)]
        ctx.check(R.chars == ec, 'character-styles', lambda: f'{tag} {b.bbb}: {[x for x in ec if x not in R.chars][:3]} became {[x for x in R.chars if x not in ec][:3]}', replay)
        ctx.count('character-styles', len(ec))

sq = lambda t: re.sub(r'[ \t\n]+', ' ', t or '').strip()
STYLE = re.compile(r'\\\+?\w+\*|\\\+?\w+ ')

def noteFlat(n):
    """(style, text without markers) of a note in USFM"""
    st = re.match(r'\\(\w+) \S+ ', n)
    return st.group(1), sq(STYLE.sub('', n[st.end():].removesuffix(f'\\{st.group(1)}*')))

def view(bk):
    out = []
    for t in obs.bookSig(bk):
        t = list(t)
        ex = sorted((x[0], sq(re.sub(r'\|([^="|]+)$', r'|lemma="\1"', relax(x[2])))) for x in t[4] or () if x[0] in ('fn', 'en', 'xr', 'ww', 'vp'))
        if t[0] != 'h': out.append((t[0], t[1], sq(relax(t[2] or '')), sq(t[3]), ex))
    return out

def dense(ctx, i):
    """Densely marked Bibles: words, spacing, notes; and what is loaded back"""
    r = ctx.rng('dense', i); b, u, B, bk = rich.load(ctx, r, simple=True); m = rich.model(b); rp = {'case': i, 'usfm': u}
    for exporter, sub in (('toUSXXML', 'USX3Files'), ('toUSX2XML', 'USX2Files')):
        o = ctx.tmpdir(); exports.run(B, exporter, o); tag = f'dense {exporter} case {i}'
        fns = glob.glob(f'{o}/{sub}/*.usx')
        ctx.check(len(fns) == 1, 'export-files', f'{tag}: {fns}', rp)
        if len(fns) != 1: continue
        try: R = usxw.Read(fns[0])
        except usxw.ET.ParseError as e: ctx.violation('not-well-formed', f'{tag}: {e}', rp); continue
        ctx.seen('dense', (exporter, u))
        ctx.check(not R.problems and not R.open, 'milestones', lambda: f'{tag}: {R.problems[:3]} left open {R.open}', rp)
        ctx.check(R.order == [(v.c, v.v) for v in m.verses], 'verse-order', lambda: f'{tag}: {R.order}', rp)
        for v in m.verses:
            k = (v.c, v.v); ctx.count('dense-verses')
            e, a = sq(v.plain.replace('\xa0', ' ')), sq(R.text.get(k, '').replace('\xa0', ' '))
            ctx.check(a == e, 'verse-text', lambda: f'{tag} {k}: {e!r} became {a!r}', rp)
            e, a = [noteFlat(n)[1] for n in v.notes], [sq(x[1]) for x in R.noteTexts.get(k, [])]
            ctx.check(a == e, 'note-text', lambda: f'{tag} {k}: {e!r} became {a!r}', rp)
            ctx.count('dense-notes', len(e))
        if exporter == 'toUSXXML':
            C = loadUSX(f'{o}/{sub}')
            a, e = view(C.books[b.bbb]) if b.bbb in C.books else [], view(bk)
            d = next(((x, y) for x, y in zip(e, a) if x != y), (len(e), len(a)))
            ctx.seen('dense-reload', u)
            ctx.check(a == e, 'dense-reload', lambda: f'{tag}: {d[0]!r} became {d[1]!r}', rp)
        ctx.rmtree(o)

def references(ctx, i):
    """Cross-references in exported notes: the text stays, and every plain reference says where it points to."""
    r = ctx.rng('refs', i)
    L = ['\\id EXO x', '\\h Exo', '\\mt1 Exo', '\\c 1', '\\p']; want = []
    for v in range(1, 13):
        items = []; exp = []; code = 'EXO'
        for _ in range(r.choice([1, 1, 2, 3])):
            a, b, c = r.randint(1, 9), r.randint(1, 5), r.randint(10, 12); d, e = b + r.randint(1, 4), r.randint(10, 16)
            n = ''
            if r.random() < .65: n, code = r.choice([('Gen', 'GEN'), ('Mat', 'MAT'), ('1Ki', '1KI'), ('Rom', 'ROM'), ('Psa', 'PSA')]); n += ' '
            t, x = r.choice([(f'{a}:{b}', [f'{a}:{b}'])] * 3 + [(f'{a}:{b}-{d}', [f'{a}:{b}-{d}']), (f'{a}:{b},{d}', [f'{a}:{b}', f'{a}:{d}']), (f'{a}:{b}-{c}:{d}', [f'{a}:{b}-{c}:{d}'])]
                            + ([(f'{a}', [f'{a}']), (f'{a}:{b}-{d},{e}', [f'{a}:{b}-{d}', f'{a}:{e}'])] if n else []))
            items.append(n + t); exp += [f'{code} {y}' for y in x]
        t = '; '.join(items)
        if r.random() < .2: t = r.choice([f'{t} and Gen 4:5', f'see above', f'LXX {t}', f'Xyz 3:4', f'{t}, and others', 'Gen 5; Xyz 3:4; Mat 5']); exp = None
        want.append((str(v), t, exp))
        L.append(f'\\v {v} word\\x + \\xo 1:{v} \\xt {t}\\x* here')
    d = ctx.tmpdir()
    with open(os.path.join(d, '02EXOXYZ.usfm'), 'wt', encoding='utf8') as f: f.write('\n'.join(L) + '\n')
    B = gen.loadUSFMq(d); rp = {'case': i, 'usfm': '\n'.join(L)}
    for exporter, sub in (('toUSXXML', 'USX3Files'), ('toUSX2XML', 'USX2Files')):
        o = ctx.tmpdir(); exports.run(B, exporter, o)
        R = usxw.Read(glob.glob(f'{o}/{sub}/*.usx')[0])
        for v, t, exp in want:
            ctx.seen('reference-note', (exporter, t))
            got = [sq(x[1]) for x in R.noteTexts.get(('1', v), [])]
            ctx.check(got == [sq(f'1:{v} {t}')], 'reference-text', lambda: f'{exporter} case {i}: cross-reference {t!r} became {got}', rp)
            if exp is not None and exporter == 'toUSXXML':
                loc = [x[2] for x in R.refs if x[:2] == ('1', v)]
                ctx.check(loc == exp, 'reference-target', lambda: f'{exporter} case {i}: {t!r} has ref targets {loc}, {exp} expected', rp)
        ctx.rmtree(o)
    ctx.rmtree(d)

def archives(ctx, o, sub, tag, rp):
    """The archives hold exactly the exported files."""
    import zipfile, tarfile
    want = {os.path.basename(f): open(f, 'rb').read() for f in glob.glob(f'{o}/{sub}/*.usx')}
    n = sub.replace('Files', '')
    for fn in (f'{o}/All{n}Files.zip', f'{o}/All{n}Files.gzip', f'{o}/All{n}Files.bz2', *[x for x in glob.glob(f'{o}/{sub}/All*')]):
        if not os.path.exists(fn): fn = f'{o}/{sub}/' + os.path.basename(fn)
        if not os.path.exists(fn): ctx.violation('archive-missing', f'{tag}: {os.path.basename(fn)}', rp); continue
        try:
            if fn.endswith('.zip'):
                with zipfile.ZipFile(fn) as z: got = [(x.filename, z.read(x)) for x in z.infolist()]
            else:
                with tarfile.open(fn, 'r:' + ('gz' if fn.endswith('.gzip') else 'bz2')) as z: got = [(x.name, z.extractfile(x).read()) for x in z.getmembers()]
        except Exception as e: ctx.violation('archive', f'{tag}: {os.path.basename(fn)} cannot be read: {e!r}', rp); continue
        ctx.seen('archive', (tag, os.path.basename(fn)))
        got = sorted((os.path.basename(a), b) for a, b in got)
        ctx.check(got == sorted(want.items()), 'archive', lambda: f'{tag}: {os.path.basename(fn)} holds {[x[0] for x in got]} for {sorted(want)}', rp)

def run(ctx):
    ctx.rule = 'a generated Bible with any mix of markup, exported / written as USX and read back'
    ctx.need('export-read', 40); ctx.need('round-trip3', 20); ctx.need('round-trip2', 8); ctx.need('foreign', 20); ctx.need('notes-read', 50); ctx.need('word-attributes', 20); ctx.need('dense', 60); ctx.need('dense-reload', 30); ctx.need('reference-note', 60); ctx.need('archive', 6); ctx.need('decorated', 10)
    g = boot.G
    numbers = {BBB: (code, num) for code, num, BBB in g.loadedBibleBooksCodes.getAllUSXBooksCodeNumberTriples()}
    for i in ctx.cases(45, 700):
        r = ctx.rng('rt', i)
        feats = set(FEATS)
        for f in list(feats):
            if r.random() < .12: feats.discard(f)
        m = gen.bible(r, feats, nBooks=r.choice([1, 2, 3]), maxVerses=r.choice([3, 6, 9]))
        d = ctx.tmpdir(); gen.writeUSFM(m, d)
        B = gen.loadUSFMq(d)
        rp = {'case': i, 'usfm': {b.bbb: b.usfm for b in m.books}}
        before = obs.bibleSig(B)
        for exporter, sub, version in (('toUSXXML', 'USX3Files', 3), ('toUSX2XML', 'USX2Files', 2)):
            o = ctx.tmpdir()
            exports.run(B, exporter, o)
            exportReading(ctx, m, B, os.path.join(o, sub), version, f'{exporter} case {i}', rp)
            if i % 5 == 0: archives(ctx, o, sub, f'{exporter} case {i}', rp)
            ctx.rmtree(o)
        ctx.check(obs.bibleSig(B) == before, 'export-changed-bible', f'case {i}', rp)
        ctx.rmtree(d)
        # what is exported is what is loaded again (figures are not exported; USX 2 has no word attributes)
        for exporter, sub, drop, part in (('toUSXXML', 'USX3Files', {'figs'}, 'round-trip3'), ('toUSX2XML', 'USX2Files', {'figs', 'w'}, 'round-trip2')):
            if part == 'round-trip2' and i % 2: continue
            m2 = gen.bible(ctx.rng('rt2', i), feats - drop, nBooks=r.choice([1, 2]), maxVerses=r.choice([3, 6]))
            d = ctx.tmpdir(); gen.writeUSFM(m2, d); B2 = gen.loadUSFMq(d)
            o = ctx.tmpdir(); exports.run(B2, exporter, o)
            rp2 = {'case': i, 'usfm': {b.bbb: b.usfm for b in m2.books}}
            C = loadUSX(os.path.join(o, sub))
            sameBible(ctx, B2, C, part, f'{exporter} case {i}', rp2)
            # again: the export of what was loaded is the same
            o2 = ctx.tmpdir(); exports.run(C, exporter, o2)
            a, e = [{k: re.sub(r'caller="[^"]*"', 'caller=""', v) for k, v in exports.tree(x + '/' + sub).items() if k.endswith('.usx')} for x in (o, o2)]
            ctx.check(a == e, 'second-export', lambda: f'{exporter} case {i}: {exports.diff(a, e)[:2]}', rp2)
            for x in (d, o, o2): ctx.rmtree(x)
    for i in ctx.cases(50, 900, 'dense'): dense(ctx, i)
    for i in ctx.cases(12, 120, 'refs'): references(ctx, i)
    # alternate and published numbers, chapter labels, and other rarer things
    for i in ctx.cases(25, 400, 'rare'):
        r = ctx.rng('rare', i)
        m = gen.bible(r, set(FEATS) - {'figs'}, nBooks=1, maxVerses=r.choice([3, 6])); usxw.decorate(r, m, figs=False)
        d = ctx.tmpdir(); gen.writeUSFM(m, d); B = gen.loadUSFMq(d); o = ctx.tmpdir(); exports.run(B, 'toUSXXML', o)
        C = loadUSX(o + '/USX3Files'); BBB = m.books[0].bbb
        a, e = view(C.books[BBB]) if BBB in C.books else [], view(B.books[BBB])
        x = next(((x, y) for x, y in zip(e, a) if x != y), (len(e), len(a)))
        ctx.seen('round-trip-rare', i)
        ctx.check(a == e, 'round-trip-rare', lambda: f'toUSXXML rare case {i}: {x[0]!r} became {x[1]!r}', {'case': i, 'usfm': m.books[0].usfm})
        for x in (d, o): ctx.rmtree(x)
    # USX as other programs write it
    for i in ctx.cases(40, 600):
        r = ctx.rng('own', i)
        feats = set(FEATS) - {'figs'}
        m = gen.bible(r, feats, nBooks=r.choice([1, 2, 3]), maxVerses=r.choice([3, 6, 9]))
        deco = ctx.rng('deco', i) if i % 2 else None
        if deco: usxw.decorate(deco, m)
        d = ctx.tmpdir(); gen.writeUSFM(m, d); B = gen.loadUSFMq(d)
        lay = (r.choice(['3.0', '3.0', '2.5', '2.0']), r.choice(['paratext', 'compact', 'lines']), r.random() < .3)
        o = ctx.tmpdir()
        for b in m.books:
            code, num = numbers[b.bbb]
            with open(os.path.join(o, f'{num}{code.upper()}.usx'), 'wt', encoding='utf8') as f: f.write(usxw.book(m, b, *lay, deco))
        rp = {'case': i, 'layout': lay, 'usfm': {b.bbb: b.usfm for b in m.books}}
        C = loadUSX(o)
        sameBible(ctx, B, C, 'foreign', f'own USX {lay} case {i}', rp)
        if deco: ctx.seen('decorated', i)
        # books loaded one at a time, in any order
        if i % 3 == 0:
            D = loadUSX(o, viaAll=False)
            bs = list(B.books); r.shuffle(bs)
            with boot.quiet():
                for BBB in bs: D.loadBookIfNecessary(BBB)
            for BBB in bs:
                ctx.seen('on-demand', (i, BBB))
                ctx.check(relax(obs.bookSig(D.books[BBB])) == relax(obs.bookSig(B.books[BBB])), 'on-demand', f'case {i} {BBB}', rp)
        for x in (d, o): ctx.rmtree(x)
