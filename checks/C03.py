"""The chapter/verse index: every processed line is filed exactly once, under the verse it belongs to, with the markers open before it."""
from bosv import boot, gen, nest, real, rich
from checks.C02 import nesting

PULLED = lambda mk: mk not in ('c', 'v', 'v~', 'p~') and not mk.startswith('¬')

def model(es):
    """[(C,V), start, count, open markers] worked out from the entry stream alone."""
    n = len(es); key = [None] * n
    C, V = '-1', '0'; k = 0
    starts = []                      # (key, start)
    for j, e in enumerate(es):
        mk = e.getMarker()
        if mk == 'c': C = e.getCleanText(); starts.append(((C, '0'), j))
        elif C == '-1': starts.append((('-1', str(j)), j))
        elif mk == 'v':
            s = j
            while s > 0 and PULLED(es[s - 1].getMarker()): s -= 1
            starts.append(((C, e.getCleanText()), s))
    out = []
    for x, (k, s) in enumerate(starts):
        end = starts[x + 1][1] if x + 1 < len(starts) else n
        out.append((k, s, end - s))
    return out

def contexts(es):
    """Markers open before each entry (never 'v' -- a verse is what is being looked up)."""
    st = []; out = []; N = nesting()
    for e in es:
        mk = e.getMarker(); out.append(list(st))
        if mk[0] == '¬':
            if mk[1:] in st: st.remove(mk[1:])
        elif mk in N and mk != 'v': st.append(mk)
    return out

VERSE_HEADINGS = {'s', 's1', 's2', 's3', 's4', 'sp'}
BETWEEN = nest.PARAS | {'c#', 'r', 'd', 'ms1', 'mr', 'sr', 'sp', 'ib', 'b', 'cl¤', 'tr', 'v=', 'list', 'vp#', 'qa', 'qc'}
def verseStarts(ctx, tag, bk, es, rep):
    """headings directly before a verse are introduced by a v= line with its number, and nothing else is"""
    for i, e in enumerate(es):
        mk = e.getMarker()
        if mk == 'v=':
            ctx.check(i + 1 < len(es) and es[i + 1].getMarker() in VERSE_HEADINGS, 'stray-verse-start', lambda: f'{tag} {bk.BBB} at {i}', rep)
        if mk in VERSE_HEADINGS:
            j = i + 1
            while j < len(es) and es[j].getMarker() in BETWEEN: j += 1
            want = es[j].getCleanText() if j < len(es) and es[j].getMarker() == 'v' else None
            have = es[i - 1].getCleanText() if es[i - 1].getMarker() == 'v=' else None
            ctx.seen('verse-start', ' '.join(x.getMarker() for x in es[i:j + 1]))
            ctx.check(want == have, 'verse-start', lambda: f'{tag} {bk.BBB} at {i}: {mk} before verse {want}, marked {have}', rep)

def watchBook(ctx, tag, bk, rep):
    es = list(bk); ix = bk._CVIndex
    verseStarts(ctx, tag, bk, es, rep)
    exp = model(es); con = contexts(es)
    keys = [k for k, s, c in exp]
    if len(set(keys)) != len(keys): ctx.count('books-with-repeated-verse-numbers'); return     # not well-formed: out of scope
    got = list(ix)
    if not ctx.check(got == keys, 'index-keys', lambda: f'{tag} {bk.BBB}: {[k for k in got if k not in keys][:6]} / {[k for k in keys if k not in got][:6]}', rep): return
    ctx.check(len(ix) == len(keys), 'index-length', lambda: f'{tag} {bk.BBB} {len(ix)} {len(keys)}', rep)
    covered = 0
    for k, s, c in exp:
        e = ix[k]
        ctx.seen('index-entry', f'{[x.getMarker() for x in es[s:s+c]]} {con[s]}')
        ctx.check((e.getEntryIndex(), e.getEntryCount(), e.getNextEntryIndex()) == (s, c, s + c), 'index-entry-range', lambda: f'{tag} {bk.BBB} {k}: got {e.getEntryIndex()}+{e.getEntryCount()}, expected {s}+{c}', rep)
        ctx.check(e.getContextList() == con[s], 'index-context', lambda: f'{tag} {bk.BBB} {k}: got {e.getContextList()}, open are {con[s]}', rep)
        ctx.check(k in ix and (e[0], e[1], e[2]) == (s, c, con[s]), 'index-subscript', lambda: f'{tag} {bk.BBB} {k}', rep)
        ve = list(ix.getVerseEntries(k))
        ctx.check([id(x) for x in ve] == [id(x) for x in es[s:s + c]], 'verse-entries', lambda: f'{tag} {bk.BBB} {k}: {len(ve)} entries instead of {c}', rep)
        vs = [x.getCleanText() for x in ve if x.getMarker() == 'v']
        ctx.check(vs == ([] if k[1] == '0' or k[0] == '-1' else [k[1]]), 'verse-marker-in-entry', lambda: f'{tag} {bk.BBB} {k}: {vs}', rep)
        covered += e.getEntryCount()
    ctx.check(covered == len(es), 'lines-not-all-indexed', lambda: f'{tag} {bk.BBB}: {covered} of {len(es)}', rep)
    ctx.check((bk.BBB and ('999', '999')) not in ix, 'phantom-key', tag, rep)
    # chapters
    chs = [k for k in keys if k[1] == '0' and k[0] != '-1']
    for a, k in enumerate(chs):
        s = ix[k].getEntryIndex()
        end = ix[chs[a + 1]].getEntryIndex() if a + 1 < len(chs) else len(es)   # (whatever its number is)
        want = [id(x) for x in es[s:end]]
        ctx.seen('chapter', f'{k} {len(want)}')
        ctx.check([id(x) for x in ix.getChapterEntries(k[0])] == want, 'chapter-entries', lambda: f'{tag} {bk.BBB} {k}', rep)
        l, c = ix.getChapterEntriesWithContext(k[0])
        ctx.check([id(x) for x in l] == want and c == con[s], 'chapter-entries-with-context', lambda: f'{tag} {bk.BBB} {k} {c} {con[s]}', rep)
    for bad in (('777', '1'), ('1', '777'), ('-1', '99999')):
        try: ix.getVerseEntries(bad); ctx.violation('missing-verse-found', f'{tag} {bk.BBB} {bad}', rep)
        except KeyError: ctx.count('absent-verse-lookups')

def run(ctx):
    ctx.rule = 'index of each processed book compared entry by entry with one recomputed from the entry stream; distinct = distinct (marker sequence, context) of index entries'
    ctx.need('index-entry', 3000); ctx.need('chapter', 200); ctx.need('verse-start', 20)
    for i in ctx.cases(200):
        r = ctx.rng('b', i); feats = set(gen.ALLFEATS) | {'bare'}
        for f in sorted(feats):
            if r.random() < .1: feats.discard(f)
        m = gen.bible(r, feats, maxVerses=r.choice([3, 6, 10]))
        d = ctx.tmpdir('u'); gen.writeUSFM(m, d)
        try:
            with boot.quiet(): B = gen.loadUSFM(d)
        finally: ctx.rmtree(d)
        for b in m.books:
            bk = B.books[b.bbb]
            watchBook(ctx, 'generated', bk, {'usfm': b.usfm})
            want = {(v.c, v.v) for v in b.verses} | {(c, '0') for c in b.chapters}
            got = {k for k in bk._CVIndex if k[0] != '-1'}
            ctx.check(got == want, 'index-is-not-the-source', lambda: f'{b.bbb}: extra {got-want} missing {want-got}', {'usfm': b.usfm})
            hd = {}
            for c, v, mk, pc in b.headings:
                if mk in ('s1', 's2', 's') and v not in ('0',): hd.setdefault((c, v), []).append(pc)
            for v in b.verses:
                ve = bk._CVIndex.getVerseEntries((v.c, v.v))
                mine = [t for e in ve for t in gen.tokens(e.getCleanText() or '') if e.getMarker() in ('v~', 'p~')]
                ctx.seen('verse-words', repr(mine))
                ctx.check(mine == v.main, 'verse-words', lambda: f'{b.bbb} {v.c}:{v.v}: {mine} instead of {v.main}', {'usfm': b.usfm})
        if i < 2: ctx.sample({'book': m.books[0].bbb, 'index': [(k, e.getEntryIndex(), e.getEntryCount(), e.getContextList()) for k, e in list(B.books[m.books[0].bbb]._CVIndex.items())[:25]]})
    for i in ctx.cases(150):
        b, usfm, B, bk = rich.load(ctx, ctx.rng('dense', i)); rep = {'dense': i, 'usfm': usfm}
        watchBook(ctx, 'dense', bk, rep)
        want = {(c, v) for k, m, c, v, *_ in b.items if k in ('v', 'vnote', 'vp')} | {(it[2], '0') for it in b.items if it[0] in ('c', 'cnote')}
        got = {k for k in bk._CVIndex if k[0] != '-1'}
        ctx.check(got == want, 'index-is-not-the-source', lambda: f'{b.bbb}: extra {got-want} missing {want-got}', rep)
        texts = {}
        for it in b.items:
            if it[0] in ('v', 'vnote', 'vp', 'cont') and it[4] is not None and it[1] != 'qc': texts.setdefault((it[2], it[3]), []).extend(gen.tokens(it[4].clean))
        for k, w in texts.items():
            mine = [t for e in bk._CVIndex.getVerseEntries(k) for t in gen.tokens(e.getCleanText() or '') if e.getMarker() in ('v~', 'p~')]      # (qc is treated as a heading)
            ctx.check(mine == w, 'verse-words', lambda: f'{b.bbb} {k}: {mine} instead of {w}', rep)
    for n, B in real.usfm():
        for BBB in B.books:
            if not boot.G.loadedBibleBooksCodes.isChapterVerseBook(BBB): continue
            ctx.seen('real-book', n + BBB); watchBook(ctx, n, B.books[BBB], {'folder': n, 'book': BBB})
