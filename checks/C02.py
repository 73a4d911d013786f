"""Nesting markers: whatever is opened is closed exactly once, in its right place, and processing stays balanced."""
from bosv import boot, gen, nest, real, obs, rich

def nesting():
    from BibleOrgSys.Internals.InternalBibleInternals import BOS_NESTING_MARKERS
    return set(BOS_NESTING_MARKERS) | nest.CONTAINERS

def watch(ctx, tag, bk, rep):
    es = list(bk); N = nesting()
    for kind, i, d in nest.walk(es, N):
        ctx.violation('nesting-' + kind, f'{tag} {bk.BBB} at {i}: {d}; around {[(e.getMarker(), (e.getCleanText() or "")[:12]) for e in es[max(0,i-8):i+4]]}', rep)
    for mk in (e.getMarker() for e in es): ctx.count('events-closed' if mk[0] == '¬' else 'events-opened' if mk in N else 'events-other')
    return es

def onGenerated(ctx, i):
    r = ctx.rng('b', i)
    feats = set(gen.ALLFEATS)
    for f in sorted(feats):
        if r.random() < .1: feats.discard(f)
    m = gen.bible(r, feats, maxVerses=r.choice([3, 6, 10]))
    d = ctx.tmpdir('u'); gen.writeUSFM(m, d)
    try:
        with boot.quiet(): B = gen.loadUSFM(d)
    finally: ctx.rmtree(d)
    for b in m.books:
        bk = B.books[b.bbb]
        es = watch(ctx, 'generated', bk, {'usfm': b.usfm})
        ctx.seen('book', ' '.join(e.getMarker() for e in es))
        open_ = nest.openAt(es, nesting())
        # the text of every verse lies inside that chapter and that verse; headings and chapter numbers lie outside of verses where the verse is over
        C = V = None; vi = 0; text = {(v.c, v.v): sum(1 for _ in v.pieces) for v in b.verses}; got = {}
        paras = {}
        for e, o in zip(es, open_):
            mk = e.getMarker()
            if mk == 'c': C = e.getCleanText(); V = None
            elif mk == 'v': V = e.getCleanText()
            elif mk == '¬v':
                ctx.check(e.getCleanText() == V, 'verse-closed-with-other-number', lambda: f'{b.bbb} {C}:{V} {e}', {'usfm': b.usfm}); V = None
            elif mk == '¬c': ctx.check(e.getCleanText() == C, 'chapter-closed-with-other-number', lambda: f'{b.bbb} {C}:{V} {e}', {'usfm': b.usfm})
            elif mk in ('v~', 'p~'):
                ctx.check('c' in o and 'v' in o, 'verse-text-outside-verse', lambda: f'{b.bbb} {C}:{V} {e} with {o} open', {'usfm': b.usfm})
                got[(C, V)] = got.get((C, V), 0) + 1
                p = [x for x in o if x in nest.PARAS]
                paras.setdefault((C, V), []).append(p[-1] if p else None)
        ctx.check(got == text, 'text-in-open-verse', lambda: f'{b.bbb}: {[(k, text.get(k), got.get(k)) for k in set(text) | set(got) if text.get(k) != got.get(k)]}', {'usfm': b.usfm})
        # continuation text lies in the kind of paragraph it was written in (nb carries no nesting of its own)
        for v in b.verses:
            p = paras.get((v.c, v.v), [])
            want = v.paraBreaks[-(len(v.pieces) - 1):] if len(v.pieces) > 1 else []
            for k, w in enumerate(want):
                if w == 'nb': continue
                ctx.seen('paragraph-of-text', f'{w} {p}')
                ctx.check(len(p) > k + 1 and p[k + 1] == w, 'text-in-other-paragraph', lambda: f'{b.bbb} {v.c}:{v.v} piece {k+1} should be in {w}, is in {p}', {'usfm': b.usfm})
    if i < 2: ctx.sample({'book': m.books[0].bbb, 'markers': ' '.join(e.getMarker() for e in B.books[m.books[0].bbb])[:600]})

def onDense(ctx, i):
    r = ctx.rng('dense', i)
    b, usfm, B, bk = rich.load(ctx, r)
    rep = {'dense': i, 'usfm': usfm}
    es = watch(ctx, 'dense', bk, rep); open_ = nest.openAt(es, nesting())
    ctx.seen('book', ' '.join(e.getMarker() for e in es))
    C = V = None; marks = []
    for e, o in zip(es, open_):
        mk = e.getMarker(); ct = e.getCleanText()
        if mk == 'c': C, V = ct, None
        elif mk == 'v': V = ct
        elif mk == '¬v': ctx.check(ct == V, 'verse-closed-with-other-number', lambda: f'{b.bbb} {C}:{V} {e}', rep); V = None
        elif mk == '¬c': ctx.check(ct == C, 'chapter-closed-with-other-number', lambda: f'{b.bbb} {C}:{V} {e}', rep)
        elif mk in ('v~', 'p~'): ctx.check('c' in o and 'v' in o, 'verse-text-outside-verse', lambda: f'{b.bbb} {C}:{V} {e} with {o} open', rep)
        if mk[0] != '¬' and mk not in rich.ADDED: marks.append((mk, ct) if mk in ('c', 'v', 'cp') else (mk, ''))
        ctx.seen('context', ' '.join(o) + ' ' + mk)
    em = rich.loaded(b.items)
    ctx.check(marks == em, 'lines-lost-or-moved', lambda: f'{b.bbb}: got {[x for x, y in zip(marks, em) if x != y][:3]} expected {[y for x, y in zip(marks, em) if x != y][:3]} ({len(marks)}/{len(em)} lines)', rep)

def run(ctx):
    ctx.rule = 'every entry of every processed book is an event for an open/close trace monitor; distinct = distinct marker sequences and paragraph contexts'
    ctx.need('book', 100); ctx.need('paragraph-of-text', 50); ctx.need('events-closed', 2000); ctx.need('context', 200)
    for i in ctx.cases(250): onGenerated(ctx, i)
    for i in ctx.cases(250): onDense(ctx, i)
    for n, B in real.usfm():
        for BBB in B.books:
            ctx.seen('real-book', n + BBB); watch(ctx, n, B.books[BBB], {'folder': n, 'book': BBB})
