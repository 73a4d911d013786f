"""Books loaded on demand, in any order, or again after a change on disk are what a complete fresh load gives."""
import os, random
from bosv import boot, gen, obs

def run(ctx):
    from BibleOrgSys.Formats.USFMBible import USFMBible
    ctx.rule = 'random histories of preload / on-demand queries / loadBookIfNecessary / edits on disk / reloads, compared after every step with a fresh full load; distinct = distinct (history step, sources)'
    ctx.need('lazy-query', 200); ctx.need('reload', 60); ctx.need('discovery-after-reload', 20)
    def fresh(d):
        with boot.quiet(): return gen.loadUSFM(d)
    for i in ctx.cases(70, 900):
        r = ctx.rng('l', i); feats = set(gen.ALLFEATS) - {'suffix'}
        m = gen.bible(r, feats, nBooks=r.choice([2, 3, 4]), maxVerses=4); d = ctx.tmpdir(); gen.writeUSFM(m, d); bk = {b.bbb: b for b in m.books}
        with boot.quiet(): L = USFMBible(d, 'XYZ', 'XYZ'); L.preload()
        ctx.check(sorted(L.availableBBBs) == sorted(bk) and not L.books, 'preload-available-books', lambda: f'{L.availableBBBs} {list(L.books)}')
        F = fresh(d); asked = set(); hist = []; discovered = False
        for step in range(r.randint(4, 12)):
            op = r.choice(['verse', 'verse', 'chapter', 'data', 'load', 'numV', 'edit', 'edit', 'discover', 'absent']); hist.append(op)
            b = bk[r.choice(list(bk))]; v = r.choice(b.verses)
            with boot.quiet():
                if op == 'verse':
                    full = r.random() < .5; a, e = L.getVerseText((b.bbb, v.c, v.v), fullTextFlag=full), F.getVerseText((b.bbb, v.c, v.v), fullTextFlag=full)
                elif op == 'chapter': a, e = [[obs.entrySig(x) for x in q.getContextVerseData((b.bbb, v.c))[0]] for q in (L, F)]
                elif op == 'data': a, e = [([obs.entrySig(x) for x in y[0]], y[1]) for y in (q.getContextVerseData((b.bbb, v.c, v.v)) for q in (L, F))]
                elif op == 'numV': a, e = [(q.getNumVerses(b.bbb, v.c), q.getNumChapters(b.bbb)) for q in (L, F)]
                elif op == 'load': L.loadBookIfNecessary(b.bbb); a, e = obs.bookSig(L.books[b.bbb]), obs.bookSig(F.books[b.bbb])
                elif op == 'absent':
                    other = next(x[0] for x in gen.BOOKS if x[0] not in bk); a, e = [], []
                    for q, o in ((L, a), (F, e)):
                        try: o.append(q.getVerseText((other, '1', '1')))
                        except KeyError: o.append('KeyError')
                elif op == 'discover': a = e = None; discovered = True; L.discoveryResults = {}; L.discover(); a = {k: x for k, x in L.discoveryResults.items() if k != 'ALL'}; F.discover(); e = {k: F.discoveryResults[k] for k in a}
                else:
                    m2 = gen.bible(random.Random(f'{ctx.seed}-{i}-{step}'), feats, nBooks=1, pool=[p for p in gen.BOOKS if p[0] == b.bbb], maxVerses=4)
                    gen.writeUSFM(m2, d); bk[b.bbb] = m2.books[0]; F = fresh(d)
                    how = r.choice(['reload', 'flag'])
                    hist[-1] += '-' + how
                    before = {x: obs.bookSig(L.books[x]) for x in L.books if x != b.bbb}
                    if how == 'reload': L.reloadBook(b.bbb)
                    else: L.bookNeedsReloading[b.bbb] = True; L.loadBookIfNecessary(b.bbb); L.reProcessBook(b.bbb)
                    a, e = obs.bookSig(L.books[b.bbb]), obs.bookSig(F.books[b.bbb])
                    ctx.seen('reload', (i, step, how))
                    ctx.check({x: obs.bookSig(L.books[x]) for x in before} == before, 'reload-disturbs-other-book', f'{hist}')
                    ctx.check({v.c + ':' + v.v: L.getVerseText((b.bbb, v.c, v.v)) for v in bk[b.bbb].verses} == {v.c + ':' + v.v: F.getVerseText((b.bbb, v.c, v.v)) for v in bk[b.bbb].verses}, 'verses-after-reload', f'{hist}')
                    for q in (b.titles['h'], b.titles['mt1']): pass
                    ctx.check(L.BBBToNameDict[b.bbb] == F.BBBToNameDict[b.bbb], 'book-name-after-reload', f'{L.BBBToNameDict[b.bbb]} {F.BBBToNameDict[b.bbb]}')
                    if discovered:
                        F.discover(); ctx.seen('discovery-after-reload', (i, step))
                        ctx.check(L.discoveryResults.get(b.bbb) == F.discoveryResults[b.bbb], 'discovery-of-reloaded-book', f'{hist}')
                        if set(L.books) == set(L.discoveryResults) - {'ALL'} == set(F.books):
                            order = list(L.discoveryResults['ALL']); ctx.seen('discovery-total-after-reload', (i, step))
                            A1, A2 = [{k: (sorted(v) if isinstance(v, list) else v) for k, v in z.discoveryResults['ALL'].items()} for z in (L, F)]
                            ctx.check(A1 == A2, 'discovery-total-after-reload', lambda: f'{hist} {[k for k in set(A1) | set(A2) if A1.get(k) != A2.get(k)][:5]}')
            ctx.seen('lazy-query', (i, step, op))
            ctx.check(a == e, 'differs-from-full-load:' + op, lambda: f'{hist} {b.bbb} {v.c}:{v.v}: {str(a)[:200]} / {str(e)[:200]}', {'history': hist, 'usfm': {x: bk[x].usfm for x in bk}})
            ctx.check(set(L.books) <= set(bk), 'unknown-book-loaded', f'{list(L.books)}')
        with boot.quiet(): L.loadBooks()
        ctx.check(obs.bibleSig(L) == {x: obs.bookSig(F.books[x]) for x in F.books} and set(L.books) == set(F.books), 'full-load-after-on-demand', f'{hist}')
        ctx.rmtree(d)
