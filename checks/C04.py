"""Asking for a verse, a chapter, a book or a range gives exactly that text, found also through bridges and partial verses."""
import re
from bosv import boot, gen, obs
from checks.C03 import contexts

SYM = {'d': '⌂⌂', 's1': '¹¹', 's2': '²²', 's3': '³³', 's4': '⁴⁴', 'p': '¶', 'q1': '₁', 'q2': '₂', 'q3': '₃', 'q4': '₄', 'm': '§', 'mi': '◊', 'li1': '•', 'li2': '◦'}

def shown(entries, nonCanonical=True):
    s = ''
    for e in entries:
        mk, t = e.getMarker(), e.getCleanText()
        if mk in ('s1', 's2', 's3', 's4'):
            if nonCanonical: s += SYM[mk][0] + t + SYM[mk][1]
        elif mk == 'd': s += '⌂' + t + '⌂'
        elif mk == 'id': s += 'ID: ' + t
        elif mk in SYM: s += SYM[mk] + t
        elif mk in ('v~', 'p~'): s += t
    return s

def gap(x, y):
    (c1, v1), (c2, v2) = x, y
    return lead(v2) > int(re.findall(r'\d+', v1)[-1]) + 1 if c1 == c2 else int(c2) != int(c1) + 1 or lead(v2) > 1
def lead(v): return int(re.match(r'\d+', v).group())
def span(v):
    a, _, b = v.partition('-')
    return lead(a), lead(b or a)

def ids(l): return [id(x) for x in l]

def lookups(ctx, B, m, r):
    from BibleOrgSys.Reference.VerseReferences import SimpleVerseKey
    for b in m.books:
        bk = B.books[b.bbb]; es = list(bk); con = contexts(es); rep = {'usfm': b.usfm}
        at = {}; ctxAt = {}; pos = {id(e): j for j, e in enumerate(es)}
        for k in bk._CVIndex:
            l = list(bk._CVIndex.getVerseEntries(k)); at[k] = l; ctxAt[k] = con[pos[id(l[0])]]
        keys = list(at)
        for v in b.verses:
            k = (v.c, v.v)
            for ref in ((b.bbb,) + k, SimpleVerseKey(b.bbb, v.c, v.v) if v.v.isdigit() else None):
                if ref is None: continue
                for strict in (False, True):
                    l, c = B.getContextVerseData(ref, strict=strict)
                    ctx.seen('exact-lookup', f'{b.bbb}{k}{len(l)}{c}')
                    ctx.check(ids(l) == ids(at[k]) and c == ctxAt[k], 'verse-lookup', lambda: f'{b.bbb} {k} strict={strict}', rep)
                ctx.check(ids(B.getVerseDataList(ref)) == ids(at[k]), 'verse-data-list', lambda: f'{b.bbb} {k}', rep)
            t = B.getVerseText((b.bbb,) + k); t2 = B.getVerseText((b.bbb,) + k, includeNonCanonical=False)
            ctx.seen('verse-text', t)
            ctx.check(t == shown(at[k]), 'verse-text-string', lambda: f'{b.bbb} {k}: {t!r} instead of {shown(at[k])!r}', rep)
            ctx.check(t2 == shown(at[k], False), 'verse-text-canonical-only', lambda: f'{b.bbb} {k}: {t2!r}', rep)
            heads = [x for c, vv, mk, pc in b.headings if (c, vv) == k and mk in ('s', 's1', 's2', 's3') for x in pc.segs]
            ctx.check([x for x in gen.tokens(t2) if x in set(v.main)] == v.main, 'verse-text-words', lambda: f'{b.bbb} {k}: {t2!r} lacks words of {v.main}', rep)
        # verses inside bridges, partial verses, and absent verses
        for c in b.chapters:
            vs = [v for v in b.verses if v.c == c]
            last = max(v.last for v in vs)
            for n in range(1, last + 3):
                k = (c, str(n)); ref = (b.bbb,) + k
                exact = k in at
                ranges = [(v.c, v.v) for v in vs if '-' in v.v and span(v.v)[0] <= n <= span(v.v)[1]]
                parts = [(v.c, v.v) for v in vs if not v.v.isdigit() and '-' not in v.v and lead(v.v) == n]
                for strict in (True, False):
                    want = [k] if exact else [] if strict else (ranges + parts)[:1]
                    try: got = B.getContextVerseData(ref, strict=strict); got = ids(got[0])
                    except KeyError: got = []
                    ctx.seen('any-verse', f'{exact} {ranges} {parts} {strict}', bool(ranges or parts))
                    ctx.check(got == [x for w in want for x in ids(at[w])], 'verse-found-via-bridge-or-part', lambda: f'{b.bbb} {k} strict={strict}: expected {want}', rep)
                want = [kk for kk in ((v.c, v.v) for v in vs) if kk in ranges or kk in parts] + ([k] if exact else [])
                try:
                    got, cc = B.getContextVerseData(ref, strict=False, complete=True); got = ids(got)
                    ctx.check(not want or cc == ctxAt[want[0]], 'complete-lookup-context', lambda: f'{b.bbb} {k}: {cc}', rep)
                except KeyError: got = []
                ctx.check(got == [x for w in want for x in ids(at[w])], 'complete-lookup', lambda: f'{b.bbb} {k}: expected {want}', rep)
                if not exact:
                    bridged = [q for q in ranges if span(q[1])[0] == n]
                    try: got = ids(bk._CVIndex.getVerseEntries(k, strict=False))
                    except KeyError: got = []
                    ctx.check(got == [x for w in bridged[:1] for x in ids(at[w])], 'bridge-start-lookup', lambda: f'{b.bbb} {k}: expected {bridged}', rep)
            for n in range(1, last + 2):
                for odd in (f'{n}-{n+1}', f'{n}-{last+9}', f'{n}z', f'{n}a-{n+1}'):
                    if (c, odd) not in at:
                        try: B.getContextVerseData((b.bbb, c, odd), strict=True); ctx.violation('strict-absent-found', f'{b.bbb} {c}:{odd}', rep)
                        except KeyError: ctx.count('strict-absent')
            # non-existing letter of an existing verse; bridges and parts by their own names, with all that touches them
            for v in vs:
                if not v.v.isdigit():
                    n = lead(v.v); want = [(q.c, q.v) for q in vs if '-' in q.v and span(q.v)[0] <= n <= span(q.v)[1] or '-' not in q.v and not q.v.isdigit() and lead(q.v) == n]
                    ctx.check(ids(B.getContextVerseData((b.bbb, c, v.v), complete=True)[0]) == [x for w in want for x in ids(at[w])], 'complete-lookup-by-own-name', lambda: f'{b.bbb} {c}:{v.v}: expected {want}', rep)
                if v.v.isdigit():
                    l, _ = B.getContextVerseData((b.bbb, c, v.v + 'c'))
                    ctx.check(ids(l) == ids(at[(c, v.v)]), 'letter-falls-back-to-verse', lambda: f'{b.bbb} {c}:{v.v}c', rep)
                    try: B.getContextVerseData((b.bbb, c, v.v + 'c'), strict=True); ctx.violation('strict-letter-found', f'{b.bbb} {c}:{v.v}c', rep)
                    except KeyError: pass
            ctx.check(B.getNumVerses(b.bbb, c) == vs[-1].last, 'num-verses', lambda: f'{b.bbb} {c}: {B.getNumVerses(b.bbb, c)} instead of {vs[-1].last}', rep)
            ctx.check(B.getNumVerses(b.bbb, int(c)) == vs[-1].last, 'num-verses-int', lambda: f'{b.bbb} {c}', rep)
            l, cc = B.getContextVerseData((b.bbb, c))
            want = [x for k in keys if k[0] == c for x in ids(at[k])]
            ctx.seen('chapter', f'{b.bbb}{c}{len(want)}')
            ctx.check(ids(l) == want and cc == ctxAt[(c, '0')], 'chapter-lookup', lambda: f'{b.bbb} {c}', rep)
        ctx.check(B.getNumChapters(b.bbb) == int(b.chapters[-1]), 'num-chapters', lambda: f'{b.bbb}: {B.getNumChapters(b.bbb)}', rep)
        ctx.check(B.getNumVerses(b.bbb, '177') is None, 'num-verses-of-missing-chapter', b.bbb, rep)
        l, c = B.getContextVerseData((b.bbb,)); ctx.check(ids(l) == ids(es) and c == [], 'book-lookup', b.bbb, rep)
        l, c = B.getContextVerseData((b.bbb, '-1')); ctx.check(ids(l) == [x for k in keys if k[0] == '-1' for x in ids(at[k])], 'introduction-lookup', lambda: f'{b.bbb}: {[e.getMarker() for e in l]} for {[k for k in keys if k[0] == "-1"]}', rep)
        # ranges
        vkeys = [k for k in keys if k[0] != '-1']
        plain = all(k[1].isdigit() for k in vkeys)
        for _ in range(6):
            i, j = sorted((r.randrange(len(vkeys)), r.randrange(len(vkeys))))
            if vkeys[i][1] == '0' or vkeys[j][1] == '0': continue
            if not (vkeys[i][1].isdigit() and vkeys[j][1].isdigit()): continue
            want = [x for k in vkeys[i:j + 1] for x in ids(at[k])]
            parts = any(not k[1].isdigit() and '-' not in k[1] for k in vkeys[i:j + 1])
            if parts: continue            # partial verses are not found by their number here (only bridges are documented to be)
            bridged = any('-' in k[1] for k in vkeys[i:j + 1])
            if vkeys[i][0] != vkeys[j][0] and bridged:      # documented: non-strict stops where a verse can't be found
                l, c = B.getContextVerseDataRange((b.bbb,) + vkeys[i], (b.bbb,) + vkeys[j], strict=False)
                ctx.seen('range-stopped-by-bridge', f'{vkeys[i]}-{vkeys[j]}')
                ctx.check(l and ids(l) == want[:len(l)] and c == ctxAt[vkeys[i]], 'range-is-not-a-prefix', lambda: f'{b.bbb} {vkeys[i]}-{vkeys[j]}', rep)
                continue
            if any(gap(x, y) for x, y in zip(vkeys[i:j], vkeys[i + 1:j + 1])):    # a verse in the range is missing
                try: B.getContextVerseDataRange((b.bbb,) + vkeys[i], (b.bbb,) + vkeys[j], strict=True); ctx.violation('range-with-missing-verse', f'{b.bbb} {vkeys[i]}-{vkeys[j]}: no KeyError', rep)
                except KeyError: ctx.count('range-refused')
                l, c = B.getContextVerseDataRange((b.bbb,) + vkeys[i], (b.bbb,) + vkeys[j], strict=False); ctx.seen('range-with-gap', f'{vkeys[i]}-{vkeys[j]}')
                ctx.check(l and ids(l) == (want if vkeys[i][0] == vkeys[j][0] else want[:len(l)]) and c == ctxAt[vkeys[i]], 'range-over-gap', lambda: f'{b.bbb} {vkeys[i]}-{vkeys[j]}', rep)
                continue
            for strict in ((False,) if bridged else (False, True)):
                l, c = B.getContextVerseDataRange((b.bbb,) + vkeys[i], (b.bbb,) + vkeys[j], strict=strict)
                ctx.seen('range', f'{vkeys[i]}-{vkeys[j]} {bridged}')
                ctx.check(ids(l) == want and c == ctxAt[vkeys[i]], 'range-lookup', lambda: f'{b.bbb} {vkeys[i]}-{vkeys[j]} strict={strict}: {[e.getMarker()+" "+(e.getCleanText() or "") for e in l if e.getMarker() in "cv"]}', rep)
    # two books
    if len(m.books) > 1:
        for x, y in zip(m.books, m.books[1:]):
            kx = [(v.c, v.v) for v in x.verses]; ky = [(v.c, v.v) for v in y.verses]
            if not all(v.isdigit() for c, v in kx + ky) or any(gap(p, q) for z in (kx, ky) for p, q in zip(z, z[1:])) or ky[0] != ('1', '1'): continue
            a = r.choice(kx); z = r.choice(ky)
            l, c = B.getContextVerseDataRange((x.bbb,) + a, (y.bbb,) + z)
            toks = [t for e in l if e.getMarker() in ('v~', 'p~') for t in gen.tokens(e.getCleanText())]
            want = [t for v in x.verses[kx.index(a):] for t in v.main] + [t for v in y.verses[:ky.index(z) + 1] for t in v.main]
            ctx.seen('cross-book-range', f'{x.bbb}{a}{y.bbb}{z}')
            ctx.check(toks == want, 'cross-book-range', lambda: f'{x.bbb} {a} - {y.bbb} {z}: {len(toks)} words instead of {len(want)}', {'usfm': [x.usfm, y.usfm]})
    for bad in (('LEV', '1', '1'),):
        if not m.get('LEV'): ctx.check(B.getContextVerseData(bad) is None and B.getNumChapters('LEV') is None, 'absent-book', str(bad))

def run(ctx):
    ctx.rule = 'every verse number up to beyond the end of every chapter looked up in every mode, against the source; distinct = distinct texts/lookup situations'
    ctx.need('exact-lookup', 2000); ctx.need('any-verse', 2000); ctx.need('range', 100); ctx.need('chapter', 200); ctx.need('cross-book-range', 10)
    for i in ctx.cases(200):
        r = ctx.rng('b', i); feats = set(gen.ALLFEATS)
        for f in ('suffix', 'bridges'):
            if r.random() < .4: feats.discard(f)
        m = gen.bible(r, feats, maxVerses=r.choice([3, 6, 12]))
        d = ctx.tmpdir('u'); gen.writeUSFM(m, d)
        try:
            with boot.quiet(): B = gen.loadUSFM(d); before = obs.bibleSig(B)
        finally: ctx.rmtree(d)
        with boot.quiet(): lookups(ctx, B, m, r)
        ctx.check(obs.bibleSig(B) == before, 'lookup-changes-the-bible', 'lookups changed the loaded entries', {'usfm': [b.usfm for b in m.books]})
        if i < 2: ctx.sample({'usfm': m.books[0].usfm[:800]})
