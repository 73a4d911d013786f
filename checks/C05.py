"""The section index: every verse's text lies in exactly one section, sections follow the headings and keep the order."""
import os, re
from bosv import boot, gen, obs, real, rich

def lead(v): return int(re.match(r'\d+', v).group())
def lastInt(v): return int(re.findall(r'\d+', v)[-1])

def watchBook(ctx, bk, bbb, rep, allWords=None):
    es = list(bk); ix = bk._SectionIndex
    # verse position of every line, and mid-verse headings
    C, V = '-1', '0'; pos = []; text = [False] * len(es); mid = {}
    seenText = False
    for j, e in enumerate(es):
        mk = e.getMarker()
        if mk == 'c': C, V = e.getCleanText(), '0'; seenText = False
        elif mk == 'v': V = e.getCleanText(); seenText = False
        elif mk in ('v~', 'p~'): seenText = True; text[j] = True
        elif mk in ('s1', 'ms1') and V != '0':
            # is this heading inside the verse (more of the verse's text follows before the next verse number)?
            k = next((es[q].getMarker() for q in range(j + 1, len(es)) if es[q].getMarker() in ('v', 'c', 'v~', 'p~')), None)
            if k in ('v~', 'p~'): mid[(C, V)] = mid.get((C, V), 0) + 1
        pos.append((C, V))
    twice = any(n > 1 for n in mid.values())
    known = None
    prev = -1
    blank = any(e.getMarker() in ('s1', 'ms1') and not e.getCleanText() for e in es)
    names = []
    for key, e in ix.items():
        s, t = e.getStartIndex(), e.getEndIndex()
        name, reason = e.getSectionNameReason()
        ctx.seen('section', f'{key} {[x.getMarker() for x in es[s:t+1]]} {reason}')
        names.append((name, reason, s))
        ctx.check(s > prev and t >= s, 'section-order', lambda: f'{bbb} {key} {s}-{t} after {prev}', rep, known)
        lost = [es[j].getMarker() for j in range(prev + 1, min(s, len(es))) if es[j].getMarker() not in ('c', 'v=', 'c#', 'c~', 'cp', 'chapters', '¬c', 'r', 'rem')]
        if blank and 'v~' not in lost and 'p~' not in lost: lost = []                          # (a heading without text, and verses without text)
        ctx.check(not lost, 'lines-in-no-section', lambda: f'{bbb} before {key}: {lost}', rep, known)
        prev = t
        ctx.check([id(x) for x in ix.getSectionEntries(key)] == [id(x) for x in es[s:t + 1]], 'section-entries', lambda: f'{bbb} {key}', rep)
        l, c = ix.getSectionEntriesWithContext(key)
        ctx.check([id(x) for x in l] == [id(x) for x in es[s:t + 1]], 'section-entries-with-context', lambda: f'{bbb} {key}', rep)
        ctx.check(e.getEntryCount() == t - s + 1, 'section-count', lambda: f'{bbb} {key}', rep)
        lines = [j for j in range(s, t + 1) if text[j]]
        if lines and not any(es[j].getMarker() == 'v' and not any(text[j + 1:j + 3]) for j in range(s, t + 1) if allWords is None):
            fC, fV = pos[lines[0]]; lC, lV = pos[lines[-1]]
            starts = s <= 0 or any(es[j].getMarker() == 'v' for j in range(s, lines[0]))
            if mid.get((fC, fV)) and not starts:
                ctx.check(key[0] == fC and lead(key[1]) == lead(fV), 'section-start-in-verse', lambda: f'{bbb} {key} text starts in {fC}:{fV}', rep)
                ctx.count('sections-starting-inside-a-verse')
            elif reason != 'c':     # (a section starting with a bridge may be keyed on the number before it)
                ctx.check(key[0] == fC and lead(key[1]) == lead(fV), 'section-start', lambda: f'{bbb} {key} text starts in {fC}:{fV}', rep)
            eC, eV = e.getEndCV()
            if 1:
                ctx.check(eC == lC and lastInt(eV) == lastInt(lV), 'section-end', lambda: f'{bbb} {key} ends {eC}:{eV}, its text ends in {lC}:{lV}', rep)
    # each section: named for the headings and chapters at its beginning, with no other heading in it
    bookName = bk.getAssumedBookNames()[0]
    if bookName in ('Psalms', 'Songs'): bookName = bookName[:-1]
    plain = not any(e.getMarker() in ('s1', 's2', 's3', 's4', 'qa') for e in es)
    apart = lambda c: plain or bbb in ('PSA', 'LAM') or bbb == 'PRO' and (11 <= int(c) <= 22 or 26 <= int(c) <= 29)
    for key, e in ix.items():
        s, t = e.getStartIndex(), e.getEndIndex()
        name, reason = e.getSectionNameReason()
        heads = [(x.getMarker(), f'{bookName} {x.getCleanText()}' if x.getMarker() == 'c' else x.getCleanText()) for x in es[s:t + 1] if x.getMarker() in ('c', 's1', 'ms1', 'is1')]
        if s == 0: ctx.check((name, reason) == (bbb, 'Headers') and not heads, 'first-section', lambda: f'{bbb} {key} {name!r} {reason}', rep); continue
        parts = reason.split('/')
        if 'c' not in parts: heads = [h for h in heads if h[0] != 'c' or apart(h[1].split()[-1])]
        own = heads[:len(parts)]
        ctx.seen('named-section', f'{reason} {[m for m, t_ in heads]}')
        ctx.check(sorted(parts) == sorted(m for m, t_ in own) and name == '/'.join(dict(own).get(p, '') for p in parts), 'section-name', lambda: f'{bbb} {key}: {reason} {name!r} with {heads}', rep, known)
        ctx.check(all(m == 'c' and not apart(t_.split()[-1]) for m, t_ in heads[len(parts):]), 'heading-inside-section', lambda: f'{bbb} {key}: {reason} {name!r} with {heads}', rep, known)
    ctx.check(prev == len(es) - 1, 'last-section-end', lambda: f'{bbb}: {prev} of {len(es)}', rep, known)
    # every heading starts a section
    for j, e in enumerate(es):
        if e.getMarker() == 's1' and pos[j][0] != '-1' and e.getCleanText():
            hit = [n for n in names if n[0].endswith(e.getCleanText()) and n[1].split('/')[-1] == 's1']
            ctx.seen('heading', e.getCleanText())
            ctx.check(bool(hit), 'heading-without-section', lambda: f'{bbb} {pos[j]} {e.getCleanText()!r}', rep, known)
            if hit and all('/' not in h[1] for h in hit): ctx.check(any(h[2] == j for h in hit), 'section-starts-elsewhere', lambda: f'{bbb} {e.getCleanText()!r} at {hit} not {j}', rep, known)
    # words
    words = [t for key in ix for e in ix.getSectionEntries(key) if e.getMarker() in ('v~', 'p~') for t in gen.tokens(e.getCleanText())]
    all_ = allWords if allWords is not None else [t for e in es if e.getMarker() in ('v~', 'p~') for t in gen.tokens(e.getCleanText())]
    ctx.check(words == all_, 'words-in-sections', lambda: f'{bbb}: {len(words)} of {len(all_)}', rep, known)

def run(ctx):
    ctx.rule = 'sections of each book against the line stream; distinct = distinct sections (markers inside, reason)'
    ctx.need('section', 1000); ctx.need('heading', 300)
    for i in ctx.cases(250):
        r = ctx.rng('b', i); feats = set(gen.ALLFEATS)
        for f in ('bridges', 'ms', 'moreintro', 'poetry', 'lists', 'd'):
            if r.random() < .25: feats.discard(f)
        if r.random() < .15: feats.discard('headings')
        m = gen.bible(r, feats, maxVerses=r.choice([3, 6, 10]))
        d = ctx.tmpdir('u'); gen.writeUSFM(m, d)
        # a major heading ahead of or inside a partial verse is a known way to fail
        rep = {'usfm': [b.usfm for b in m.books]}
        try:
            with boot.quiet():
                B = gen.loadUSFM(d); B.discover(); before = obs.bibleSig(B); B.makeSectionIndex()
        except ValueError as e:
            hasMs = any(mk == 'ms1' for b in m.books for _, _, mk, _ in b.headings)
            ctx.violation('section-index-raises', f'{e}', rep); continue
        finally: ctx.rmtree(d)
        ctx.check(obs.bibleSig(B) == before, 'indexing-changes-the-bible', '', rep)
        for b in m.books: watchBook(ctx, B.books[b.bbb], b.bbb, {'usfm': b.usfm}, [t for v in b.verses for t in v.main])
        if i < 2: ctx.sample({'sections': [(k, e.getStartIndex(), e.getEndIndex(), e.getSectionNameReason()) for k, e in B.books[m.books[0].bbb]._SectionIndex.items()]})
    for i in ctx.cases(80):
        r = ctx.rng('rich', i)
        b, usfm, B, bk = rich.load(ctx, r, r.choice([None, [t for t in gen.BOOKS if t[0] == 'PSA'], [('PRO', 'PRO', '21'), ('LAM', 'LAM', '26')]])); rep = {'usfm': usfm}
        try:
            with boot.quiet(): B.discover(); before = obs.bibleSig(B); B.makeSectionIndex()
        except Exception as e: ctx.violation('section-index-raises', f'{type(e).__name__}: {e}', rep); continue
        ctx.check(obs.bibleSig(B) == before, 'indexing-changes-the-bible', '', rep)
        watchBook(ctx, bk, bk.BBB, rep); ctx.count('dense-books')
    for i in ctx.cases(15, 60):            # (in Proverbs some chapters always start a section)
        r = ctx.rng('pro', i); w = gen.W(r); L = ['\\id PRO x', '\\h Proverbs', '\\mt1 Proverbs']
        for c in range(1, 32):
            L.append(f'\\c {c}')
            if r.random() < .3: L.append('\\s1 ' + w.words(2))
            L.append(r.choice(['\\p', '\\q1']))
            for v in range(1, r.randint(2, 4)):
                if v > 1 and r.random() < .2: L += ['\\s1 ' + w.words(2), '\\q1']
                L.append(f'\\v {v} {w.words(3)}')
        d = ctx.tmpdir('p'); usfm = '\n'.join(L) + '\n'
        with open(os.path.join(d, '20PROXYZ.usfm'), 'w', encoding='utf8') as f: f.write(usfm)
        try:
            with boot.quiet(): B = gen.loadUSFM(d); B.discover(); B.makeSectionIndex()
        finally: ctx.rmtree(d)
        watchBook(ctx, B.books['PRO'], 'PRO', {'usfm': usfm}); ctx.count('proverbs')
    from BibleOrgSys import BibleOrgSysGlobals as G
    for name, B in real.usfm():
        try:
            with boot.quiet(): B.discover(); B.makeSectionIndex()
        except Exception as e: ctx.violation('section-index-raises', f'{name} {type(e).__name__}: {e}', {'real': name}); continue
        for bbb in B.books:
            if any(e.getMarker() == 'v' for e in B.books[bbb]) and G.loadedBibleBooksCodes.isChapterVerseBook(bbb): watchBook(ctx, B.books[bbb], bbb, {'real': name, 'book': bbb}); ctx.count('real-books')
