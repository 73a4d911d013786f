"""Analysis is read-only and repeatable; what it counts and reports is what is in the text."""
import re, copy, unicodedata
from collections import Counter
from bosv import boot, gen, obs, rich, real
PUNCT = ''.join(sorted(set(''.join(gen.PUNCT) + ''.join(gen.OPENP))))

def load(m, ctx):
    d = ctx.tmpdir('u'); gen.writeUSFM(m, d)
    try:
        with boot.quiet(): return gen.loadUSFM(d)
    finally: ctx.rmtree(d)

def stable(x):
    """Comparable copy of results (check() accumulates its priority list on purpose; everything else is recomputed)."""
    return copy.deepcopy(x)

def dropPriority(o):
    if isinstance(o, dict): return {k: dropPriority(v) for k, v in o.items() if k != 'Priority Errors'}
    return o

def toks(counts):
    c = Counter()
    for w, n in counts.items():
        for t in gen.tokens(w): c[t] += n
    return c

def plant(r, b, L):
    """Damage one line of the book `b` (lines L) in a way the checks promise to report. Returns (kind, C, V) or None."""
    vi = [i for i, l in enumerate(L) if re.match(r'\\v \d+ ', l)]
    kind = r.choice(['gap', 'repeat', 'title-period', 'heading-period', 'double-space', 'notes-origin'])
    where = {}
    c = '0'; v = '0'
    for i, l in enumerate(L):
        if l.startswith('\\c '): c, v = l[3:], '0'
        elif l.startswith('\\v '): v = l.split()[1]
        where[i] = (c, v)
    if kind in ('gap', 'repeat'):
        plain = [i for i in vi if re.match(r'\\v \d+ ', L[i])]
        if kind == 'gap':
            # push the last verse number of some chapter up by 2
            lasts = [i for i in plain if not any(where[k][0] == where[i][0] and k > i and L[k].startswith('\\v ') for k in where)]
            lasts = [i for i in lasts if where[i][1] != '1']
            if not lasts: return None
            i = r.choice(lasts); n = int(where[i][1]); L[i] = re.sub(r'^\\v \d+', f'\\\\v {n+2}', L[i]); return kind, where[i][0], (str(n), str(n + 1))
        later = [i for i in plain if where[i][1] != '1']
        if not later: return None
        i = r.choice(later); L[i] = re.sub(r'^\\v \d+', '\\\\v 1', L[i]); return kind, where[i][0], where[i][1]
    if kind == 'title-period':
        i = [k for k, l in enumerate(L) if l.startswith('\\mt1')][0]; L[i] += '.'; return kind, '-1', None
    if kind == 'heading-period':
        hs = [k for k, l in enumerate(L) if re.match(r'\\s\d? ', l)]
        if not hs: return None
        i = r.choice(hs); L[i] += '.'; return kind, where[i][0], where[i][1]
    if kind == 'double-space':
        cand = [i for i in vi if re.search(r'zq\w{4}z zq', L[i]) and '\\' not in L[i][2:]]
        if not cand: return None
        i = r.choice(cand); L[i] = re.sub(r'(zq\w{4}z) (zq)', r'\1  \2', L[i], count=1); return kind, where[i][0], where[i][1]
    if kind == 'notes-origin':
        cand = [i for i in vi if '\\fr ' in L[i]]
        if not cand: return None
        i = r.choice(cand); L[i] = re.sub(r'\\fr \S+ ', '\\\\fr 99:88 ', L[i], count=1); return kind, where[i][0], where[i][1]

def counted(ctx, G, bk, dr, rep):
    """what discovery says about one book, against its loaded lines"""
    L = [e for e in bk if e.getMarker()[0] != '¬']
    n = lambda *ms: sum(1 for e in L if e.getMarker() in ms)
    ex = Counter(x.getType() for e in L for x in (e.getExtras() or []))
    nr = sum(1 for e in L if e.getMarker() == 'r' and e.getText())
    exp = {'verseCount': n('v'), 'chapterCount': n('c'), 'footnotesCount': ex['fn'], 'crossReferencesCount': ex['xr'], 'figuresCount': ex['fig'], 'mainHeadingsCount': n('mt1', 'mt2', 'mt3', 'mt4'),
           'sectionHeadingsCount': n('s1', 's2', 's3', 's4', 'qa'), 'sectionReferencesCount': nr, 'haveFootnotes': ex['fn'] > 0, 'haveCrossReferences': ex['xr'] > 0,
           'haveSectionHeadings': n('s1', 's2', 's3', 's4', 'qa') > 0, 'haveLists': n('li1') > 0, 'haveTables': n('tr') > 0, 'haveSectionReferences': nr > 0, 'havePopulatedCVmarkers': n('v') > 0,
           'haveFootnoteOrigins': any('\\fr' in x.getText() for e in L for x in (e.getExtras() or []) if x.getType() == 'fn'), 'haveCrossReferenceOrigins': any('\\xo' in x.getText() for e in L for x in (e.getExtras() or []) if x.getType() == 'xr')}
    for k in ('figuresCount', 'footnotesCount', 'crossReferencesCount', 'sectionHeadingsCount'):
        if exp[k]: ctx.count('books-with-' + k[:-5])
    ctx.check(all((dr.get(k) or 0) == v for k, v in exp.items()), 'discovered-features', lambda: f'{bk.BBB} ' + str([(k, dr.get(k), v) for k, v in exp.items() if (dr.get(k) or 0) != v]), rep)
    ends = lambda ty: [x.getCleanText() for e in L for x in (e.getExtras() or []) if x.getType() == ty]
    for ty, k in (('fn', 'footnotesPeriodRatio'), ('xr', 'crossReferencesPeriodRatio')):
        t = ends(ty)
        if t: ctx.check(abs(dr[k] - sum(x.endswith(('.', '.”', '።')) for x in t) / len(t)) <= .00501, 'note-period-ratio', lambda: f'{bk.BBB} {k} {dr[k]} {t}', rep)

def progress(ctx, G):
    """books that are finished, partly done or not started are discovered as that"""
    for i in ctx.cases(40):
        r = ctx.rng('progress', i); w = gen.W(r); d = ctx.tmpdir('g'); exp = {}; src = {}
        for bbb, code, num in sorted(r.sample(gen.BOOKS + [('TOB', 'TOB', '68'), ('WIS', 'WIS', '71')], r.choice([1, 3, 5])), key=lambda b: b[2]):
            how = r.choice([0, 1, .9, .5, .1, 1]); L = [f'\\id {code}', f'\\h {bbb}', f'\\mt1 {w.words(1)}']; n = done = 0
            if r.random() < .4: L.append(f'\\ip {w.words(3)}')
            for c in range(1, 2 if bbb in gen.SINGLE else r.choice([2, 4])):
                L.append(f'\\c {c}')
                if r.random() < .4: L.append(f'\\s1 {w.words(2)}')
                L.append(r.choice(['\\p', '\\q1', '\\m']))
                for v in range(1, r.choice([2, 6, 12])):
                    n += 1; full = r.random() < how
                    done += full; L.append(f'\\v {v}' + (' ' + w.words(3) if full else ''))
                    if full and r.random() < .1: L.append(f'\\q1 {w.words(2)}')
            exp[bbb] = (n, done); src[bbb] = '\n'.join(L) + '\n'
            with open(f'{d}/{num}{code}XYZ.usfm', 'wt', encoding='utf8') as f: f.write(src[bbb])
        rep = {'usfm': src}
        try:
            with boot.quiet(): B = gen.loadUSFM(d); B.discover()
        finally: ctx.rmtree(d)
        D = B.discoveryResults; ctx.seen('progress', repr(src), any(0 < x[1] < x[0] for x in exp.values()))
        for b, (n, done) in exp.items():
            x = D[b]
            got = (x['verseCount'], x['completedVerseCount'], x['percentageProgress'], bool(x['seemsFinished']), bool(x['notStarted']), bool(x['partlyDone']))
            want = (n, done, round(100 * done / n), n == done, done == 0, 0 < done < n)
            ctx.check(got == want, 'progress', lambda: f'{b} {got} expected {want}', rep)
        ALL = D['ALL']; T = G.loadedBibleBooksCodes
        for tag, test in (('', lambda b: True), ('OT', T.isOldTestament_NR), ('NT', T.isNewTestament_NR), ('DC', T.isDeuterocanon_NR)):
            mine = [b for b in B.books if test(b)]
            for key, cond in (('SeemsFinishedBookCodes', lambda n, k: n == k), ('NotStartedBookCodes', lambda n, k: k == 0), ('PartlyDoneBookCodes', lambda n, k: 0 < k < n)):
                want = [b for b in mine if cond(*exp[b])]
                ctx.check(ALL.get(tag + key, []) == want, 'progress-lists', lambda: f'{tag + key} {ALL.get(tag + key)} expected {want}', rep)
            if mine:
                a, b2 = sum(exp[b][0] for b in mine), sum(exp[b][1] for b in mine)
                ctx.check((ALL[tag + 'verseCount'], ALL[tag + 'completedVerseCount']) == (a, b2), 'progress-totals', lambda: f"{tag} {ALL[tag + 'verseCount']} {ALL[tag + 'completedVerseCount']} expected {a} {b2}", rep)
                p = sum(round(100 * exp[b][1] / exp[b][0]) for b in mine) / {'': len(B.books), 'OT': 39, 'NT': 27, 'DC': 15}[tag]
                ctx.check(ALL[tag + 'percentageProgressByBook'] == f'{round(p)}%', 'progress-percentage', lambda: f"{tag} {ALL[tag + 'percentageProgressByBook']} expected {p}", rep)
                t = ALL.get(tag + 'percentageProgressByVerse')
                if t is not None: ctx.count('by-verse-' + (tag or 'all')); ctx.sample(f'{tag} {t} {b2}/{a}')

def dense(ctx, G):
    """densely marked books: analysis leaves them alone, is repeatable, and counts what is there"""
    for i in ctx.cases(30):
        r = ctx.rng('dense', i); R, usfm, B, bk = rich.load(ctx, r); before = obs.bibleSig(B); rep = {'usfm': usfm}
        with boot.quiet():
            bk.getVersification(); B.discover(); da = stable(B.discoveryResults); B.check(); ra = stable(B.getCheckResults()); B.discover(); B.check(); rb = stable(B.getCheckResults())
        ctx.seen('dense', usfm)
        ctx.check(obs.bibleSig(B) == before, 'analysis-changes-the-bible', f'dense {i}', rep)
        ctx.check(da == B.discoveryResults and dropPriority(ra) == dropPriority(rb), 'results-not-repeatable', f'dense {i}', rep)
        counted(ctx, G, bk, da[R.bbb], rep)
        ex = R.expected(); exp = Counter(t for x in ex for t in gen.tokens(x[4]) if x[0] not in ('cp',))
        for l in R.lines[2:3]: exp.update(gen.tokens(l))
        got = toks(da[R.bbb]['mainTextCaseInsensitiveWordCounts'])
        skip = Counter(t for x in ex if x[0] in ('ms1', 'd', 'qa', 'sp') for t in gen.tokens(x[4]))      # (not counted as main text)
        ctx.check(not (exp - skip - got) and not (got - exp), 'main-text-word-counts', lambda: f'{R.bbb}: missing {list((exp-skip-got).items())[:5]} extra {list((got-exp).items())[:5]}', rep)

def shipped(ctx, G):
    """the real Bibles among the test data"""
    for name, B in real.usfm(('USFM3AllMarkersProject',)) if ctx.tier == 'quick' else real.usfm():
        rep = {'bible': name}; before = obs.bibleSig(B)
        with boot.quiet():
            [x.getVersification() for x in B]; B.discover(); da = stable(B.discoveryResults); B.check(); ra = stable(B.getCheckResults()); B.discover(); B.check(); rb = stable(B.getCheckResults())
        ctx.seen('real', name)
        ctx.check(obs.bibleSig(B) == before, 'analysis-changes-the-bible', name, rep)
        ctx.check(da == B.discoveryResults and dropPriority(ra) == dropPriority(rb), 'results-not-repeatable', name, rep)
        for bbb in B.books: counted(ctx, G, B.books[bbb], da[bbb], rep)

def run(ctx):
    ctx.rule = 'discover/check/getCheckResults over random Bibles: object unchanged, two loads agree, word/character counts against the generator, planted errors reported at their place; distinct = distinct Bibles'
    ctx.need('readonly', 20); ctx.need('words', 20); ctx.need('characters', 20); ctx.need('planted', 20)
    G = boot.G
    progress(ctx, G); dense(ctx, G); shipped(ctx, G)
    for i in ctx.cases(70):
        r = ctx.rng('b', i)
        m = gen.bible(r, set(gen.ALLFEATS) - ({'suffix', 'emptyv'} if r.random() < .7 else set()), maxVerses=r.choice([3, 6]))
        if r.random() < .5:      # words joined by dashes
            for b in m.books: b.lines = [re.sub('— (?=zq)', r.choice('——–'), l) for l in b.lines]
        rep = {'usfm': [b.usfm for b in m.books]}
        A = load(m, ctx); B = load(m, ctx)
        before = obs.bibleSig(A)
        with boot.quiet():
            if r.random() < .5: A.discover()
            [x.getVersification() for x in A]; A.check(); ra = stable(A.getCheckResults()); ra2 = stable(A.getCheckResults())
        ctx.seen('readonly', rep['usfm'][0])
        ctx.check(obs.bibleSig(A) == before, 'analysis-changes-the-bible', f'case {i}', rep)
        ctx.check(ra == ra2, 'results-not-repeatable', f'case {i}', rep)
        da = stable(A.discoveryResults)
        with boot.quiet():
            for x in B: x.getAddedUnits(); x.getVersification()
            B.discover(); B.discover(); B.check(); rb = stable(B.getCheckResults()); B.check(); rb2 = stable(B.getCheckResults())
        ctx.check(da == B.discoveryResults, 'two-loads-discover-differently', lambda: f'case {i}: ' + str([(k, da[b][k], B.discoveryResults[b].get(k)) for b in da for k in da[b] if da[b][k] != B.discoveryResults[b].get(k)])[:600], rep)
        ctx.check(dropPriority(ra) == dropPriority(rb), 'two-loads-check-differently', f'case {i}', rep)
        ctx.check(dropPriority(rb) == dropPriority(rb2), 'second-check-differs', f'case {i}', rep)
        # the results of asking about one book are that book's part of the whole
        if len(m.books) > 1:
            one = r.choice(m.books).bbb
            with boot.quiet(): C = load(m, ctx); [x.getVersification() for x in C]; C.check([one]); rc = stable(C.getCheckResults([one]))
            ctx.seen('one-book', rep['usfm'][0] + one)
            ctx.check(dropPriority(rc['ByBook'][one]) == dropPriority(ra['ByBook'][one]), 'one-book-check-differs', f'case {i} {one}', rep)
        # word counts
        for b in m.books:
            dr = da[b.bbb]; counted(ctx, G, A.books[b.bbb], dr, rep)
            ctx.check((dr['verseCount'], dr['chapterCount'], dr['footnotesCount'], dr['crossReferencesCount']) == (len(b.verses), len(b.chapters), sum(s.kind == 'note' and s.marker == 'f' for v in b.verses for p in v.pieces for s in p.segs), sum(s.kind == 'xref' for v in b.verses for p in v.pieces for s in p.segs)), 'discovered-counts', lambda: f"{b.bbb} {dr['verseCount']} {dr['chapterCount']} {dr['footnotesCount']} {dr['crossReferencesCount']}", rep)
            exp = Counter()
            for v in b.verses: exp.update(v.main)
            for c, v, mk, h in b.headings:
                if mk[0] == 's': exp.update(gen.tokens(h.plain))
            for mk, h in b.intro: exp.update(gen.tokens(h.plain))
            for k, t in b.titles.items():
                if k.startswith('mt'): exp.update(gen.tokens(t))
            got = toks(dr['mainTextCaseInsensitiveWordCounts'])
            ctx.seen('words', b.usfm); ctx.count('words-checked', sum(exp.values()))
            ctx.check(got == exp, 'main-text-word-counts', lambda: f'{b.bbb}: missing {list((exp-got).items())[:5]} extra {list((got-exp).items())[:5]}', rep)
            ctx.check(toks(dr['mainTextWordCounts']) == got, 'case-sensitive-word-counts', b.bbb, rep)
            notes = Counter(t for v in b.verses for p in v.pieces for s in p.segs if s.kind in ('note', 'xref') for t in gen.tokens(s.usfm))
            al = toks(dr['allCaseInsensitiveWordCounts'])
            ctx.check(al == exp + notes, 'all-word-counts', lambda: f'{b.bbb}: missing {list((exp+notes-al).items())[:5]} extra {list((al-exp-notes).items())[:5]}', rep)
            ctx.count('dashed-words', len(re.findall('\\w[—–]\\w', b.usfm)))
            ctx.check(not any(ch in w for k in dr if k.endswith('WordCounts') for w in dr[k] for ch in '—– '), 'words-split-at-dashes', lambda: f"{b.bbb} {[w for w in dr['allWordCounts'] if '—' in w or '–' in w][:3]}", rep)
            ctx.check(dr['wordCount'] == sum(dr['allWordCounts'].values()) == sum(dr['allCaseInsensitiveWordCounts'].values()) and dr['uniqueWordCount'] == len(dr['allWordCounts']), 'word-totals', lambda: f"{b.bbb} {dr['wordCount']}", rep)
            for ks, ki in (('allWordCounts', 'allCaseInsensitiveWordCounts'), ('mainTextWordCounts', 'mainTextCaseInsensitiveWordCounts')):
                fold = Counter()
                for w, n in dr[ks].items(): fold[w.lower()] += n
                ctx.check(fold == Counter(dr[ki]), 'case-folding-of-counts', f'{b.bbb} {ks}', rep)
            # the checks count words, characters, lines
            w = ra['ByBook'][b.bbb]['Words']['All Word Counts']
            ctx.check(w['--Total--'] == sum(n for k, n in w.items() if k != '--Total--'), 'check-word-total', b.bbb, rep)
            cw = toks(w)
            vn = Counter(t for v in b.verses for t in v.main) + notes
            ctx.check(all(cw[t] == n for t, n in vn.items()), 'check-word-counts', lambda: f'{b.bbb} {[(t,n,cw[t]) for t,n in vn.items() if cw[t]!=n][:5]}', rep)
            chars = Counter(); NB = '\u00a0'
            for e in A.books[b.bbb]:
                texts = [e.getCleanText()] + [x.getCleanText() for x in (e.getExtras() or []) if x.getType() != 'ww']
                if e.getMarker() not in ('v~', 'p~') and not G.loadedUSFMMarkers.isPrinted(e.getMarker()): continue
                for t in texts:
                    if t:
                        for ch in t: chars['Space' if ch == ' ' else 'NBSpace' if ch == NB else ch] += 1
            gotc = ra['ByBook'][b.bbb]['Characters']['All Character Counts']
            ctx.seen('characters', b.usfm)
            ctx.check(gotc['Total'] == sum(chars.values()) and all(gotc.get(k) == n for k, n in chars.items()) and len(gotc) == len(chars) + 1, 'character-counts', lambda: f'{b.bbb}: {[(k, n, gotc.get(k)) for k, n in chars.items() if gotc.get(k) != n][:6]} total {gotc["Total"]} vs {sum(chars.values())}', rep)
            lc = Counter()
            for k, n in chars.items():
                ch = {'Space': ' ', 'NBSpace': NB}.get(k, k)
                if ch == ' ' or ch == '-' or ch.isalpha(): lc['Space' if ch == ' ' else ch.lower()] += n
            gl0 = dict(ra['ByBook'][b.bbb]['Characters']['Letter Counts']); tot = gl0.pop('Total'); gl = Counter()
            for k, n in gl0.items(): gl[k if k in ('Space', 'NBSpace') else k.lower()] += n
            ctx.check(Counter(gl) == lc and tot == sum(lc.values()), 'letter-counts', lambda: f'{b.bbb}: {[(k, n, gl.get(k)) for k, n in lc.items() if gl.get(k) != n][:6]}', rep)
            # heading, note lines are listed once each, in order
            if 'suffix' not in str(b.verses):
                hl = ra['ByBook'][b.bbb].get('Headings', {}).get('Section Heading Lines', [])
                ctx.check([gen.tokens(x) for x in hl] == [gen.tokens(h.plain) for c, v, mk, h in b.headings if mk[0] == 's'], 'heading-lines', lambda: f'{b.bbb} {hl}', rep)
            fl = ra['ByBook'][b.bbb].get('Notes', {}).get('Footnote Lines', [])
            exn = [gen.tokens(s.usfm) for v in b.verses for p in v.pieces for s in p.segs if s.kind == 'note' and s.marker == 'f']
            ctx.seen('notes', b.usfm, bool(exn))
            ctx.check([gen.tokens(x) for x in fl] == exn, 'footnote-lines', lambda: f'{b.bbb} {len(fl)} listed, {len(exn)} in the text', rep)
        # totals over all books are the sums
        for grp in ('Words', 'Characters'):
            allb = ra['ByBook']['All Books'].get(grp, {})
            for key, d in allb.items():
                if key.endswith('Counts') and key != 'Uncommon Word Counts':
                    s = Counter()
                    for b in m.books: s.update(ra['ByBook'][b.bbb].get(grp, {}).get(key, {}))
                    ctx.seen('totals', repr(sorted(d.items()))[:2000])
                    ctx.check(Counter(d) == s, 'all-books-total', lambda: f'{grp} {key}', rep)
        ALL = da['ALL']
        for key in ('wordCount', 'footnotesCount', 'crossReferencesCount', 'verseCount', 'chapterCount', 'sectionHeadingsCount', 'figuresCount', 'completedVerseCount'):
            s = sum(da[b.bbb].get(key) or 0 for b in m.books)
            ctx.check((ALL.get(key) or 0) == s, 'discovery-total', lambda: f'{key} {ALL.get(key)} {s}', rep)
        for tag, test in (('OT', G.loadedBibleBooksCodes.isOldTestament_NR), ('NT', G.loadedBibleBooksCodes.isNewTestament_NR)):
            mine = [b.bbb for b in m.books if test(b.bbb)]
            ctx.seen('testament-totals', (tag, repr(mine), rep['usfm'][0]))
            ctx.check(ALL.get(tag + 'BookCodes', []) == mine and ALL.get(tag + 'BookCount', 0) == len(mine), 'discovery-testament-books', lambda: f"{tag} {ALL.get(tag + 'BookCodes')} expected {mine}", rep)
            for key in ('wordCount', 'footnotesCount', 'crossReferencesCount', 'verseCount', 'chapterCount', 'sectionHeadingsCount', 'completedVerseCount'):
                s = sum(da[x].get(key) or 0 for x in mine)
                ctx.check((ALL.get(tag + key) or 0) == s, 'discovery-testament-total', lambda: f'{tag + key} {ALL.get(tag + key)} {s}', rep)
        for key in ('allWordCounts', 'mainTextWordCounts', 'allCaseInsensitiveWordCounts', 'mainTextCaseInsensitiveWordCounts'):
            s = Counter()
            for b in m.books: s.update(da[b.bbb][key])
            ctx.check(Counter(ALL[key]) == s, 'discovery-word-total', key, rep)
        # a planted error is reported where it is, and was not reported there without it
        m2 = gen.bible(r, {'char', 'notes', 'headings', 'poetry', 'w', 'xrefs'}, nBooks=1, maxVerses=6, pool=[b for b in gen.BOOKS if b[0] not in ('PSA',)])
        b = m2.books[0]; L = list(b.lines)
        pl = plant(r, b, L)
        if pl is None: continue
        clean = load(m2, ctx); b.lines = L; bad = load(m2, ctx)
        with boot.quiet(): [x.getVersification() for x in clean.books.values()]; om = bad.books[b.bbb].getVersification()[1]; clean.check(); bad.check(); rcl = clean.getCheckResults()['ByBook'][b.bbb]; rbd = bad.getCheckResults()['ByBook'][b.bbb]
        def new(*path):
            x, y = rbd, rcl
            for p in path: x = x.get(p, {}); y = y.get(p, {})
            return [z for z in (x or []) if z not in (y or [])]
        kind, c, v = pl
        ctx.seen('planted', kind + b.usfm); ctx.count('planted-' + kind)
        if kind == 'gap':
            ok = any(f'{b.bbb} {c} ' in z and 'Missing' in z for z in new('Versification Errors'))
            ok = ok and all((c, x) in om for x in v)
        elif kind == 'repeat': ok = any(f'{b.bbb} {c} ' in z and 'out of sequence' in z for z in new('Versification Errors'))
        elif kind == 'title-period': ok = any('title ends with a period' in z for z in new('Headings', 'Possible Heading Errors'))
        elif kind == 'heading-period': ok = any('heading ends with a period' in z and f'{b.bbb} {c}:' in z for z in new('Headings', 'Possible Heading Errors'))
        elif kind == 'double-space': ok = any('space' in z.lower() and f'{c}:{v}' in z for z in new('Characters', 'Possible Character Errors') + new('Fix Text Errors') + new('Load Errors'))
        elif kind == 'notes-origin': ok = any(f'{b.bbb} {c}:{v} ' in z and '99:88' in z for z in new('Notes', 'Footnote Errors'))
        ctx.check(ok, 'planted-error-not-reported', lambda: f'{pl} in {b.bbb}: new reports {[(k, z) for k in rbd for z in (new(k) if isinstance(rbd[k], list) else [q for kk in rbd[k] for q in new(k, kk) if not kk.endswith("Counts")])][:8]}', {'usfm': '\n'.join(L)})
