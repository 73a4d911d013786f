"""Typed Bible references: every reference list in the punctuation and names of a system gives exactly the verses written."""
from bosv import boot

SYSTEMS = ['KJV-1611', 'RSV52', 'VUL', 'MBT', 'GENERIC-80-RUS', 'GENERIC-KJV-80-ENG', 'TYN-NT-2']

class Sys:
    def __init__(s, name):
        from BibleOrgSys.Reference.BibleOrganisationalSystems import BibleOrganisationalSystem
        from BibleOrgSys.Reference.BibleReferences import BibleReferenceList, BibleSingleReference, BibleSingleReferences
        s.name = name; s.bos = b = BibleOrganisationalSystem(name); s.L = BibleReferenceList(b); s.one = BibleSingleReference(b); s.many = BibleSingleReferences(b)
        s.p = b.getPunctuationDict(); s.books = {}
        for B in b.getBookList():
            try: b.getBookOrderPosition(B); names = (b.getBookName(B), b.getBookAbbreviation(B)); nv = [int(b.getNumVerses(B, str(c))) for c in range(1, int(b.getNumChapters(B)) + 1)]
            except (TypeError, KeyError, ValueError): continue     # no name in this language or no verse numbers in this system
            if not nv or not all(names) or min(nv) < 1: continue
            s.books[B] = (list(names), nv)
        s.order = list(s.books)
        s.single = {B for B in s.books if len(s.books[B][1]) == 1}

def group(r, S, B, last):
    """references to one book: text, list of references"""
    names, nv = S.books[B]; p = S.p; t = r.choice(names); out = []
    if t != names[0] and p['punctuationAfterBookAbbreviation'] and r.random() < .6: t += p['punctuationAfterBookAbbreviation']
    t += p['bookChapterSeparator']; sfx = lambda: r.choice(p['allowedVerseSuffixes'][:3]) if r.random() < .15 else ''
    CV, VS, BR, CBR, CS = p['chapterVerseSeparator'], p['verseSeparator'], p['verseBridgeCharacter'], p['chapterBridgeCharacter'], p['chapterSeparator']
    if B in S.single and r.random() < .7:
        c0 = ''
    else: c0 = None
    def verses(c, lo, n, prefix):
        nonlocal t
        first = True
        for _ in range(n):
            if lo > nv[c - 1]: break
            v = r.randint(lo, min(nv[c - 1], lo + r.choice([0, 3, 30]))); x = sfx()
            if not first: t += VS
            if first: t += prefix
            if r.random() < .35 and v < nv[c - 1]:
                w = r.randint(v + 1, min(nv[c - 1], v + r.choice([1, 5, 20]))); y = sfx(); t += f'{v}{x}{BR}{w}{y}'; out.append(((B, str(c), str(v), x), (B, str(c), str(w), y))); lo = w + 2
            else: t += f'{v}{x}'; out.append((B, str(c), str(v), x)); lo = v + 2
            first = False
        return lo
    c = r.randint(1, len(nv))
    if c0 == '':                                            # Jude 5-7,9
        verses(1, 1, r.choice([1, 1, 2, 3]), ''); return t, out
    if last == 'only' and B not in S.single and r.random() < .15:   # whole chapters
        if r.random() < .5 or c == len(nv): return t + str(c), [(B, str(c), '', '')]
        d = r.randint(c + 1, len(nv)); return t + f'{c}{CBR}{d}', [((B, str(c), '', ''), (B, str(d), '', ''))]
    for k in range(r.choice([1, 1, 2, 3])):
        if c > len(nv): break
        if k: t += CS + ' '
        if r.random() < .15 and c < len(nv):                 # over the end of chapters
            d = r.randint(c + 1, min(len(nv), c + 3)); v = r.randint(1, nv[c - 1]); w = r.randint(1, nv[d - 1]); x, y = sfx(), sfx()
            t += f'{c}{CV}{v}{x}{CBR}{d}{CV}{w}{y}'; out.append(((B, str(c), str(v), x), (B, str(d), str(w), y)))
            if r.random() < .3 and w + 2 <= nv[d - 1]: t += VS; verses(d, w + 2, 1, '')
            c = d
        else: verses(c, 1, r.choice([1, 1, 2, 3]), f'{c}{CV}')
        c += r.randint(1, 3)
    return t, out

def expand(S, refs):
    out = []
    for x in refs:
        if len(x) == 2:
            (B, c, v, _), (_, d, w, _) = x; c, d = int(c), int(d); v = int(v or 1); w = int(w or S.books[B][1][d - 1])
            out += [(B, str(cc), str(vv)) for cc in range(c, d + 1) for vv in range(v if cc == c else 1, (w if cc == d else S.books[B][1][cc - 1]) + 1)]
        else: out.append(x[:3])
    return out

def run(ctx):
    from BibleOrgSys import BibleOrgSysGlobals as G
    ctx.rule = 'reference lists written with the names, abbreviations and punctuation of seven organisational systems (English, Matigsalug, Russian) by the generator, which knows the verses meant; references beyond the end of a chapter or book must be refused; distinct = distinct (system, text)'
    ctx.need('lists', 1500); ctx.need('single', 1000); ctx.need('refused', 800); ctx.need('contains', 3000)
    with boot.quiet(): SS = [Sys(n) for n in SYSTEMS]
    for S in SS: ctx.count('books:' + S.name, len(S.books))
    osis = G.loadedBibleBooksCodes.getOSISAbbreviation
    for i in ctx.cases(2000, 60000):
        r = ctx.rng(i); S = SS[i % len(SS)]; n = r.choice([1, 1, 1, 2, 3]); k = sorted(r.sample(range(len(S.order)), min(n, len(S.order))))
        parts = []; want = []
        for j in k:
            t, o = group(r, S, S.order[j], 'only' if len(k) == 1 else ''); parts.append(t); want += o
        text = (S.p['bookSeparator'] + ' ').join(parts)
        with boot.quiet():
            try:
                ok, warn, got = S.L.parseReferenceString(text); ex = [x[:3] for x in S.L.getReferenceList(expanded=True)]; again = S.L.parseReferenceString(text)[2]; fr = S.L.getFirstReference(text); g2 = S.L.getReferenceList()
            except (Exception, SystemExit) as e: ok = False; got = repr(e); ex = again = fr = g2 = None
        ctx.seen('lists', (S.name, text))
        first = want[0] if len(want[0]) == 4 else want[0][0]
        kind = 'single-chapter' if any(S.order[j] in S.single for j in k) else 'several-books' if len(k) > 1 else 'one-book'
        if not ctx.check(ok and got == want == again == g2 and fr == first, 'reference-list:' + kind, lambda: f'{S.name} {text!r}: {ok} {got} not {want} {fr}', (S.name, text)): continue
        wex = expand(S, want)
        ctx.check(ex == wex, 'expanded', lambda: f'{S.name} {text!r}: {ex[:9]}… {wex[:9]}…', (S.name, text))
        wos = '; '.join((f'{osis(x[0])}.{x[1]}' + (f'.{x[2]}' if x[2] else '')) if len(x) == 4 else '-'.join(f'{osis(y[0])}.{y[1]}' + (f'.{y[2]}' if y[2] else '') for y in x) for x in want)
        with boot.quiet():
            try: os1 = S.L.getOSISRefList(); os2 = S.L.parseToOSIS(text)
            except (Exception, SystemExit) as e: os1 = os2 = repr(e)
        ctx.check(os1 == os2 == wos, 'to-osis', lambda: f'{S.name} {text!r}: {os1!r} {os2!r} {wos!r}', (S.name, text))
        # which verses are in the list
        full = set()
        for x in want:
            if len(x) == 4 and not x[2]: pass
            else: full |= set(expand(S, [x]))
        qs = [r.choice(sorted(full))] if full else []
        B = S.order[r.choice(k)]; c = r.randint(1, len(S.books[B][1])); qs.append((B, str(c), str(r.randint(1, S.books[B][1][c - 1]))))
        if full:
            B, c, v = r.choice(sorted(full)); v = int(v) + r.choice([-1, 1])
            if 1 <= v <= S.books[B][1][int(c) - 1]: qs.append((B, c, str(v)))
        for q in qs:
            if any(len(x) == 4 and not x[2] and x[:2] == q[:2] for x in want): continue     # a whole chapter: not decided by the documentation
            with boot.quiet():
                try: a = S.L.containsReference(*q)
                except (Exception, SystemExit) as e: a = repr(e)
            ctx.seen('contains', (S.name, text, q)); ctx.check(a == (q in full), 'contains', lambda: f'{S.name} {text!r} contains {q}: {a}', (S.name, text, q))
        # one verse
        B = r.choice(S.order); names, nv = S.books[B]; c = r.randint(1, len(nv)); v = r.choice([1, nv[c - 1], r.randint(1, nv[c - 1])]); x = r.choice(['', '', S.p['allowedVerseSuffixes'][0]])
        t = r.choice(names); t += (S.p['punctuationAfterBookAbbreviation'] if t != names[0] and r.random() < .5 else '') + ' '
        text = t + (f'{v}{x}' if B in S.single and r.random() < .6 else f'{c}{S.p["chapterVerseSeparator"]}{v}{x}')
        with boot.quiet():
            try: a = S.one.parseReferenceString(text); b = S.many.parseReferenceString(text); d = S.L.parseReferenceString(text)
            except (Exception, SystemExit) as e: a = b = d = (repr(e),) * 6
        w = (B, str(c), str(v), x)
        ctx.seen('single', (S.name, text)); ctx.check(a[0] is True and a[2:] == w and S.one.reference == w and (b[0], b[2]) == (True, [w]) == (d[0], d[2]), 'one-verse', lambda: f'{S.name} {text!r}: {a} {b} {d} not {w}', (S.name, text))
        # what is not there
        bad = r.choice([(len(nv) + r.choice([1, 5, 100]), 1), (c, nv[c - 1] + r.choice([1, 2, 50])), (c, 0) if False else (c, nv[c - 1] + 1)])
        text = t + f'{bad[0]}{S.p["chapterVerseSeparator"]}{bad[1]}'; how = r.choice(['', 'range', 'list'])
        if how == 'range' and bad[0] == c: text = t + f'{c}{S.p["chapterVerseSeparator"]}1{S.p["verseBridgeCharacter"]}{bad[1]}'
        if how == 'list' and bad[0] == c: text = t + f'{c}{S.p["chapterVerseSeparator"]}1{S.p["verseSeparator"]}{bad[1]}'
        with boot.quiet():
            try: d = S.L.parseReferenceString(text)[0]; o = S.L.parseToOSIS(text)
            except (Exception, SystemExit) as e: d, o = repr(e), ''
            try: a = how == '' and S.one.parseReferenceString(text)[0]
            except (Exception, SystemExit) as e: a = repr(e)
        ctx.seen('refused', (S.name, text)); ctx.check(d is False and o is None and a is False, 'no-such-verse', lambda: f'{S.name} {text!r}: {d} {o} {a}', (S.name, text))
