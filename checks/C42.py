"""C42 -- versification systems: tables, validity of references, expansion of ranges and matching, against the XML sources."""
import os, glob, xml.etree.ElementTree as ET
from bosv import boot

def call(f, *a, **k):
    with boot.quiet():
        try: return f(*a, **k)
        except (Exception, SystemExit) as e: return '!' + repr(e)

def source(folder):
    src = {}
    for f in sorted(glob.glob(str(folder) + '/BibleVersificationSystem_*.xml')):
        books = {}; om = {}
        for b in ET.parse(f).getroot().iter('BibleBookVersification'):
            B = b.find('referenceAbbreviation').text; books[B] = {}; assert b.find('numChapters').text.isdigit()
            for e in b.findall('numVerses'):
                books[B][e.get('chapter')] = int(e.text)
                for w in (e.get('omittedVerses') or '').split(','):
                    if w: om.setdefault(B, []).append((e.get('chapter'), w))
            books[B]['n'] = int(b.find('numChapters').text)
        src[os.path.basename(f)[25:-4]] = (books, om)
    return src

def run(ctx):
    G = boot.boot()
    from BibleOrgSys.Reference.BibleVersificationSystems import BibleVersificationSystems, BibleVersificationSystem
    from BibleOrgSys.Reference.BibleBookOrders import BibleBookOrderSystem
    ctx.rule = 'every book and chapter of every versification system against the XML sources as read by the check; random references (valid, omitted, zero, beyond the end) checked for validity, random ranges within a book and over books of seven book orders expanded, and random schemes matched against all systems; distinct = distinct (system, argument)'
    for k, n in (('book', 1000), ('chapter', 10000), ('reference', 20000), ('range', 1000), ('range-books', 300), ('omitted', 500), ('refused-range', 200), ('match', 50)): ctx.need(k, n)
    src = source(G.BOS_DATAFILES_FOLDERPATH / 'VersificationSystems')
    allBooks = call(lambda: list(G.loadedBibleBooksCodes.getAllReferenceAbbreviations()))
    ctx.check(isinstance(allBooks, list) and len(allBooks) > 200, 'book-codes', lambda: f'{allBooks}', None)
    vs = call(lambda: BibleVersificationSystems().loadData())
    if not ctx.check(not isinstance(vs, str), 'load', lambda: f'{vs}', None): return
    ctx.check(sorted(call(vs.getAvailableVersificationSystemNames)) == sorted(src) and len(vs) == len(src) and all(n in vs and vs.isValidVersificationSystemName(n) for n in src), 'names', lambda: f'{call(vs.getAvailableVersificationSystemNames)}', None)
    ctx.check(call(vs.getVersificationSystem, 'Nothing') is None and 'Nothing' not in vs and vs.isValidVersificationSystemName('Nothing') is False, 'unknown', lambda: 'unknown system', None)
    S = {}; orders = {}
    for n in ('EuropeanBible', 'KJVwithApocrypha', 'ModernJewish', 'Septuagint', 'VulgateBible', 'NRSVwithApocrypha', 'ALL'):
        o = call(BibleBookOrderSystem, n)
        if ctx.check(not isinstance(o, str), 'order', lambda: f'{n}: {o}', n): orders[n] = (o, list(o.getBookOrderList()))
    for n, (books, om) in src.items():
        s = S[n] = call(BibleVersificationSystem, n)
        if not ctx.check(not isinstance(s, str), 'create', lambda: f'{n}: {s}', n): return
        ctx.check(s.getVersificationSystemName() == n and list(s) == list(books) and len(s) == s.numAvailableBooks() == len(books), 'books', lambda: f'{n}: {list(s)[:5]}', n)
        for B in allBooks:
            got = call(s.getNumChapters, B); one = call(s.isSingleChapterBook, B); inn = B in s; om1 = call(s.getOmittedVerseList, B); om2 = call(s.getOmittedVerseList, B, fullRefs=True)
            ctx.seen('book', (n, B))
            if B not in books: ctx.check(got is None and one is None and inn is False and not om1 and call(s.getNumVerses, B, '1') == 0, 'missing-book', lambda: f'{n} {B}: {got}, {one}, {inn}, {om1}', (n, B)); continue
            d = {c: v for c, v in books[B].items() if c != 'n'}
            ctx.check(got == books[B]['n'] and one == (got == 1) and inn is True, 'chapters', lambda: f'{n} {B}: {got} {one} {inn}', (n, B))
            ctx.check(call(s.getNumVersesList, B) == list(d.values()) and call(s.getTotalNumVerses, B) == sum(d.values()), 'verses-list', lambda: f'{n} {B}: {call(s.getNumVersesList, B)}, {call(s.getTotalNumVerses, B)}', (n, B))
            ctx.check((om1 or []) == om.get(B, []) and (om2 or []) == [(B, c, v) for c, v in om.get(B, [])], 'omitted-list', lambda: f'{n} {B}: {om1}, {om2}', (n, B))
            for c in range(-1, max(got or 1, 1) + 3):
                w = d.get(str(c), 0); ctx.seen('chapter', (n, B, c))
                ctx.check(call(s.getNumVerses, B, str(c)) == w == call(s.getNumVerses, B, c), 'num-verses', lambda: f'{n} {B} {c}: {call(s.getNumVerses, B, str(c))}, expected {w}', (n, B, c))
            for c, v in om.get(B, []):
                ctx.seen('omitted', (n, B, c, v)); ctx.check(call(s.isOmittedVerse, (B, c, v, '')) is True and call(s.isValidBCVRef, (B, c, v, '')) is False, 'is-omitted', lambda: f'{n} {B} {c}:{v}', (n, B, c, v))
        a = call(s.getAuxilliaryVerseList, 'omitted'); ctx.check(a == om, 'auxilliary', lambda: f'{n}: {str(a)[:200]}', n)

    def valid(n, ref, ext=False):
        B, C, V, X = ref; books, om = src[n]
        if B not in books: return False
        if ext and C == '-1': return 0 <= int(V) <= 199
        if C not in books[B] or C == 'n': return False
        if V == '' or ext and V == '0': return True
        return 1 <= int(V) <= books[B][C] and (C, V) not in om.get(B, [])
    def verses(n, B):
        books, om = src[n]
        return [(c, str(v)) for c in sorted((c for c in books[B] if c != 'n'), key=int) for v in range(1, books[B][c] + 1) if (c, str(v)) not in om.get(B, [])]
    names = list(src); withOm = [n for n in names if src[n][1]]
    for i in ctx.cases(1600, 30000):
        r = ctx.rng(i); n = r.choice(names if r.random() < .6 else withOm); s = S[n]; books, om = src[n]
        for _ in range(20):
            B = r.choice(list(books)) if r.random() < .93 else r.choice(allBooks); d = books.get(B, {'1': 20, 'n': 1}); nC = d['n']
            if om.get(B) and r.random() < .4: C, V = r.choice(om[B]); V = str(int(V) + r.choice([-1, 0, 0, 1]))
            else: C = str(r.choice([1, nC, nC + 1, 0, -1, r.randint(1, nC)])); V = str(r.choice([0, 1, d.get(C, 20), d.get(C, 20) + 1, r.randint(1, max(1, d.get(C, 199)))]))
            if r.random() < .1: V = '' if C != '-1' else '199'
            if C == '-1' and r.random() < .3: V = r.choice(['199', '200', '0'])
            ref = (B, C, V, r.choice(['', '', '', 'a'])); ext = r.random() < .4
            got = call(s.isValidBCVRef, ref, extended=ext); ctx.seen('reference', (n, ref, ext)); ctx.check(got is valid(n, ref, ext), 'valid', lambda: f'{n} {ref} extended={ext}: {got}', (n, ref, ext))
        # ranges
        def pick(B):
            L = verses(n, B); c, v = r.choice(L) if r.random() < .7 else r.choice([L[0], L[-1], L[min(1, len(L) - 1)]])
            return (B, c, '' if r.random() < .12 else v, r.choice(['', '', 'a', 'b']))
        usable = [B for B in books if verses(n, B) and set(books[B]) == {'n'} | {str(c) for c in range(1, books[B]['n'] + 1)}]     # some source tables lack chapters
        B = r.choice([b for b in usable if b in om] or usable) if r.random() < .5 else r.choice(usable); a, b = pick(B), pick(B)
        if (int(a[1]), int(a[2] or 1)) > (int(b[1]), int(b[2] or 1)) and r.random() < .7: a, b = b, a
        def want(a, b, between):
            first = (int(a[1]), int(a[2] or 1)); last = (int(b[1]), int(b[2] or books[b[0]][b[1]])); out = []
            for X in [a[0]] + between + ([b[0]] if b[0] != a[0] else []):
                for c, v in verses(n, X):
                    if X == a[0] and (int(c), int(v)) < first or X == b[0] and (int(c), int(v)) > last: continue
                    out.append((X, c, v, a[3] if X == a[0] and (int(c), int(v)) == first else b[3] if X == b[0] and (int(c), int(v)) == last else ''))
            return out
        ka = (int(a[1]), int(a[2] or 1)); kb = (int(b[1]), int(b[2] or books[B][b[1]]))
        a, b = [(x[0], x[1], x[2], x[3] if x[2] else '') for x in (a, b)]
        if ka < kb:
            got = call(s.expandCVRange, a, b); ctx.seen('range', (n, a, b)); ctx.check(got == want(a, b, []), 'expand', lambda: f'{n} {a}-{b}: {str(got)[:300]}, expected {str(want(a, b, []))[:300]}', (n, a, b))
        elif ka > kb and (int(a[1]) > int(b[1]) or ka > kb):
            got = call(s.expandCVRange, a, b); ctx.seen('refused-range', (n, a, b)); ctx.check(got is None, 'expand-reversed', lambda: f'{n} {a}-{b}: {str(got)[:300]}', (n, a, b))
        bad = (B, a[1], str(books[B][a[1]] + r.randint(1, 50)), '') if r.random() < .7 else (B, str(books[B]['n'] + 1), '1', '')
        got = call(s.expandCVRange, *((a, bad) if r.random() < .5 else (bad, b))); ctx.seen('refused-range', (n, bad)); ctx.check(got is None, 'expand-invalid', lambda: f'{n} {a} {b} {bad}: {str(got)[:300]}', (n, a, b, bad))
        on = r.choice(list(orders)); o, L = orders[on]; have = [x for x in L if x in usable]
        if len(have) > 2 and i % 3 == 0:
            x = r.randrange(len(have) - 1); y = min(len(have) - 1, x + r.choice([1, 1, 2, 3, 4]))
            if any(z in books and z not in usable for z in L[L.index(have[x]):L.index(have[y])]): continue
            a, b = pick(have[x]), pick(have[y]); a, b = [(z[0], z[1], z[2], z[3] if z[2] else '') for z in (a, b)]
            got = call(s.expandCVRange, a, b, bookOrderSystem=o); w = want(a, b, have[x + 1:y]); ctx.seen('range-books', (n, on, a, b, [z for z in L[L.index(have[x]):L.index(have[y])] if z not in books]))
            ctx.check(got == w, 'expand-books', lambda: f'{n} {on} {a}-{b}: {len(got) if got else got}, expected {len(w)}: ' + str([(p, q) for p, q in zip(got or [], w) if p != q][:2]), (n, on, a, b))
            got = call(s.expandCVRange, b, a, bookOrderSystem=o); ctx.seen('refused-range', (n, on)); ctx.check(got is None and call(s.expandCVRange, a, b) is None, 'expand-books-reversed', lambda: f'{n} {on} {b}-{a}: {str(got)[:200]}', (n, on, a, b))
    # which systems does a scheme match?
    from argparse import Namespace
    G.commandLineArguments = Namespace(export=False)
    for i in ctx.cases(120, 1000):
        r = ctx.rng('m', i); n = r.choice(names); books, om = src[n]
        scheme = {B: {c: str(v) for c, v in books[B].items() if c != 'n'} for B in r.sample(list(books), r.randint(1, len(books)))}; how = r.choice(['same', 'same', 'verse', 'chapter', 'omitted', 'omitted+', 'omitted-'])
        B = r.choice(list(scheme)); c = r.choice(list(scheme[B])); oo = None
        if how == 'verse': scheme[B][c] = str(int(scheme[B][c]) + r.choice([1, -1]))
        elif how == 'chapter': scheme[B][str(len(scheme[B]) + 1)] = '9'
        elif how.startswith('omitted') and om:
            oo = {b: list(v) for b, v in om.items() if b in scheme}
            if oo:
                x = r.choice(list(oo))
                if how == 'omitted+': oo[x].append((c, '1'))
                elif how == 'omitted-' and len(oo[x]) > 1: oo[x].pop(r.randrange(len(oo[x])))
            else: oo = None
        def matches(m):
            mb, mo = src[m]
            return all(b in mb and all(mb[b].get(k) == int(v) for k, v in d.items()) for b, d in scheme.items()) and all(b in mo and sorted(v) == sorted(mo[b]) for b, v in (oo or {}).items())
        w = sum(map(matches, names)); arg = scheme if r.random() < .7 else {b: list(d.items()) for b, d in scheme.items()}
        got = call(vs.checkVersificationSystem, 'Test', arg, {'omitted': oo} if oo else None)
        ctx.seen('match', (n, how, i))
        # returned is the number of systems matched; systems which only differ in unlisted books match
        ctx.check(got == w, 'match', lambda: f'{n} {how} {B} {c}: {got}, expected {w}', (n, how, B, c))
