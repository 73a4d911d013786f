"""C43 -- absolute verse numbers are a bijection between 1..N and the verses of a system, whichever systems were asked before."""
from bosv import boot
from checks.C42 import call, source as vsource
from checks.C45 import source

def run(ctx):
    G = boot.boot()
    from BibleOrgSys.Reference.BibleOrganisationalSystems import BibleOrganisationalSystem
    ctx.rule = 'all verses of organisational systems with different books and versifications numbered and numbers turned back, the systems asked in turn in random order, and numbers and references which do not exist; distinct = distinct (system, verse)'
    for k, n in (('number', 30000), ('back', 30000), ('systems', 12), ('missing', 1200), ('alternated', 2000)): ctx.need(k, n)
    vs = vsource(G.BOS_DATAFILES_FOLDERPATH / 'VersificationSystems'); D, I = source(G.BOS_DATAFILES_FOLDERPATH / 'BibleOrganisationalSystems.xml')
    cand = {}
    names = sorted(I); ctx.rng('names').shuffle(names)
    for n in names:
        b = call(BibleOrganisationalSystem, n)
        if isinstance(b, str): continue          # decided by C45
        v = call(b.getOrganisationalSystemValue, 'versificationSystem'); L = call(b.getBookList)
        if v not in vs or not L: continue
        refs = [(B, c, str(w)) for B in L if B in vs[v][0] for c, k in vs[v][0][B].items() if c != 'n' for w in range(1, k + 1)]
        if any(set(vs[v][0][B]) != {'n'} | {str(c) for c in range(1, vs[v][0][B]['n'] + 1)} for B in L if B in vs[v][0]): continue
        key = (v, tuple(L))
        if key not in [k for k, *_ in cand.values()]: cand[n] = (key, b, refs)
    names = ([x for x in cand if x in ('KJV-1611',)] + list(cand))[:ctx.tier == 'quick' and 16 or 999]
    for n in dict.fromkeys(names):
        key, b, refs = cand[n]; r = ctx.rng(n); N = len(refs); ctx.seen('systems', n)
        if n == 'KJV-1611' and len(key[1]) == 66: ctx.check(N == 31102, 'kjv', lambda: f'{N}', n)
        idx = range(N) if ctx.tier != 'quick' else sorted(set(r.sample(range(N), min(N, 2500))) | {0, N - 1} | {i + j for i in range(1, N) if refs[i][0] != refs[i - 1][0] for j in (-1, 0)})
        for i in idx:
            B, c, v = refs[i]; got = call(b.getAbsoluteVerseNumber, B, c, v); ctx.seen('number', (n, i)); ctx.check(got == i + 1, 'number', lambda: f'{n} {B} {c}:{v}: {got}, expected {i + 1}', (n, i))
            got = call(b.convertAbsoluteVerseNumber, i + 1); ctx.seen('back', (n, i)); ctx.check(got == (B, c, v), 'back', lambda: f'{n} {i + 1}: {got}, expected {(B, c, v)}', (n, i))
        for x in (N + 1, N + 2, N + 1000, 99999): ctx.check(N >= x or call(b.convertAbsoluteVerseNumber, x) is None, 'beyond', lambda: f'{n} {x}: {call(b.convertAbsoluteVerseNumber, x)}', (n, x))
        have = set(refs); every = [x for x in G.loadedBibleBooksCodes.getAllReferenceAbbreviations()]
        for _ in range(150):
            B, c, v = r.choice(refs); k = r.choice(['verse', 'chapter', 'zero', 'book', 'empty'])
            if k == 'verse': v = str(int(v) + r.choice([1, 10, 170]))
            elif k == 'chapter': c = str(int(c) + r.choice([1, 10, 150]))
            elif k == 'zero': v = '0'
            elif k == 'book': B = r.choice(every)
            else: v = ''
            if (B, c, v) in have: continue
            ctx.seen('missing', (n, B, c, v)); got = call(b.getAbsoluteVerseNumber, B, c, v); ctx.check(got is None, 'missing', lambda: f'{n} {B} {c}:{v!r}: {got}', (n, B, c, v))
    L = list(dict.fromkeys(names))
    for i in ctx.cases(3000, 30000):
        r = ctx.rng(i); n = r.choice(L); _, b, refs = cand[n]; x = r.randrange(len(refs)); ctx.seen('alternated', (n, x))
        ctx.check(call(b.getAbsoluteVerseNumber, *refs[x]) == x + 1 and call(b.convertAbsoluteVerseNumber, x + 1) == refs[x], 'alternated', lambda: f'{n} {refs[x]} {x + 1}: {call(b.getAbsoluteVerseNumber, *refs[x])}, {call(b.convertAbsoluteVerseNumber, x + 1)}', (n, x))
