"""C41 -- book names systems: names, abbreviations and unambiguous short forms, against the XML sources."""
import os, glob, collections, xml.etree.ElementTree as ET
from argparse import Namespace
from bosv import boot
from checks.C42 import call

def source(folder):
    S = {}
    for f in sorted(glob.glob(str(folder) + '/BibleBooksNames_*.xml')):
        D, L, N = {}, {}, {}; root = ET.parse(f).getroot()
        def fields(e): return [e.find('defaultName').text, e.find('defaultAbbreviation').text] + [x.text for x in e.findall('inputAbbreviation')]
        for e in root.findall('BibleDivisionNames'): D[e.get('standardAbbreviation')] = (fields(e), [x.text for x in e.findall('includesBook')])
        for k, (f0, b) in D.items():
            if f0[0].startswith(f0[1]): D[k] = ([f0[0]] + f0[2:], b, f0[1])       # its abbreviation is a beginning of its name anyway
            else: D[k] = (f0, b, f0[1])
        for e in root.findall('BibleBooknameLeaders'): L[e.get('standardLeader')] = [x.text for x in e.findall('inputAbbreviation')]
        for e in root.findall('BibleBookNames'): N[e.get('referenceAbbreviation')] = fields(e)
        S[os.path.basename(f)[16:-4]] = (D, L, N)
    return S

def short(fields, L):
    """All short forms of these names (in upper case): leaders like 1 and Saint exchanged, ends and inner spaces left out."""
    out = set()
    for f in fields:
        u = f.upper(); vs = [u]
        for l, R in L.items():
            if u.startswith(l.upper() + ' '): vs += [(x.upper() + ' ').join(u.split(l.upper() + ' ')) for x in R]
        for v in vs:
            for n in range(1, len(v) + 1):
                s = v[:n]
                if s.isdigit() or s[-1] == ' ': continue
                out.add(s)
                while ' ' in s: s = s.replace(' ', '', 1); out.add(s)
    return out

def uniq(x): return list(dict.fromkeys(x))

def case(r, s):
    """s in another letter case, if that is reversible."""
    t = r.choice([s, s.lower(), s.upper(), s.title(), ''.join(r.choice([c.lower(), c.upper()]) for c in s)])
    return t if t.upper() == s.upper() else s

def wanted(groups, L):
    """groups: {key: names}. Gives (name or short form -> key, those given to several keys, and those which come from such shared names)."""
    own = collections.defaultdict(set); T = collections.defaultdict(set)
    for k, fs in groups.items():
        for f in fs: own[f.upper()].add(k)
        for s in short(fs, L): T[s].add(k)
    several = {f: x for f, x in own.items() if len(x) > 1}; shared = short(several, L)
    want = {s: next(iter(x)) for s, x in T.items() if len(x) == 1 and s not in own and s not in shared}
    want.update({f: next(iter(x)) for f, x in own.items() if len(x) == 1})
    return want, T, several, shared, own

def run(ctx):
    G = boot.boot(); G.commandLineArguments = Namespace(export=False)
    from BibleOrgSys.Reference.BibleBooksNames import BibleBooksNamesSystems, BibleBooksNamesSystem
    from BibleOrgSys.Reference.BibleOrganisationalSystems import BibleOrganisationalSystem
    ctx.rule = 'every name, abbreviation and short form of every book (and division) of every names system, for the whole list of books and random lists, in random letter case, against the XML sources as read by the check; all systems kept and asked in turn; distinct = distinct (system, list of books, text)'
    for k, n in (('name', 1500), ('short', 20000), ('ambiguous', 2000), ('foreign', 2000), ('division', 1500), ('any-system', 2000), ('no-name', 50), ('organisational', 800)): ctx.need(k, n)
    S = source(G.BOS_DATAFILES_FOLDERPATH / 'BookNames'); bbc = G.loadedBibleBooksCodes
    bs = call(lambda: BibleBooksNamesSystems().loadData())
    if not ctx.check(not isinstance(bs, str), 'load', lambda: f'{bs}', None): return
    ctx.check(sorted(call(bs.getAvailableBooksNamesSystemNames)) == sorted(S) and len(bs) == len(S) and all(n in bs for n in S) and 'xyz' not in bs, 'names', lambda: f'{call(bs.getAvailableBooksNamesSystemNames)}', None)
    ctx.check(sorted(call(bs.getAvailableLanguageCodes)) == sorted({n[:3] for n in S}), 'languages', lambda: f'{call(bs.getAvailableLanguageCodes)}', None)
    for l in {n[:3] for n in S}:
        g = call(bs.getAvailableBooksNamesSystemNames, l); ctx.check(sorted(g) == sorted(n[4:] for n in S if n[:3] == l), 'language', lambda: f'{l}: {g}', l)
    allShort = set().union(*[short(fs, L) for D, L, N in S.values() for fs in N.values()]); allShortList = sorted(allShort)
    made = []
    for n, (D, L, N) in S.items():
        g = call(bs.getBooksNamesSystem, n)
        ctx.check({k: (v['defaultName'], v['defaultAbbreviation'], v['inputFields'], v['includedBooks']) for k, v in g[0].items()} == {k: (f[0], a, uniq(f), b) for k, (f, b, a) in D.items()}, 'divisions', lambda: f'{n}', n)
        ctx.check({k: v for k, v in g[1].items()} == {k + ' ': [x + ' ' for x in uniq(v)] for k, v in L.items()}, 'leaders', lambda: f'{n}: {g[1]}', n)
        ctx.check({k: (v['defaultName'], v['defaultAbbreviation'], v['inputFields']) for k, v in g[2].items()} == {k: (f[0], f[1], uniq(f)) for k, f in N.items()}, 'books', lambda: f'{n}', n)
        d = collections.Counter(N[B][0] for B in N); two = [x for x in d if d[x] > 1]
        ctx.check(not two, 'names-differ', lambda: f'{n}: two books are named {two}', n)
        for i in range(5 if ctx.tier == 'quick' else 40):
            r = ctx.rng(n, i); BL = list(N); extra = []
            if i == 1: BL = [B for B in BL if B in N and (bbc.isOldTestament_NR(B) or bbc.isNewTestament_NR(B))]
            elif i: r.shuffle(BL); BL = BL[:r.choice([3, 20, 40, 80])]
            if i > 1 and r.random() < .7: extra = r.sample([B for B in bbc.getAllReferenceAbbreviations() if B not in N], 3); BL += extra; r.shuffle(BL)
            o = call(BibleBooksNamesSystem, n, list(BL))
            if not ctx.check(not isinstance(o, str) and o.getBooksNamesSystemName() == n, 'create', lambda: f'{n}: {o}', (n, BL)): continue
            made.append((n, i, BL, extra, o))
    for n, i, BL, extra, o in made + made[:3]:         # asked only when all have been made
        D, L, N = S[n]; r = ctx.rng('ask', n, i); have = [B for B in BL if B in N]
        want, T, several, shared, own = wanted({B: N[B] for B in have}, L)
        used = {k: f for k, (f, b, _) in D.items() if set(b) & set(BL)}; dwant, dT, dseveral, dshared, _ = wanted(used, L)
        for B in have:
            g = call(o.getBookName, B), call(o.getBookAbbreviation, B); ctx.check(g == (N[B][0], N[B][1]), 'book-name', lambda: f'{n} {B}: {g}', (n, B))
        for B in extra:
            g = call(o.getBookName, B), call(o.getBookAbbreviation, B); ctx.seen('no-name', (n, i, B)); ctx.check(g == (B, B), 'no-name', lambda: f'{n} {B} (which has no name there): {g}', (n, BL, B))
        for s, B in want.items():
            full = s in own
            if not full and s in dT: continue           # also a division: may be refused
            t = case(r, s); g = call(o.getBBBFromText, t); ctx.seen('name' if full else 'short', (n, i, s)); ctx.check(g == B, 'name-found' if full else 'short-found', lambda: f'{n} {t!r}: {g}, not {B} (books {BL})', (n, BL, t))
        for s, x in several.items():
            g = call(o.getBBBFromText, s); ctx.check(g in x, 'shared-name', lambda: f'{n} {s!r}: {g} not one of {x}', (n, BL, s))
        # texts which stand for several books, or for none, are not looked up here (but by the codes)
        amb = [s for s in T if len(T[s]) > 1 and s not in own and s not in shared]; foreign = r.sample(allShortList, 200)
        for k, l in (('ambiguous', r.sample(amb, min(len(amb), 200))), ('foreign', [s for s in foreign if s not in T])):
            for s in l:
                if s in want: continue
                g, c = call(o.getBBBFromText, s), call(bbc.getBBBFromText, s); ctx.seen(k, (n, i, s)); ctx.check(g == c, k, lambda: f'{n} {s!r}: {g}, the codes give {c} (books {BL})', (n, BL, s))
        for s, k in dwant.items():
            if s not in [f.upper() for f in used[k]] and (s in T or dseveral): continue
            t = case(r, s); g = call(o.getDivisionAbbreviation, t); ctx.seen('division', (n, i, s)); ctx.check(g == k and call(o.getDivisionBooklist, t if r.random() < .5 else k) == D[k][1], 'division', lambda: f'{n} {t!r}: {g}, not {k}', (n, BL, t))
        for s in [s for s in dT if len(dT[s]) > 1 and s not in dshared and s not in dwant][:20] + ['XYZZY', 'GENESISS']:
            g = call(o.getDivisionAbbreviation, s), call(o.getDivisionBooklist, s); ctx.seen('ambiguous', (n, i, 'd', s)); ctx.check(s in D or g == (None, None), 'division-ambiguous', lambda: f'{n} {s!r}: {g}', (n, BL, s))
    # any system: a whole name gives a book with that name, a beginning of names a book with such a name
    owners = collections.defaultdict(set); starts = collections.defaultdict(set)
    for D, L, N in S.values():
        for B, fs in N.items():
            for f in fs:
                owners[f.upper()].add(B)
                for x in range(1, len(f) + 1): starts[f.upper()[:x]].add(B)
    r = ctx.rng('any')
    for f in r.sample(sorted(owners), min(len(owners), 1500 if ctx.tier == 'quick' else 99999)):
        t = case(r, f); g = call(bs.getBBBFromText, t); ctx.seen('any-system', t); ctx.check(g in owners[f], 'any-name', lambda: f'{t!r}: {g}, not one of {owners[f]}', t)
    for f in r.sample(sorted(starts), 1500):
        if f in owners: continue
        t = case(r, f); g = call(bs.getBBBFromText, t); ctx.seen('any-system', t); ctx.check(g in starts[f], 'any-start', lambda: f'{t!r}: {g}, not one of {starts[f]}', t)
    for t in ['Xyzzy', 'Genesisx', '99 Kings', 'Ω']:
        g = call(bs.getBBBFromText, t); ctx.check(g is None, 'any-none', lambda: f'{t!r}: {g}', t)
    # organisational systems use their names system
    L0 = ['KJV-1611', 'GNT92', 'RSB', 'MBTV', 'WEB', 'VUL', 'GENERIC-KJV-66-ENG', 'GENERIC-KJV-80-ENG', 'GENERIC-KJV-81-ENG']
    bos = [(x, o) for x in L0 for o in [call(BibleOrganisationalSystem, x)] if not isinstance(o, str)]
    for rnd in range(2):
        for x, o in bos:
            n = call(o.getBooksNamesSystemName) if hasattr(o, 'getBooksNamesSystemName') else None
            if n not in S: continue
            N = S[n][2]; BL = call(o.getBookList); want, T, several, shared, own = wanted({B: N[B] for B in BL if B in N}, S[n][1])
            for B in BL:
                if B in N:
                    g = call(o.getBookName, B), call(o.getBookAbbreviation, B); ctx.seen('organisational', (x, B)); ctx.check(g == (N[B][0], N[B][1]), 'organisational-name', lambda: f'{x} {B}: {g}', (x, B))
                    for f in N[B]:
                        if f.upper() in want: g2 = call(o.getBBBFromText, case(r, f)); ctx.seen('organisational', (x, f)); ctx.check(g2 == B, 'organisational-found', lambda: f'{x} {f!r}: {g2}, not {B}', (x, f))
