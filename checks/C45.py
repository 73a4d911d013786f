"""C45 -- organisational systems: lookup, inherited values, books and their neighbours, alternatives, punctuation, against the XML sources."""
import os, glob, xml.etree.ElementTree as ET
from argparse import Namespace
from bosv import boot
from checks.C42 import call

TYPES = ('edition', 'revision', 'translation', 'original'); MULTI = ('name', 'derivedFrom', 'usesText')
FIELDS = ('name', 'publicationDate', 'versificationSystem', 'punctuationSystem', 'bookOrderSystem', 'booksNamesSystem', 'derivedFrom', 'usesText', 'includesBooks')

def source(f):
    D, I = {}, {}
    for e in ET.parse(f).getroot().findall('BibleOrganisationalSystem'):
        d = {'type': e.get('type'), 'referenceAbbreviation': e.find('referenceAbbreviation').text, 'languageCode': e.find('languageCode').text}
        for k in FIELDS:
            x = [y.text for y in e.findall(k)]
            if x: d[k] = x if k in MULTI else x[0].split() if k == 'includesBooks' else x[0]
        a = d['referenceAbbreviation']; n = a if a.endswith('_' + d['type']) else a + '_' + d['type']
        D[n] = d; I.setdefault(a, []).append(n)
    return D, I

def run(ctx):
    G = boot.boot(); G.commandLineArguments = Namespace(export=False)
    from BibleOrgSys.Reference.BibleOrganisationalSystems import BibleOrganisationalSystems, BibleOrganisationalSystem
    from BibleOrgSys.Reference.BibleVersificationSystems import BibleVersificationSystem
    from BibleOrgSys.Reference.BibleBookOrders import BibleBookOrderSystem
    from BibleOrgSys.Reference.BiblePunctuationSystems import BiblePunctuationSystems, BiblePunctuationSystem
    from checks.C42 import source as vsource
    ctx.rule = 'every name and value of every organisational system against BibleOrganisationalSystems.xml as read by the check; every system created, its books, neighbours, validity of random references and alternatives for all books compared with the sources; distinct = distinct (system, function, argument)'
    for k, n in (('value', 3000), ('inherited', 200), ('system', 250), ('neighbour', 8000), ('reference', 10000), ('alternative', 20000), ('punctuation', 40)): ctx.need(k, n)
    D, I = source(G.BOS_DATAFILES_FOLDERPATH / 'BibleOrganisationalSystems.xml')
    boss = call(lambda: BibleOrganisationalSystems().loadData())
    if not ctx.check(not isinstance(boss, str), 'load', lambda: f'{boss}', None): return
    vs = vsource(G.BOS_DATAFILES_FOLDERPATH / 'VersificationSystems')
    bo = {os.path.basename(f)[15:-4]: [e.text for e in ET.parse(f).getroot().findall('book')] for f in glob.glob(str(G.BOS_DATAFILES_FOLDERPATH / 'BookOrders' / 'BibleBookOrder_*.xml'))}
    ctx.check(len(boss) == len(D) and sorted(call(boss.getAvailableOrganisationalSystemNames)) == sorted(I), 'names', lambda: f'{len(boss)}', None)
    def lookup(n):
        if n in D: return D[n]
        if n in I: return D[I[n][0]] if len(I[n]) == 1 else next((D[n + '_' + t] for t in TYPES if n + '_' + t in D), None)
    def value(n, k):                    # of the collection: own value, else that of a text which is used
        d = lookup(n)
        if d is None: return None
        if k in d: return d[k]
        for t in reversed(TYPES):
            for x in d.get('usesText', []):
                if x == n: x += '_' + t
                if lookup(x) is d: continue
                v = value(x, k)
                if v is not None: return v
    def bvalue(n, k):                   # of one system: own value, else of texts which are used, else of the first it is derived from
        d = lookup(n)
        if k in d: return d[k]
        if d['type'] == 'original': return None
        for x in d.get('usesText', []):
            v = value(x, k)
            if v is not None: return v
        return value(d['derivedFrom'][0], k) if 'derivedFrom' in d else None
    names = list(D) + list(I) + ['Nothing', 'KJV_nothing']
    keys = ('type', 'referenceAbbreviation', 'languageCode') + FIELDS + ('nothing',)
    for n in names:
        got = call(boss.getOrganisationalSystem, n); w = lookup(n)
        ctx.check(got == w if w else got is None, 'lookup', lambda: f'{n}: {str(got)[:200]}, expected {str(w)[:200]}', n)
        for k in keys:
            got = call(boss.getOrganisationalSystemValue, n, k); w = value(n, k); ctx.seen('value', (n, k))
            if w is not None and k not in lookup(n): ctx.seen('inherited', (n, k))
            ctx.check(got == w, 'value', lambda: f'{n} {k}: {got}, expected {w}', (n, k))
    order = ctx.rng('o'); todo = list(D) + list(I); order.shuffle(todo)       # one after the other, in any order: they must not influence each other
    tested = []
    for n in todo:
        b = call(BibleOrganisationalSystem, n)
        if not ctx.check(not isinstance(b, str), 'create', lambda: f'{n}: {b}', n): continue
        ctx.seen('system', n)
        ctx.check(b.getOrganisationalSystemName() == n and b.getOrganisationalSystemType() == lookup(n)['type'], 'identity', lambda: n, n)
        for k in keys:
            got = call(b.getOrganisationalSystemValue, k); w = bvalue(n, k); ctx.seen('value', ('b', n, k)); ctx.check(got == w, 'system-value', lambda: f'{n} {k}: {got}, expected {w}', (n, k))
        L = bvalue(n, 'includesBooks') or []; ctx.check(call(b.getBookList) == L, 'book-list', lambda: f'{n}: {call(b.getBookList)}', n)
        o = bo.get(bvalue(n, 'bookOrderSystem')); v = vs.get(bvalue(n, 'versificationSystem'))
        if o:
            ctx.check(b.getBookOrderSystemName() == bvalue(n, 'bookOrderSystem') and call(b.getFirstBookCode) == o[0], 'order', lambda: f'{n}', n)
            mine = [x for x in o if x in L]
            for x in o:
                i = o.index(x); wn = next((y for y in o[i + 1:] if y in L), None); wp = next((y for y in reversed(o[:i]) if y in L), None)
                got = call(b.getNextBookCode, x), call(b.getPreviousBookCode, x); ctx.seen('neighbour', (n, x)); ctx.check(got == (wn, wp), 'neighbours', lambda: f'{n} {x}: {got}, expected {(wn, wp)}', (n, x))
        if v: ctx.check(b.getVersificationSystemName() == bvalue(n, 'versificationSystem'), 'versification', lambda: n, n)
        if o and v: tested.append((n, b, L, o, v))
        p = bvalue(n, 'punctuationSystem')
        if p and p not in ('None', 'Unknown') and p in PUNCT(G): ctx.check(b.getPunctuationSystemName() == p and b.getPunctuationDict() == PUNCT(G)[p], 'punctuation-of', lambda: n, n)
        al = G.loadedBibleBooksCodes
        for x in al.getAllReferenceAbbreviations():
            got = call(b.getAlternativeBBBIfNecessary, x); ctx.seen('alternative', (n, x)); ctx.check(call(b.containsBook, x) is (x in L), 'contains', lambda: f'{n} {x}', (n, x))
            alts = [y for y in (al.getPossibleAlternativeBooksCodes(x) or []) if y in L]
            ctx.check(got == x if x in L else got in alts if alts else got is None, 'alternative', lambda: f'{n} {x}: {got} {alts}', (n, x))
    for i in ctx.cases(20000, 200000):
        r = ctx.rng(i); n, b, L, o, (books, om) = r.choice(tested); x = r.choice(L + o); d = books.get(x, {}); C = str(r.choice([1, d.get('n', 3), d.get('n', 3) + 1, 0, r.randint(1, d.get('n', 3))])); V = str(r.choice([0, 1, d.get(C, 9), d.get(C, 9) + 1, r.randint(1, max(d.get(C, 9), 1))]))
        w = x in o and C in d and 1 <= int(V) <= d[C] and (C, V) not in om.get(x, []); got = call(b.isValidBCVRef, (x, C, V, ''), 'x'); ctx.seen('reference', (n, x, C, V)); ctx.check(got is w, 'valid', lambda: f'{n} {x} {C}:{V}: {got}', (n, x, C, V))
        if i % 50 == 0:
            y = r.choice(o)
            wl = lambda z: [k for c, k in books[z].items() if c != 'n']
            got = call(b.getNumVersesList, y, allowAlternatives=True); alts = [z for z in (G.loadedBibleBooksCodes.getPossibleAlternativeBooksCodes(y) or []) if z in books]
            if y in books or alts: ctx.check(got == wl(y if y in books else alts[0]), 'verses-list', lambda: f'{n} {y}: {got}', (n, y))
    # punctuation systems
    P = PUNCT(G); ps = call(lambda: BiblePunctuationSystems().loadData())
    ctx.check(not isinstance(ps, str) and sorted(ps.getAvailablePunctuationSystemNames()) == sorted(P) and len(ps) == len(P) and all(n in ps and ps.isValidPunctuationSystemName(n) and ps.getPunctuationSystem(n) == P[n] for n in P), 'punctuation-names', lambda: f'{ps}', None)
    for n, d in P.items():
        b = call(BiblePunctuationSystem, n)
        ctx.check(b.getPunctuationSystemName() == n and b.getPunctuationDict() == d and sorted(b.getAvailablePunctuationValueNames()) == sorted(d) and len(b) == len(d), 'punctuation', lambda: f'{n}', n)
        for k in d: ctx.seen('punctuation', (n, k)); ctx.check(call(b.getPunctuationValue, k) == d[k] and k in b, 'punctuation-value', lambda: f'{n} {k}: {call(b.getPunctuationValue, k)!r}', (n, k))

_P = {}
def PUNCT(G):
    if not _P:
        for f in glob.glob(str(G.BOS_DATAFILES_FOLDERPATH / 'PunctuationSystems' / 'BiblePunctuationSystem_*.xml')): _P[os.path.basename(f)[23:-4]] = {e.tag: e.text or '' for e in ET.parse(f).getroot() if e.tag != 'header'}
    return _P
