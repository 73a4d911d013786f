"""C44 -- book orders: positions, neighbours, order tests and matching, against the XML sources."""
import os, glob, xml.etree.ElementTree as ET
from argparse import Namespace
from bosv import boot
from checks.C42 import call

def run(ctx):
    G = boot.boot(); G.commandLineArguments = Namespace(export=False)
    from BibleOrgSys.Reference.BibleBookOrders import BibleBookOrderSystems, BibleBookOrderSystem
    ctx.rule = 'every book, position and neighbour and every pair of books of every order against the XML sources as read by the check; random lists of books matched against all orders; distinct = distinct (order, function, argument)'
    for k, n in (('book', 800), ('pair', 30000), ('absent', 800), ('match', 200)): ctx.need(k, n)
    src = {os.path.basename(f)[15:-4]: [e.text for e in sorted(ET.parse(f).getroot().findall('book'), key=lambda e: int(e.get('id')))] for f in glob.glob(str(G.BOS_DATAFILES_FOLDERPATH / 'BookOrders' / 'BibleBookOrder_*.xml'))}
    allBooks = list(G.loadedBibleBooksCodes.getAllReferenceAbbreviations())
    bs = call(lambda: BibleBookOrderSystems().loadData())
    if not ctx.check(not isinstance(bs, str), 'load', lambda: f'{bs}', None): return
    ctx.check(sorted(call(bs.getAvailableBookOrderSystemNames)) == sorted(src) and len(bs) == len(src), 'names', lambda: f'{call(bs.getAvailableBookOrderSystemNames)}', None)
    ctx.check(call(bs.getBookOrderSystem, 'Nothing') is None and all((n in bs) is True for n in src) and 'Nothing' not in bs, 'unknown', lambda: 'unknown order', None)
    for n, L in src.items():
        o = call(BibleBookOrderSystem, n)
        if not ctx.check(not isinstance(o, str), 'create', lambda: f'{n}: {o}', n): continue
        ctx.check(o.getBookOrderSystemName() == n and o.getBookOrderList() == L == bs.getBookOrderList(n) and len(o) == o.numBooks() == bs.numBooks(n) == len(L), 'list', lambda: f'{n}: {o.getBookOrderList()[:5]}', n)
        # walks from the first book to the last and back
        w = [call(o.getBookAtOrderPosition, 1)]
        while w[-1] and len(w) < 300: w.append(call(o.getNextBookCode, w[-1]))
        ctx.check(w == L + [None], 'forward', lambda: f'{n}: {w}', n)
        w = [call(o.getBookAtOrderPosition, len(L))]
        while w[-1] and len(w) < 300: w.append(call(o.getPreviousBookCode, w[-1]))
        ctx.check(w == L[::-1] + [None], 'backward', lambda: f'{n}: {w}', n)
        for i, B in enumerate(L):
            got = call(o.getBookOrderPosition, B), call(o.getBookAtOrderPosition, i + 1), call(o.getNextBookCode, B), call(o.getPreviousBookCode, B); ctx.seen('book', (n, B))
            ctx.check(got == (i + 1, B, L[i + 1] if i + 1 < len(L) else None, L[i - 1] if i else None), 'position', lambda: f'{n} {B}: {got}', (n, B))
            for j, X in enumerate(L):
                g = call(o.correctlyOrdered, B, X); ctx.seen('pair', (n, B, X)); ctx.check(g is (i < j), 'ordered', lambda: f'{n} {B} {X}: {g}', (n, B, X))
        for B in allBooks:
            g = call(o.containsBook, B), call(lambda: B in o), call(bs.containsBook, n, B); ctx.check(g == (B in L,) * 3, 'contains', lambda: f'{n} {B}: {g}', (n, B))
            if B not in L: ctx.seen('absent', (n, B))
    def sub(a, b):
        it = iter(b); return all(x in it for x in a)
    for i in ctx.cases(400, 4000):
        r = ctx.rng(i); n = r.choice(list(src)); L = src[n]; k = r.choice([1, 2, 5, len(L) - 1, len(L), r.randint(1, len(L))]); x = sorted(r.sample(range(len(L)), k)); S = [L[y] for y in x]; how = r.choice(['subset', 'subset', 'swap', 'foreign'])
        if how == 'swap' and k > 1: a = r.randrange(k - 1); b = r.choice([a + 1, r.randrange(a + 1, k)]); S[a], S[b] = S[b], S[a]
        elif how == 'foreign': S.insert(r.randrange(k + 1), r.choice([b for b in allBooks if b not in S]))
        w = sum(sub(S, l) for l in src.values()); got = call(bs.checkBookOrderSystem, 'Test', list(S)); ctx.seen('match', (how, tuple(S)))
        ctx.check(got == w, 'match', lambda: f'{how} {S[:60]}: {got}, expected {w}', (how, S))
