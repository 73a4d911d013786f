"""C48 -- ISO 639-3 languages: codes, fields and searches for names, against the XML source."""
import collections, xml.etree.ElementTree as ET
from bosv import boot
from checks.C42 import call

def run(ctx):
    G = boot.boot()
    from BibleOrgSys.Reference.ISO_639_3_Languages import ISO_639_3_Languages
    ctx.rule = 'every code with all its fields, every name in random letter case, random parts of names, and codes and names which do not exist; distinct = distinct (function, argument)'
    for k, n in (('code', 7000), ('name', 7000), ('part', 300), ('missing', 3000)): ctx.need(k, n)
    E = list(ET.parse(G.BOS_DATAFILES_FOLDERPATH / 'iso_639_3.xml').getroot()); o = call(lambda: ISO_639_3_Languages().loadData())
    if not ctx.check(not isinstance(o, str), 'load', lambda: f'{o}', None): return
    T = {e.get('id'): e for e in E}; names = collections.defaultdict(set); r = ctx.rng('x')
    for e in E: names[e.get('name').upper()].add(e.get('id'))
    ctx.check(len(o) == len(T), 'count', lambda: f'{len(o)}', None)
    L = list(T); r.shuffle(L)
    for c in L:
        e = T[c]; g = [call(f, c) for f in (o.isValidLanguageCode, o.getLanguageName, o.getScope, o.getType, o.getPart1Code, o.getPart2Code)]; w = [True] + [e.get(k) for k in ('name', 'scope', 'type', 'part1_code', 'part2_code')]
        ctx.seen('code', c); ctx.check(g == w, 'fields', lambda: f'{c}: {g} not {w}', c)
        n = e.get('name'); t = r.choice([n, n.lower(), n.upper(), n.title()])
        if t.upper() != n.upper(): t = n
        g = call(o.getLanguageCode, t); ctx.seen('name', t); ctx.check(g in names[n.upper()], 'name', lambda: f'{t!r}: {g} not {names[n.upper()]}', t)
    import string
    for _ in range(2000):
        c = ''.join(r.choice(string.ascii_lowercase) for _ in range(3))
        if c not in T: ctx.seen('missing', c); g = call(o.isValidLanguageCode, c); ctx.check(g is False, 'missing-code', lambda: f'{c}: {g}', c)
        n = r.choice(E).get('name'); n = r.choice([n + 'x', n[:-1], n[1:], 'Old ' + n])
        if n and n.upper() not in names: ctx.seen('missing', n); g = call(o.getLanguageCode, n); ctx.check(g is None, 'missing-name', lambda: f'{n!r}: {g}', n)
    for _ in range(400 if ctx.tier == 'quick' else 5000):
        n = r.choice(E).get('name'); a = r.randrange(len(n)); p = n[a:a + r.randint(1, 6)]; t = r.choice([p, p.lower(), p.upper()])
        if t.upper() != p.upper(): t = p
        if r.random() < .1: t += 'qq'
        w = sorted(T[next(iter(i))].get('name') for N, i in names.items() if t.upper() in N and len(i) == 1); g = call(o.getNameMatches, t)
        ctx.seen('part', t); ctx.check(isinstance(g, list) and sorted(x for x in g if len(names[x.upper()]) == 1) == w, 'part', lambda: f'{t!r}: {len(g)} names, not {len(w)}: {sorted(set(g) ^ set(w))[:5]}', t)
