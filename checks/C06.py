"""Versification discovered from the text: chapter sizes, omitted, combined and reordered verses; added units."""
import os, re
from bosv import boot, gen, obs

def irregular(r, nV):
    """A random sequence of verse designators (strings) for one chapter."""
    seq = []; k = 1
    while k <= nV:
        x = r.random()
        if x < .12 and k > 1 and k < nV: k += r.choice([1, 1, 2]); continue        # omitted verse(s), never the last
        if x < .25 and k < nV: e = min(nV, k + r.choice([1, 2])); seq.append(f'{k}-{e}'); k = e + 1; continue
        if x < .29 and k < nV: seq.append(f'{k},{k + 1}'); k += 2; continue
        if x < .36: seq += [f'{k}{l}' for l in 'abc'[:r.choice([2, 2, 3])]]; k += 1; continue     # a split verse
        seq.append(str(k)); k += 1
    if not seq: seq = ['1']
    if len(seq) > 3 and r.random() < .3:
        i = r.randrange(1, len(seq) - 1); j = r.randrange(1, len(seq) - 1); seq[i], seq[j] = seq[j], seq[i]
    return seq

def expected(seq):
    om, co, ro = [], [], []
    last = 0; lastS = '0'; before = '0'
    for raw in seq:
        v = re.sub('[a-z]', '', raw)
        a, sep, b = re.match(r'(\d+)([-,]?)(\d*)', v).groups(); b = b or a
        if sep: co.append(v)
        n = int(a)
        if n == last and before[-1].isalpha() and raw > before: pass       # the next part
        elif n <= last: ro.append((lastS, v))
        else: om += [str(x) for x in range(last + 1, n)]
        last = int(b); lastS = b; before = raw
    return lastS, om, co, ro

def spoken(r, w):
    """a text with words of Jesus: USFM text, number of them, whether it starts and ends with them"""
    n = r.choice([1, 1, 2, 3]); parts = []; k = 0
    first = r.random() < .4
    if not first: parts.append(w.words(1))
    for x in range(n):
        inner = w.words(r.randint(1, 3))
        if r.random() < .2: inner += ' \\+nd ' + w.words(1) + '\\+nd*'
        parts.append('\\wj ' + inner + '\\wj*'); 
        last = x == n - 1 and r.random() < .5
        if not last: parts.append(w.words(1) if r.random() < .8 else 'Kiwjo hawj')
    return ' '.join(parts), n, first, last

def run(ctx):
    ctx.rule = 'books with random verse numbering (bridges, gaps, reordering) against the numbering that was written; distinct = distinct chapter numberings'
    ctx.need('chapter', 500); ctx.need('combined', 50); ctx.need('omitted', 50); ctx.need('reordered', 20); ctx.need('added-units', 100); ctx.need('words-of-Jesus', 200)
    for i in ctx.cases(250):
        r = ctx.rng('b', i); w = gen.W(r)
        d = ctx.tmpdir('u'); books = {}
        src = {}
        for bbb, code, num in sorted(r.sample(gen.BOOKS, r.choice([1, 2])), key=lambda t: t[2]):
            L = [f'\\id {code} x', f'\\h {gen.NAMES[bbb]}', f'\\mt1 {gen.NAMES[bbb]}']
            if r.random() < .4: L += ['\\is1 ' + w.words(2), '\\ip ' + w.words(3)]
            chs = []; paras = []; qs = []; heads = []; wj = []; nverses = 0; nsh = 0; nTitle = 0
            for c in range(1, (1 if bbb in gen.SINGLE else r.randint(1, 5)) + 1):
                if c > 1 and r.random() < .07: continue                                    # a missing chapter
                C = str(c); L.append(f'\\c {c}' + (' \\f + \\ft ' + w.words(2) + '\\f*' if r.random() < .05 else ''))
                seq = irregular(r, r.randint(1, 14)); chs.append((C, seq)); V = '0'
                if r.random() < .15: t = w.words(2); L.append('\\d ' + t); heads.append(((C, V), 'd', t))
                def heading():
                    nonlocal nsh
                    mk = r.choice(['s1', 's1', 's1', 's', 's2', 's3', 's4']); t = w.words(2)
                    if r.random() < .15: a, b = w.words(1), w.words(1); L.append(f'\\{mk} {a} \\nd {b}\\nd*'); t = f'{a} {b}'
                    elif r.random() < .1: a, b, d_ = w.words(1), w.words(1), w.words(1); L.append(f'\\{mk} \\nd {a}\\nd* {b} \\nd {d_}\\nd*'); t = f'{a} {b} {d_}'
                    else: L.append(f'\\{mk} {t}')
                    heads.append(((C, V), 's1' if mk == 's' else mk, t)); nsh += 1
                    if r.random() < .2: t = '(' + w.words(2) + ')'; L.append('\\r ' + t); heads.append(((C, V), 'r', t))
                def para(place):
                    x = r.random()
                    if x < .4: L.append('\\p'); paras.append(place)
                    elif x < .8: n = r.choice(['', 1, 1, 2, 3, 4]); L.append(f'\\q{n}'); qs.append((place, n or 1))
                    else: L.append(r.choice(['\\m', '\\pi1', '\\mi', '\\qc', '\\qr', '\\pc'][:4] + ['\\qr', '\\pc']))
                if r.random() < .2: heading()
                para((C, '0'))
                for v in seq:
                    if V != '0':
                        x = r.random()
                        if x < .2: heading(); para((C, V))
                        elif x < .24: t = w.words(1); L.append('\\qa ' + t); heads.append(((C, V), 'qa', t)); nsh += 1; para((C, V))
                        elif x < .5: para((C, V))
                    V = v; nverses += 1
                    jesus = r.random() < .15
                    if jesus: t, n, f, l = spoken(r, w); wj.append(((C, V), ('v', n, f, l)))
                    else: t = w.words(r.randint(1, 4))
                    L.append(f'\\v {v} {t}')
                    while r.random() < .12:                                                 # the verse goes on in another paragraph
                        k = len(L); para((C, V)); mk = L[k][1:]
                        if mk == 'qc': L[k] = '\\m'; mk = 'm'
                        if r.random() < .3: t, n, f, l = spoken(r, w); wj.append(((C, V), (mk, n, f, l)))
                        else: t = w.words(2)
                        L[k] += ' ' + t
            books[bbb] = (chs, paras, qs, heads, wj, nsh, nverses); src[bbb] = '\n'.join(L) + '\n'
            with open(os.path.join(d, f'{num}{code}XYZ.usfm'), 'w', encoding='utf8') as f: f.write(src[bbb])
        try:
            with boot.quiet():
                B = gen.loadUSFM(d); ver, om, co, ro = B.getVersification()
        finally: ctx.rmtree(d)
        units = {}
        for bbb, (chs, paras, qs, heads, wj, nsh, nverses) in books.items():
            rep = {'usfm': src[bbb]}; bk = B.books[bbb]
            intro = next(j for j, e in enumerate(bk) if e.getMarker() == 'c')
            eV = [('-1', str(intro - 1))]; eO = []; eC = []; eR = []
            for c, seq in chs:
                last, o, cc, rr = expected(seq)
                ctx.seen('chapter', ' '.join(seq))
                ctx.count('omitted', len(o)); ctx.count('combined', len(cc)); ctx.count('reordered', len(rr))
                eV.append((c, last)); eO += [(c, x) for x in o]; eC += [(c, x) for x in cc]; eR += [(c, a, b) for a, b in rr]
            ctx.check(ver[bbb] == eV, 'chapter-verse-counts', lambda: f'{bbb}: got {ver[bbb]} expected {eV}', rep)
            ctx.check(om.get(bbb, []) == eO, 'omitted-verses', lambda: f'{bbb}: got {om.get(bbb)} expected {eO}', rep)
            ctx.check(co.get(bbb, []) == eC, 'combined-verses', lambda: f'{bbb}: got {co.get(bbb)} expected {eC}', rep)
            ctx.check(ro.get(bbb, []) == eR, 'reordered-verses', lambda: f'{bbb}: got {ro.get(bbb)} expected {eR}', rep)
            with boot.quiet():
                ctx.check(B.getNumChapters(bbb) == int(chs[-1][0]) and all(B.getNumVerses(bbb, c) == int(n) for c, n in eV) and all(B.getNumVerses(bbb, int(c)) == int(n) for c, n in eV) and B.getNumVerses(bbb, '6') is None, 'counts-by-query', lambda: f'{bbb}', rep)
                p, q, h, sr, wjs = bk.getAddedUnits()
            def uniq(l):
                seen = []
                for x in l:
                    y = x; k = 'a'
                    while y in seen: y = x + (k,); k = chr(ord(k) + 1)
                    seen.append(y)
                return seen
            ctx.seen('added-units', repr((paras, qs, heads)), bool(paras))
            ctx.check(p == uniq(paras), 'paragraph-references', lambda: f'{bbb}: got {p} expected {uniq(paras)}', rep)
            ctx.check([(x[0][:2], x[1]) for x in q] == qs, 'poetry-references', lambda: f'{bbb}: got {q} expected {qs}', rep)
            ctx.check(h == heads, 'section-heading-references', lambda: f'{bbb}: got {h} expected {heads}', rep)
            ctx.count('words-of-Jesus', len(wj))
            ctx.check(wjs == wj, 'words-of-Jesus', lambda: f'{bbb}: got {wjs} expected {wj}', rep)
            ctx.check(sr == [], 'units-invented', lambda: f'{sr}', rep)
            units[bbb] = (p, q, h, sr, wjs)
        with boot.quiet():
            total = B.getAddedUnits()
            B.discover()
        for k, got in enumerate(total):
            want = {bbb: u[k] for bbb, u in units.items()}
            ctx.check(got == (want if any(want.values()) else None), 'added-units-of-the-bible', lambda: f'{k}: {got}', {'usfm': src})
        for bbb, (chs, paras, qs, heads, wj, nsh, nverses) in books.items():
            D = B.discoveryResults[bbb]
            ctx.check((D['chapterCount'], D['verseCount'], D['sectionHeadingsCount']) == (len(chs), nverses, nsh), 'discovered-counts', lambda: f"{bbb}: {D['chapterCount']}, {D['verseCount']}, {D['sectionHeadingsCount']} instead of {len(chs)}, {nverses}, {nsh}", {'usfm': src[bbb]})
            ctx.check(D['seemsFinished'] is True and D['percentageProgress'] == 100, 'discovered-progress', lambda: f"{bbb} {D['seemsFinished']} {D['percentageProgress']}", {'usfm': src[bbb]})
        if i < 2: ctx.sample({b: [(c, ' '.join(s)) for c, s in v[0]] for b, v in books.items()})
