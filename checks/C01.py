"""USFM loading conserves the text: every word, in its verse, in order; every note at its place; clean text is markup free."""
import os, re
from bosv import boot, gen, obs, rich

FIELDS = {'fe': 'en', 'f': 'fn', 'x': 'xr', 'fig': 'fig'}

def expectedExtras(piece):
    """[(type, index into the adjusted text, field content)] and the adjusted text, from the model."""
    adj = ''; ex = []
    for s in piece.segs:
        if s.kind in ('text',): adj += s.text
        elif s.kind == 'char': adj += s.usfm.replace('~', '\u00a0')
        elif s.kind == 'w':
            adj += s.text; ex.append(('ww', len(adj), s.usfm[3:-3]))
        else:
            m = s.marker; body = s.usfm[len(m) + 2:-(len(m) + 2)]
            if m in ('f', 'x', 'fe') and body.startswith('- '): body = '+ ' + body[2:]   # 'no caller' is documented to become 'automatic caller'
            ex.append((FIELDS[m], len(adj), body))
    return adj, ex

def disturb(r, usfm):
    """Ways of laying out the same USFM that do not change what it says."""
    how = []
    lines = usfm.split('\n')[:-1]
    if r.random() < .3:
        how.append('wrapped'); out = []
        for ln in lines:
            if ln.startswith(('\\v ', '\\q1 ', '\\p ', '\\m ')) and r.random() < .4:
                # break at a space which is in plain text (nothing open), and is not the one that ends the marker or number
                spots = [m.start() for m in re.finditer(r'(?<=[^\s]) (?=[^\s\\|])', ln) if '\\' not in ln[4:] and m.start() > 6]
                if spots:
                    k = r.choice(spots); out += [ln[:k], ln[k + 1:]]; continue
            out.append(ln)
        lines = out
    if r.random() < .2:
        how.append('blank-lines'); out = []
        for ln in lines:
            out.append(ln)
            if r.random() < .1: out.append('')
        lines = out
    nl = '\n'
    if r.random() < .2: nl = '\r\n'; how.append('crlf')
    s = nl.join(lines) + (nl if r.random() < .9 else '')
    data = s.encode('utf8')
    if r.random() < .15: data = b'\xef\xbb\xbf' + data; how.append('bom')
    return data, how

def oneBible(ctx, i):
    r = ctx.rng('bible', i)
    feats = set(gen.ALLFEATS) | {'bare'}
    if r.random() < .3: feats |= {'extrachar'}
    for f in list(sorted(feats)):
        if r.random() < .08: feats.discard(f)
    m = gen.bible(r, feats, maxVerses=r.choice([3, 6, 12]), chapters=r.choice([None, None, 1, 5]))
    d = ctx.tmpdir('u')
    hows = {}
    for b in m.books:
        bbb, code, num = m.pool[b.bbb]
        data, how = disturb(r, b.usfm); hows[b.bbb] = how
        ext = r.choice(['usfm', 'usfm', 'sfm', 'SFM', 'USFM'])
        with open(os.path.join(d, f'{num}{code}XYZ.usfm'), 'wb') as f: f.write(data)
        for h in how: ctx.count('layout-' + h)
    def rep(b): return {'case': i, 'usfm': b.usfm, 'layout': hows[b.bbb]}
    try:
        with boot.quiet(): B = gen.loadUSFM(d)
    except Exception as e:
        ctx.violation('load-raises', f'{type(e).__name__}: {e}', [rep(b) for b in m.books]); return
    finally: pass
    if not ctx.check(list(B.books) == [b.bbb for b in m.books], 'books-lost', lambda: f'{list(B.books)} instead of {[b.bbb for b in m.books]}', lambda: [rep(b) for b in m.books]): return
    for b in m.books:
        bk = B.books[b.bbb]
        got = obs.verseTexts(bk); full = obs.verseFullTexts(bk)
        exp = {(v.c, v.v): [p.plain for p in v.pieces] for v in b.verses}
        expFull = {(v.c, v.v): [p.usfm.replace('~', '\u00a0') for p in v.pieces] for v in b.verses}
        ctx.check(list(got) == list(exp), 'verses-lost-or-reordered', lambda: f'{b.bbb}: got {list(got)} expected {list(exp)}', lambda: rep(b))
        for k in exp:
            ctx.seen('verse', repr(exp[k]))
            ctx.check(got.get(k) == exp[k], 'verse-text', lambda: f'{b.bbb} {k}: got {got.get(k)!r} expected {exp[k]!r}', lambda: rep(b))
            ctx.check(full.get(k) == expFull[k], 'full-text', lambda: f'{b.bbb} {k}: got {full.get(k)!r} expected {expFull[k]!r}', lambda: rep(b))
        # notes, figures and word attributes
        ents = [(C, V, e) for C, V, mk, e in obs.textEntries(bk) if mk in ('v~', 'p~')]
        pcs = [(v, p) for v in b.verses for p in v.pieces]
        if len(ents) == len(pcs):
            for (C, V, e), (v, p) in zip(ents, pcs):
                adj, ex = expectedExtras(p)
                x = e.getExtras() or []
                gotx = [(z.getType(), z.getIndex(), z.getText()) for z in x]
                if ex: ctx.seen('extras', repr(ex)); ctx.count('extras-observed', len(ex))
                ctx.check(e.getAdjustedText() == adj, 'adjusted-text', lambda: f'{b.bbb} {C}:{V} got {e.getAdjustedText()!r} expected {adj!r}', lambda: rep(b))
                ctx.check(gotx == ex, 'extras', lambda: f'{b.bbb} {C}:{V} got {gotx} expected {ex}', lambda: rep(b))
                for z in x:
                    ctx.check('\\' not in z.getCleanText() and gen.tokens(z.getCleanText()) == gen.tokens(z.getText().split('|')[0]), 'extra-clean-text', lambda: f'{z.getText()!r} -> {z.getCleanText()!r}', lambda: rep(b))
        # headings and introduction
        hs = [(C, e.getCleanText()) for C, V, mk, e in obs.textEntries(bk) if mk in ('s1', 's2', 's3', 'ms1', 'd')]
        eh = [(c, p.plain) for c, v, mk, p in b.headings]
        if eh: ctx.seen('headings', repr(eh))
        ctx.check(hs == eh, 'headings', lambda: f'{b.bbb}: got {hs} expected {eh}', lambda: rep(b))
        its = [e.getCleanText() for C, V, mk, e in obs.textEntries(bk) if C == '-1' and mk not in ('id','usfm','ide','h','toc1','toc2','toc3','mt1') and e.getMarker()[0] != '¬' and e.getCleanText()]
        ei = [p.plain for mk, p in b.intro]
        ctx.check(its == ei, 'introduction', lambda: f'{b.bbb}: got {its} expected {ei}', lambda: rep(b))
        # logical heading verse numbers
        # global: no word is ever duplicated or lost, nothing clean has markup in it
        allTokens = gen.tokens(b.usfm)
        seen = []
        for e in bk:
            ct = e.getCleanText() or ''
            ctx.check('\\' not in ct, 'markup-in-clean-text', lambda: f'{b.bbb} {e.getMarker()} {ct!r}', lambda: rep(b))
            if e.getMarker() in ('c#', 'v=') : continue
            seen += gen.tokens(ct)
            for z in (e.getExtras() or []):
                if z.getType() != 'ww': seen += gen.tokens(z.getText())
        ctx.seen('conservation', b.bbb + str(len(allTokens)) + allTokens[0] if allTokens else b.bbb)
        ctx.count('tokens', len(allTokens))
        ctx.check(sorted(seen) == sorted(allTokens), 'token-conservation', lambda: f'{b.bbb}: lost {sorted(set(allTokens)-set(seen))[:5]} extra {sorted(set(seen)-set(allTokens))[:5]} dup {[t for t in set(seen) if seen.count(t)>1][:5]}', lambda: rep(b))
    if i < 2: ctx.sample({'usfm': m.books[0].usfm[:1500]})
    ctx.rmtree(d)

HELD = ('v~', 'p~', 'c~', 'qc', 's1', 's2', 'ms1', 'd', 'sp', 'qa', 'ip', 'im', 'is1', 'ipi', 'iq1', 'ili1')
ADDED = {'headers', 'intro', 'chapters', 'list', 'ilist', 'iot', 'c#', 'v=', 'v~', 'p~', 'vp#', 'c~'}
def denseBook(ctx, i):
    """Every inline construct beside every other one, in any physical layout."""
    r = ctx.rng('dense', i)
    b = rich.RBook(r, *r.choice(gen.BOOKS)); data, how = b.layout(r)
    for h in how: ctx.count('layout-' + h)
    d = ctx.tmpdir('d')
    with open(os.path.join(d, f'{b.num}{b.code}XYZ.' + r.choice(['usfm', 'usfm', 'sfm', 'SFM'])), 'wb') as f: f.write(data)
    rep = lambda: {'dense': i, 'usfm': data.decode('utf8')}
    try:
        with boot.quiet(): B = gen.loadUSFM(d)
    except Exception as e:
        ctx.violation('load-raises', f'{type(e).__name__}: {e}', rep()); return
    ctx.rmtree(d)
    if not ctx.check(list(B.books) == [b.bbb], 'books-lost', lambda: f'{list(B.books)} instead of {b.bbb}', rep): return
    got = []; marks = []; vps = []
    for C, V, mk, e in obs.textEntries(B.books[b.bbb]):
        ctx.check('\\' not in (e.getCleanText() or ''), 'markup-in-clean-text', lambda: f'{b.bbb} {mk} {e.getCleanText()!r}', rep)
        if mk[0] != '¬' and mk not in ADDED: marks.append((mk, e.getCleanText()) if mk in ('c', 'v', 'cp') else (mk, ''))
        if mk == 'vp#': vps.append(e.getCleanText())
        x = [(z.getType(), z.getIndex(), z.getText()) for z in e.getExtras() or []]
        for z in e.getExtras() or []:
            ctx.check('\\' not in z.getCleanText() and gen.tokens(z.getCleanText()) == gen.tokens(z.getText()), 'extra-clean-text', lambda: f'{z.getText()!r} -> {z.getCleanText()!r}', rep)
        if mk not in HELD:
            ctx.check(not x, 'extras', lambda: f'{b.bbb} {C}:{V} {mk} line holds {x}', rep); continue
        if mk == 'qc' and not e.getCleanText(): continue
        full = e.getFullText().rstrip()
        got.append((mk, C, V if C != '-1' else '', e.getAdjustedText(), e.getCleanText(), full, x))
    exp = b.expected(); names = 'marker', 'chapter', 'verse', 'adjusted-text', 'clean-text', 'full-text', 'extras'
    ctx.check(len(got) == len(exp), 'texts-lost-or-added', lambda: f'{b.bbb}: {len(got)} texts instead of {len(exp)}: got {[g for g in got if g not in exp][:2]} expected {[x for x in exp if x not in got][:2]}', rep)
    for g, x in zip(got, exp):
        ctx.seen('dense', x[5]); ctx.count('dense-extras', len(x[6]))
        bad = [n for n, a, c in zip(names, g, x) if a != c]
        if not ctx.check(not bad, 'dense-' + (bad[0] if bad else ''), lambda: f'{b.bbb} {x[1]}:{x[2]} {bad}: got {g} expected {x}', rep): break
    em = []
    for it in b.items:
        k, m, c, v = it[:4]
        if k in ('c', 'cnote'): em.append(('c', c))
        elif k == 'cp': em.append(('cp', it[4]))
        elif k in ('v', 'vnote', 'vp'): em.append(('v', v))
        else: em.append((m, ''))
    marks = [x for x in marks if x[0] not in ('id', 'h', 'mt1')]
    ctx.check(marks == em, 'lines-lost-or-moved', lambda: f'{b.bbb}: got {[x for x, y in zip(marks, em) if x != y][:3]} expected {[y for x, y in zip(marks, em) if x != y][:3]} ({len(marks)}/{len(em)} lines)', rep)
    ctx.check(vps == [it[5] for it in b.items if it[0] == 'vp'], 'published-verse-numbers', lambda: f'{b.bbb}: {vps}', rep)

def run(ctx):
    ctx.rule = 'random USFM books (unique word tokens; paragraphs, poetry, lists, headings, intro, bridges, character styles, notes, xrefs, figures, \\w) in random physical layouts, and dense books with every inline construct beside every other; non-trivial = distinct verse/extras content'
    for p in ('verse', 'extras', 'headings', 'conservation', 'dense'): ctx.need(p, 50)
    for i in ctx.cases(250, 4000): oneBible(ctx, i)
    for i in ctx.cases(350, 6000): denseBook(ctx, i)
