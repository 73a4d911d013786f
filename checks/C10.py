"""A damaged book file does no harm beyond the damaged lines."""
import os, re
from bosv import boot, gen, obs

KINDS = ['delline', 'swap', 'dup', 'unclosed', 'unopened', 'unk', 'trunc', 'blank', 'nonum', 'joined', 'stray', 'space', 'body', 'nofinalnewline', 'before', 'split', 'split']

def damage(r, text):
    """(damaged text, kinds, tokens that stand in a line we damaged inside a note or markup)."""
    L = text.rstrip('\n').split('\n'); kinds = []; hurt = set(); end = '\n'
    body = next(i for i, x in enumerate(L) if x.startswith('\\c '))
    for _ in range(r.choice([1, 1, 2, 3, 5])):
        k = r.choice(KINDS); kinds.append(k)
        n = len(L); i = r.randrange(body + 1, n + 1); j = r.randrange(body + 1, n) if n > body + 1 else body
        if k == 'delline':
            if n > body + 2: L.pop(j)
        elif k == 'swap': j2 = r.randrange(body + 1, n) if n > body + 1 else j; L[j2], L[j] = L[j], L[j2]
        elif k == 'dup': L.insert(j, L[j])
        elif k in ('unclosed', 'unopened'):
            c = [x for x in range(n) if '*' in L[x]]
            if c:
                x = r.choice(c); ps = [m.span() for m in re.finditer(r'\\\+?(?!fig)\w+\*' if k == 'unclosed' else r'\\\+?(?:f|x|add|nd|bk|it|w) ', L[x])]
                if ps: a, b = r.choice(ps); hurt |= set(gen.tokens(L[x])); L[x] = L[x][:a] + L[x][b:]
        elif k == 'unk': L.insert(i, r.choice(['\\zzz foo', '\\xyz', '\\s9 abc', '\\zq1']))
        elif k == 'trunc':
            L = L[:max(body + 1, i)]; x = len(L) - 1
            if not L[x].startswith('\\c'): hurt |= set(gen.tokens(L[x])); L[x] = L[x][:max(len(L[x]) // 2, r.randrange(len(L[x]) + 1))]
            if '\\fig' in L[x] and '\\fig*' not in L[x]: L[x] = L[x][:L[x].rindex('\\fig ')] 
        elif k == 'blank': L.insert(i, '')
        elif k == 'nonum': L.insert(i, r.choice(['\\v', '\\v ']))
        elif k == 'joined' and i + 1 < n:
            nx = L.pop(i + 1)
            if any(t in hurt for t in gen.tokens(nx)): hurt |= set(gen.tokens(L[i]))
            if any(t in hurt for t in gen.tokens(L[i])): hurt |= set(gen.tokens(nx))
            L[i] += ' ' + nx
        elif k == 'stray': L.insert(i, r.choice(['stray text', '*', '|', '\\ ', '\\', 'x = y', '\\*']))
        elif k == 'space': L[j] = '  ' + L[j] + '   '
        elif k == 'body': L.insert(i, r.choice(['\\p', '\\q1', '\\s1', '\\li1', '\\b', '\\m', '\\mt1', '\\ip', '\\io1', '\\h']))
        elif k == 'nofinalnewline': end = ''
        elif k == 'split':
            ps = [x for x, ch in enumerate(L[j]) if ch == ' ']
            if ps: x = r.choice(ps); a, b = L[j][:x], L[j][x + 1:]; L[j:j + 1] = [a, b]
        elif k == 'before': body += 1; L.insert(0, r.choice(['stray text', 'Genesis, a first draft', '1. x']))
    # a line that does not begin with a backslash continues the line before: damage reaches the whole logical line;
    # a line with an unknown marker (or none) is itself the damage
    cur = []; 
    def close():
        if not cur: return
        tk = {x for l in cur for x in gen.tokens(l)}
        if tk & hurt or re.match(r'\\(zzz|xyz|s9|zq1|\s|\*|$)', cur[0]): hurt.update(tk)
    for x in L:
        if x[:1] == '\\': close(); cur = []
        cur.append(x)
    close()
    return '\n'.join(L) + end, kinds, hurt

def run(ctx):
    ctx.rule = 'generated Bibles in which one book file is damaged (1-5 damages of 16 kinds in the body or before it), loaded and analysed beside intact books; distinct = distinct damaged sources'
    ctx.need('damaged-bible', 100); ctx.need('intact-neighbour', 100); ctx.need('undamaged-words', 90)
    nk = {}
    for i in ctx.cases(260, 2500):
        r = ctx.rng('d', i); m = gen.bible(r, nBooks=r.choice([2, 2, 3]), maxVerses=5)
        d = ctx.tmpdir(); k = r.randrange(len(m.books)); b = m.books[k]
        if i % 4 == 0:
            gen.writeUSFM(m, d)
            with boot.quiet(): B0 = gen.loadUSFM(d)
            s0 = {x: obs.bookSig(B0.books[x]) for x in B0.books}; v0 = {x: B0.books[x].getVersification() for x in B0.books}
        else:
            d2 = ctx.tmpdir(); m2 = gen.BibleModel(); m2.books = [x for x in m.books if x is not b]; m2.pool = m.pool; gen.writeUSFM(m2, d2)
            with boot.quiet(): B0 = gen.loadUSFM(d2)
            s0 = {x: obs.bookSig(B0.books[x]) for x in B0.books}; v0 = {x: B0.books[x].getVersification() for x in B0.books}; ctx.rmtree(d2)
        bad, kinds, hurt = damage(r, b.usfm)
        for q in kinds: nk[q] = nk.get(q, 0) + 1
        gen.writeUSFM(m, d)
        bbb, code, num = m.pool[b.bbb]
        with open(os.path.join(d, f'{num}{code}XYZ.usfm'), 'wt', encoding='utf8') as f: f.write(bad)
        ctx.seen('damaged-bible', bad)
        rep = {'kinds': kinds, 'damaged book': b.bbb, 'source': bad}
        try:
            with boot.quiet(): B = gen.loadUSFM(d)
            for x in m.books: ctx.check(x.bbb in B.books, 'book-not-loaded', f'{x.bbb} is missing, damaged {b.bbb} {kinds}', rep)
            for x in m.books:
                if x is b or x.bbb not in B.books: continue
                ctx.seen('intact-neighbour', (x.bbb, bad))
                ctx.check(obs.bookSig(B.books[x.bbb]) == s0[x.bbb], 'neighbour-changed', f'{x.bbb} differs because {b.bbb} was damaged {kinds}', rep)
                ctx.check(B.books[x.bbb].getVersification() == v0[x.bbb], 'neighbour-versification-changed', f'{x.bbb} {kinds}', rep)
            if b.bbb in B.books:
                want = [t for t in gen.tokens(bad) if t not in hurt]; got = []
                for e in B.books[b.bbb]:
                    mk = e.getMarker()
                    if mk[0] != '¬' and mk not in ('headers', 'intro', 'chapters', 'c', 'c#'): got += gen.tokens(e.getFullText() or '')
                got = [t for t in got if t not in hurt]
                ctx.seen('undamaged-words', tuple(want))
                ctx.check(got == want, 'undamaged-text-lost', lambda: f'{b.bbb} {kinds}: lost {[t for t in want if t not in got][:4]} extra {[t for t in got if t not in want or got.count(t) > want.count(t)][:4]}', rep)
            with boot.quiet(): B.discover(); B.check(); B.getCheckResults()
            for x in m.books:
                if x is not b and x.bbb in B.books: ctx.check(obs.bookSig(B.books[x.bbb]) == s0[x.bbb], 'neighbour-changed-by-analysis', f'{x.bbb}', rep)
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            if not any('/BibleOrgSys/' in f.filename for f in tb): raise
            ctx.violation('damaged-book-raises', f'{type(e).__name__} {e} in {tb[-1].name} after {kinds}', rep)
        ctx.rmtree(d)
    for q, c in nk.items(): ctx.count('damage:' + q, c)
