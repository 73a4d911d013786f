"""theWord, MySword, e-Sword and MyBible modules: every verse of the module is in the loaded Bible with its text."""
import os
from bosv import boot, exread, plain as P, plainrun

T = [('theword', 'theWordBible', ('add', 'wj', 'it', 'note', 'xref', 'para')), ('mysword', 'MySwordBible', ('add', 'wj', 'it', 'note', 'para')), ('esword', 'ESwordBible', ('it', 'bd', 'add', 'para')), ('mybible', 'MyBibleBible', ('add', 'wj', 'em', 'note', 'para'))]

def gen_word(c, v): return ''.join(chr(97 + x) for x in (c // 16, c % 16, v // 16, v % 16))

def latin(bs):
    for b in bs:
        for c, vs in b.chapters:
            for v, runs in vs: runs[:] = [(k, t.encode('latin-1', 'replace').decode('latin-1')) for k, t in runs]

def run(ctx):
    ctx.rule = 'random Bibles of verses with added words, words of Jesus, italics, notes and paragraphs written as theWord (UTF-8, UTF-8 with BOM, Latin-1), MySword, e-Sword and MyBible modules; distinct = distinct book contents'
    K = exread.kjv()
    for t in T: ctx.need(t[0], 50)
    ctx.need('asked', 800); ctx.need('information', 10); ctx.need("one-book", 60)
    for i in ctx.cases(128, 8000):
        r = ctx.rng(i); name, cls, kinds = T[i % len(T)]
        bs = P.bible(r, kinds, counts=K, nBooks=66 if i // len(T) % 12 == 7 else None, maxVerses=r.choice([3, 6, 20])); d = ctx.tmpdir('t'); info = {}
        if name == 'theword':
            enc = r.choice(['utf-8', 'utf-8', 'utf-8-sig', 'latin-1'])
            if enc == 'latin-1': latin(bs)
            if r.random() < .6: info = {k: v for k, v in (('short.title', 'SNV'), ('description', 'Some New Version'), ('version.major', '2'), ('creator', 'Someone')) if r.random() < .7}
            P.theword(bs, d, 'snv', K, enc=enc, newline=r.choice(['\n', '\r\n']), info=[''] + [f'{k}={v}' for k, v in info.items()] if info else ())
        elif name == 'mysword': P.mysword(bs, d + '/snv.bbl.mybible')
        elif name == 'esword': P.esword(bs, d + '/snv.bblx')
        else: P.mybible(bs, d + '/snv.SQLite3', r.choice(['books', 'books_all']), r.random() < .5)
        how = r.choice(['check', 'check', 'later', 'unknown']); replay = (name, how, i, [b.bbb for b in bs])
        try: B = plainrun.load(cls, d, how)
        except (Exception, SystemExit) as e: B = repr(e)
        plainrun.compare(ctx, name, B, bs, replay, blanks=True)
        for k, v in info.items():
            got = getattr(B, 'suppliedMetadata', None) or {}; got = (got.get('theWord') or {}).get(k)
            ctx.seen('information', (i, k)); ctx.check(got == v, 'information', lambda: f'{k}: {got!r} not {v!r}', replay)
        if name != 'theword':   # some books only
            some = [b for b in bs if r.random() < .6] or bs[:1]; r.shuffle(some)
            try:
                B = plainrun.load(cls, d, 'not')
                with boot.quiet():
                    if not B.preloadDone: B.preload()
                    for b in some: B.loadBook(b.bbb)
                    B.cursor.close(); B.doPostLoadProcessing()
            except (Exception, SystemExit) as e: B = repr(e)
            ctx.seen('one-book', (i, [b.bbb for b in some])); plainrun.compare(ctx, name, B, some, replay + ([b.bbb for b in some],), blanks=True)
        ctx.rmtree(d)
    ctx.need('gaps', 12)
    for i in ctx.cases(32, 1500, 'gaps'):   # long chapters, and modules which lack verses, also the first ones of books and chapters
        r = ctx.rng('gaps', i); name, cls, kinds = T[i % len(T)]; d = ctx.tmpdir('t'); long = i // 4 % 4 == 1
        bs = P.bible(r, (), counts=K, nBooks=1 if long else None, maxVerses=r.choice([6, 20]), **({'pool': ('PSA',)} if long else {}))
        if long: bs[0].chapters[:] = [(c, [(v, [('text', f'zq{gen_word(c, v)}z')]) for v in range(1, n + 1)]) for c, n in enumerate(K['PSA'], 1)]
        for b in bs:
            first = b.chapters[0][1]
            if len(first) > 1 and r.random() < .6: del first[:r.randint(1, len(first) - 1)]
            for c, vs in b.chapters[1:]:
                if r.random() < .3: del vs[r.randrange(len(vs))]
            if len(b.chapters) > 2 and r.random() < .4: b.chapters[1][1][:] = []
            b.chapters[:] = [(c, vs) for c, vs in b.chapters if vs]
        if name == 'theword': P.theword(bs, d, 'snv', K)
        elif name == 'mysword': P.mysword(bs, d + '/snv.bbl.mybible')
        elif name == 'esword': P.esword(bs, d + '/snv.bblx')
        else: P.mybible(bs, d + '/snv.SQLite3', 'books', False)
        replay = (name, 'gaps', i, [(b.bbb, [(c, [v for v, _ in vs][:3]) for c, vs in b.chapters][:4]) for b in bs])
        try: B = plainrun.load(cls, d, 'check')
        except (Exception, SystemExit) as e: B = repr(e)
        ctx.seen('gaps', (name, i)); plainrun.compare(ctx, name, B, bs, replay, blanks=True); ctx.rmtree(d)
