"""Verse-per-line text formats: every verse of the file is in the loaded Bible with its text and notes."""
import os
from bosv import boot, exread, plain as P, plainrun

T = [('csv-quoted', 'CSVBible', lambda b, f, **k: P.csv(b, f, 'quoted', **k), '.csv', ()), ('csv-bare', 'CSVBible', lambda b, f, **k: P.csv(b, f, 'bare', **k), '.csv', ()), ('csv-bar', 'CSVBible', lambda b, f, **k: P.csv(b, f, 'bar', **k), '.csv', ()),
     ('vpl-names', 'VPLBible', lambda b, f, **k: P.vpl(b, f, 1, **k), '.txt', ('para', 'add', 'wj')), ('vpl-numbers', 'VPLBible', lambda b, f, **k: P.vpl(b, f, 2, **k), '.txt', ('para',)), ('vpl-header', 'VPLBible', lambda b, f, **k: P.vpl(b, f, 3, **k), '.txt', ('para',)),
     ('forge', 'ForgeForSwordSearcherBible', P.forge, '.txt', ('para', 'add', 'wj', 'note', 'xref')),
     ('unbound-6', 'UnboundBible', lambda b, f, **k: P.unbound(b, f, 6, **k), '_utf8.txt', ()), ('unbound-4', 'UnboundBible', lambda b, f, **k: P.unbound(b, f, 4, **k), '_utf8.txt', ()), ('unbound-9', 'UnboundBible', lambda b, f, **k: P.unbound(b, f, 9, **k), '_utf8.txt', ()),
     ('drupal', 'DrupalBible', P.drupal, '.bc', ()), ('yet', 'YETBible', P.yet, '.yet', ('add', 'wj', 'note'))]

def run(ctx):
    ctx.rule = 'random Bibles of verses (1–5 of 66 books, KJV chapters) with added words, words of Jesus, notes and paragraph signs, written in twelve styles of seven text formats; distinct = distinct book contents'
    K = exread.kjv()
    for t in T: ctx.need(t[0], 25)
    ctx.need('asked', 1000); ctx.need('note', 100)
    for i in ctx.cases(360, 12000):
        r = ctx.rng(i); name, cls, w, ext, kinds = T[i % len(T)]
        bs = P.bible(r, kinds, counts=K, nBooks=66 if i // len(T) % 12 == 7 else None, maxVerses=r.choice([3, 6, 20]))
        while name.startswith('vpl') and sum(len(vs) for b in bs for c, vs in b.chapters) < 4: bs = P.bible(r, kinds, counts=K)   # shorter files aren't detected
        d = ctx.tmpdir('t'); w(bs, os.path.join(d, 'snv' + ext), newline=r.choice(['\n', '\n', '\r\n'])); how = r.choice(['check', 'check', 'later', 'unknown'])
        try: B = plainrun.load(cls, d, how)
        except (Exception, SystemExit) as e: B = repr(e)
        plainrun.compare(ctx, name, B, bs, (name, how, i, [b.bbb for b in bs]), notes=('note', 'xref') if name == 'forge' else ('note',) if name == 'yet' else ())
        ctx.rmtree(d)
