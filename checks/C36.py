"""Zefania, Haggai, OpenSong and VerseView XML: every verse of the file is in the loaded Bible with its text."""
import os
from bosv import boot, exread, plain as P, plainrun

T = [('zefania', 'ZefaniaXMLBible', P.zefania, '.xml', ('it', 'em', 'nd', 'note', 'xref', 'line')), ('haggai', 'HaggaiXMLBible', P.haggai, '.xml', ('em', 'bdit', 'note', 'xref', 'line', 'para')),
     ('opensong', 'OpenSongXMLBible', P.opensong, '', ('it', 'line')), ('verseview', 'VerseViewXMLBible', P.verseview, '.xml', ())]

def run(ctx):
    ctx.rule = 'random Bibles of verses with styles, notes, line breaks and paragraphs written as Zefania, Haggai, OpenSong and VerseView XML, with and without indentation and information; distinct = distinct book contents'
    K = exread.kjv()
    for t in T: ctx.need(t[0], 60)
    ctx.need('asked', 800)
    for i in ctx.cases(300, 10000):
        r = ctx.rng(i); name, cls, w, ext, kinds = T[i % len(T)]
        if name == 'verseview': bs = P.bible(r, kinds, counts=K, pool=P.ORDER[:r.choice([1, 2, 3, 5, 40, 66])], nBooks=99, maxVerses=3, allChapters=.05)
        else: bs = P.bible(r, kinds, counts=K, nBooks=66 if i // len(T) % 12 == 7 else None, maxVerses=r.choice([3, 6, 20]))
        indent = r.random() < .6; d = ctx.tmpdir('t'); w(bs, os.path.join(d, 'snv' + ext), indent=indent, info=r.random() < .7 or name == 'zefania' and not indent, newline=r.choice(['\n', '\n', '\r\n'])); how = r.choice(['check', 'check', 'later', 'unknown'])
        try: B = plainrun.load(cls, d, how)
        except (Exception, SystemExit) as e: B = repr(e)
        plainrun.compare(ctx, name, B, bs, (name, how, i, [b.bbb for b in bs]))
        ctx.rmtree(d)
