"""OSIS and USFX XML: every verse of the file is in the loaded Bible, with its text and its notes."""
import os
from bosv import boot, exread, plain as P, plainrun

ALL = ('add', 'nd', 'wj', 'it', 'bd', 'note', 'xref', 'para', 'line')
T = [('usfx', 'USFXXMLBible', ALL, None), ('osis-milestones', 'OSISXMLBible', ALL + ('pn',), 'milestone'), ('osis-containers', 'OSISXMLBible', ALL + ('pn',), 'container'), ('osis-chapters', 'OSISXMLBible', ALL + ('pn',), 'both')]

def run(ctx):
    ctx.rule = 'random Bibles of verses with styles, notes, cross references, words, line breaks, paragraphs, poetry and headings written as USFX and as the three ways of OSIS (milestones, verse containers, milestones in chapter containers); distinct = distinct book contents'
    K = exread.kjv()
    for t in T: ctx.need(t[0], 60)
    ctx.need('asked', 500); ctx.need('note', 400); ctx.need('osis-folder', 30)
    for i in ctx.cases(800, 15000):
        r = ctx.rng(i); name, cls, kinds, style = T[i % len(T)]
        if r.random() < .5: kinds = tuple(r.sample(kinds, r.randint(1, 4)))
        bs = P.bible(r, kinds, counts=K, nBooks=r.choice([1, 1, 2, 3, 12]), maxVerses=r.choice([3, 6, 20]), allChapters=.1)
        d = ctx.tmpdir('t'); nl = r.choice(['\n', '\n', '\n', '\r\n']); how = r.choice(['check', 'check', 'later', 'unknown'])
        folder = style and len(bs) > 1 and r.random() < .3   # one file per book
        if folder:
            for b in bs: P.osis([b], os.path.join(d, P.OSIS[b.bbb] + '.xml'), r, style, newline=nl)
            how = 'folder'; ctx.seen('osis-folder', (name, i))
        elif style: P.osis(bs, os.path.join(d, 'snv.xml'), r, style, newline=nl)
        else: P.usfx(bs, os.path.join(d, r.choice(['snv.xml', 'snv.usfx'])), r, newline=nl)
        try:
            if folder:
                from BibleOrgSys.Formats.OSISXMLBible import OSISXMLBible
                with boot.quiet(): B = OSISXMLBible(d, 'SNV'); B.loadBooks()
            else: B = plainrun.load(cls, d, how)
        except (Exception, SystemExit) as e: B = repr(e)
        plainrun.compare(ctx, name, B, bs, (name, how, i, [b.bbb for b in bs]), notes=('note', 'xref'), loose=True)
        ctx.rmtree(d)
