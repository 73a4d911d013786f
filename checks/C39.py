"""Conversion: a Bible that was loaded from any format is exported to every other one with all its verses."""
import os, re, traceback
from bosv import boot, gen, obs, exports, exread, readers, plain as P, plainrun
from checks import C34, C35, C36, C37

K = None
STYLES = ('it', 'bd', 'em', 'add', 'nd', 'wj', 'pn', 'bdit')
def sources():
    """[(name, loader class, kinds, writer(books, folder, rng))]"""
    S = []
    S.append(('theword', 'theWordBible', C34.T[0][2], lambda bs, d, r: P.theword(bs, d, 'snv', K)))
    S.append(('mysword', 'MySwordBible', C34.T[1][2], lambda bs, d, r: P.mysword(bs, d + '/snv.bbl.mybible')))
    S.append(('esword', 'ESwordBible', C34.T[2][2], lambda bs, d, r: P.esword(bs, d + '/snv.bblx')))
    S.append(('mybible', 'MyBibleBible', C34.T[3][2], lambda bs, d, r: P.mybible(bs, d + '/snv.SQLite3', 'books', False)))
    for name, cls, kinds, style in C35.T:
        if style: S.append((name, cls, kinds, lambda bs, d, r, style=style: P.osis(bs, d + '/snv.xml', r, style)))
        else: S.append((name, cls, kinds, lambda bs, d, r: P.usfx(bs, d + '/snv.usfx', r)))
    for name, cls, w, ext, kinds in C36.T: S.append((name, cls, kinds, lambda bs, d, r, w=w, ext=ext: w(bs, d + '/snv' + ext)))
    for name, cls, w, ext, kinds in C37.T: S.append((name, cls, kinds, lambda bs, d, r, w=w, ext=ext: w(bs, d + '/snv' + ext)))
    return S

def sq0(s): return re.sub(r'\s|</?i>', '', s)   # (some exporters break a word where a note changes its style)

class M:   # what exread.read needs
    def __init__(self, bs):
        self.books = []
        for b in bs: x = type('b', (), {})(); x.bbb = b.bbb; x.titles = {'h': b.bbb}; self.books.append(x)

def one(ctx, i):
    r = ctx.rng(i); name, cls, kinds, w = S[i % len(S)]
    kinds = tuple(k for k in kinds if k != 'xref')
    if r.random() < .5: kinds = tuple(r.sample(kinds, min(len(kinds), r.randint(0, 3))))
    bs = P.bible(r, kinds, counts=K, nBooks=r.choice([1, 2, 3]), maxVerses=r.choice([4, 6, 12]), allChapters=.1)
    while sum(len(vs) for b in bs for c, vs in b.chapters) < 4: bs = P.bible(r, kinds, counts=K)
    if name == 'verseview': bs = P.bible(r, kinds, counts=K, pool=P.ORDER[:3], nBooks=99, maxVerses=6, allChapters=.05)
    d = ctx.tmpdir('t'); w(bs, d, r)
    B = plainrun.load(cls, d, 'check'); rp = {'case': i, 'source': name, 'books': [(b.bbb, b.chapters) for b in bs]}
    if not ctx.check(hasattr(B, 'books') and list(B.books) == [b.bbb for b in bs], 'not-loaded', f'{name} case {i}', rp): return
    want = {(b.bbb, str(c), str(v)): obs.norm(P.plain(t)) for b in bs for c, v, t in b.verses()}
    for ex in exports.NAMES:
        if ex == 'toSwordModule': continue
        o = ctx.tmpdir(); tag = f'{name} → {ex} case {i}'
        try: exports.run(B, ex, o)
        except Exception as e:
            tb = e.__traceback__
            while tb.tb_next: tb = tb.tb_next
            ctx.violation('export-fails', f'{tag}: {type(e).__name__} {e} in {tb.tb_frame.f_code.co_name}:{tb.tb_lineno}', rp); ctx.rmtree(o); continue
        ctx.seen('export', (name, ex, i))
        fmt = {v: k for k, v in exread.EXP.items()}.get(ex)
        if fmt:
            try:
                R = exread.read(fmt, o, M(bs))
                if fmt in ('opensong', 'drupal') and len(set(k[0] for k in R.text)) == len(bs): # (book names: any)
                    nm = dict(zip(dict.fromkeys(k[0] for k in R.text), [b.bbb for b in bs])); R.text = {(nm[k[0]], k[1], k[2]): v for k, v in R.text.items()}
            except Exception as e: ctx.violation('unreadable', f'{tag}: {type(e).__name__} {e}', rp)
            else:
                for p in R.problems[:3]: ctx.violation('problem', f'{tag}: {p}', rp)
                got = {k: v for k, v in R.text.items() if v.strip() or k in want}
                ctx.check([k for k in got if k[2] != '0' and got[k].strip()] == [k for k in want if want[k]], 'verses', lambda: f'{tag}: missing {[k for k in want if k not in got][:4]}, extra {[k for k in got if k not in want][:4]}', rp)
                sq = lambda s: re.sub(r'\s', '', s) if fmt in ('esword', 'haggai') else obs.norm(s.replace('\u00a0', ' '))
                for k, t in want.items():
                    if k not in got: continue
                    g = got[k]
                    if fmt == 'haggai': g = exread.SYM.sub('', g)
                    if fmt == 'markdown': t = re.sub('[_*]', '', t)
                    if fmt == 'drupal': t = t.replace('<', '').replace('>', '')
                    ctx.check(sq(g) == sq(t), 'text', lambda: f'{tag} {k}: {t!r} became {g!r}', rp)
                ctx.count('verses', len(want))
                if fmt in exread.NOTES and name not in ('zefania', 'haggai'): # (these loaders do not keep notes)
                    for b in bs:
                        for c, v, t in b.verses():
                            k = (b.bbb, str(c), str(v)); en = [x for n in P.notes(t) for x in gen.tokens(sq0(n))]; gn = [x for n in R.notes.get(k, ()) for x in gen.tokens(sq0(n))]
                            if en: ctx.seen('note', (name, ex, k, tuple(en)))
                            ctx.check(gn == en, 'notes', lambda: f'{tag} {k}: notes {en} became {gn}', rp)
        elif ex in ('toUSFM3', 'toUSFM2', 'toUSXXML', 'toUSX2XML'):
            try:
                if ex == 'toESFM':
                    from BibleOrgSys.Formats.ESFMBible import ESFMBible
                    with boot.quiet(): B2 = ESFMBible(o, 'XYZ', 'XYZ'); B2.loadBooks()
                elif ex in ('toUSFM3', 'toUSFM2'): B2 = gen.loadUSFMq(o)
                else:
                    B2 = plainrun.load('USXXMLBible', os.path.join(o, [x for x in os.listdir(o) if x.endswith('Files')][0]), 'check')
                got = {(b, *k): obs.norm(' '.join(v)) for b in B2.books for k, v in obs.verseTexts(B2.books[b]).items() if k[1] != '0'}
            except Exception as e: ctx.violation('reload', f'{tag}: {type(e).__name__} {e}', rp)
            else:
                got = {k: v for k, v in got.items() if v}
                ctx.check(list(got) == [k for k in want if want[k]], 'verses', lambda: f'{tag}: missing {[k for k in want if k not in got][:4]}, extra {[k for k in got if k not in want][:4]}', rp)
                for k, t in want.items():
                    if k in got: ctx.check(got[k] == t, 'text', lambda: f'{tag} {k}: {t!r} became {got[k]!r}', rp)
        ctx.rmtree(o)
    ctx.rmtree(d)

def run(ctx):
    global K, S
    K = exread.kjv(); S = sources()
    ctx.rule = 'random Bibles written in each of the loadable formats (four module formats, OSIS in four styles, USFX, Zefania, Haggai, OpenSong, VerseView, and verse-per-line texts), loaded and exported to every format; distinct = distinct (Bible, exporter)'
    ctx.need('export', 500); ctx.need('note', 60); ctx.need('verses', 4000)
    for i in ctx.cases(2 * len(S), len(S) * 30): one(ctx, i)
