"""Runs of loaders on verse-level models: the file is written, found, loaded, and every verse compared."""
import os, re
from importlib import import_module
from bosv import boot, obs, plain as P

SIGNS = re.compile('[¶§₁₂₃₄]')   # the paragraph and line signs of getVerseText

def load(cls, d, how):
    """The Bible in folder d by the file check of its format or by UnknownBible"""
    with boot.quiet():
        if how == 'unknown':
            from BibleOrgSys.UnknownBible import UnknownBible
            return UnknownBible(d).search(autoLoadAlways=True, autoLoadBooks=True)
        M = import_module('BibleOrgSys.Formats.' + cls)
        B = getattr(M, cls + 'FileCheck')(d, autoLoad=True, autoLoadBooks=how == 'check')
        if how == 'later' and hasattr(B, 'books'): B.load() if hasattr(B, 'load') else B.loadBooks()
        return B

def noteTexts(book):
    """(C,V) → texts of footnotes and cross references"""
    d = {}
    for C, V, mk, e in obs.textEntries(book):
        for x in e.getExtras() or ():
            if x.getType() in ('fn', 'en', 'xr'): d.setdefault((C, V), []).append(obs.norm(x.getCleanText()))
    return d

def compare(ctx, name, B, bs, replay, blanks=False, text=P.plain, notes=(), loose=False):
    """blanks: verses without text may be left out or be there; notes: the kinds of notes which are kept; loose: getVerseText may give headings first and joins paragraphs with signs only"""
    if not ctx.check(hasattr(B, 'books'), name + '-not-loaded', lambda: f'gives {B!r}', replay): return
    if not ctx.check(list(B.books) == [b.bbb for b in bs], name + '-books', lambda: f'{list(B.books)} not {[b.bbb for b in bs]}', replay): return
    for b in bs:
        with boot.quiet():
            try: t = {k: obs.norm(' '.join(v)) for k, v in obs.verseTexts(B.books[b.bbb]).items()}; n = noteTexts(B.books[b.bbb])
            except Exception as e: t = {('exception', repr(e)): ''}; n = {}
        t = {k: v for k, v in t.items() if k[1] != '0'}
        e = {(str(c), str(v)): obs.norm(text(r)) for c, v, r in b.verses()}
        if blanks: t = {k: v for k, v in t.items() if v}; e = {k: v for k, v in e.items() if v}
        ctx.seen(name, (b.bbb, repr(b.chapters))); ctx.count('verses', len(e))
        if not ctx.check(list(t) == list(e), name + '-verses', lambda: f'{b.bbb}: {[k for k in t if k not in e][:8]} too much, {[k for k in e if k not in t][:8]} missing, of {len(e)}, or not in order', replay): continue
        for k in e: ctx.check(t[k] == e[k], name + '-text', lambda: f'{b.bbb} {k}: {t[k]!r} not {e[k]!r}', replay)
        if notes:
            for c, v, r in b.verses():
                w = [obs.norm(x) for x in P.notes(r, notes)]; g = n.get((str(c), str(v)), [])
                if w: ctx.seen('note', (name, b.bbb, c, v, tuple(w)))
                ctx.check(len(w) == len(g) and all(x in y for x, y in zip(w, g)), name + '-notes', lambda: f'{b.bbb} {c}:{v}: {g} not {w}', replay)
        # the Bible's own answer for some verses
        for c, v, r in list(b.verses())[-2:]:
            if not e.get((str(c), str(v))): continue
            with boot.quiet():
                try: x = B.getVerseText((b.bbb, str(c), str(v)))
                except Exception as ex: x = repr(ex)
            ctx.seen('asked', (b.bbb, c, v, e[str(c), str(v)]))
            q = lambda z: ''.join(SIGNS.sub('', z).split())
            ctx.check(x is not None and (obs.norm(SIGNS.sub(' ', x)) == e[str(c), str(v)] or loose and q(x).endswith(q(e[str(c), str(v)])) and len(q(x)) - len(q(e[str(c), str(v)])) < 16), name + '-getVerseText', lambda: f'{b.bbb} {c}:{v}: {x!r} not {e[str(c), str(v)]!r}', replay)
