"""Observations of a loaded Bible through its public accessors."""
from collections import OrderedDict

EXTRA2USFM = {'fn': 'f', 'en': 'fe', 'xr': 'x', 'fig': 'fig', 'str': 'str', 'sem': 'sem', 'vp': 'vp'}

def textEntries(book):
    """[(C, V, marker, entry)] for everything, tracking where we are."""
    C, V = '-1', '0'
    out = []
    for e in book:
        mk = e.getMarker()
        if mk == 'c': C, V = e.getCleanText(), '0'
        elif mk == 'v': V = e.getCleanText()
        out.append((C, V, mk, e))
    return out

def verseTexts(book):
    """OrderedDict (C,V) -> [clean text of each verse-text piece]."""
    d = OrderedDict()
    for C, V, mk, e in textEntries(book):
        if mk == 'v': d.setdefault((C, V), [])
        elif mk in ('v~', 'p~'): d.setdefault((C, V), []).append(e.getCleanText())
    return d

def verseFullTexts(book):
    d = OrderedDict()
    for C, V, mk, e in textEntries(book):
        if mk == 'v': d.setdefault((C, V), [])
        elif mk in ('v~', 'p~'): d.setdefault((C, V), []).append(e.getFullText())
    return d

def verseStrings(book, join=' '):
    return OrderedDict((k, join.join(v)) for k, v in verseTexts(book).items())

def entrySig(e):
    x = e.getExtras()
    return (e.getMarker(), e.getOriginalMarker(), e.getAdjustedText(), e.getCleanText(),
            None if x is None else tuple((z.getType(), z.getIndex(), z.getText(), z.getCleanText()) for z in x), e.getOriginalText())

def bookSig(book): return [entrySig(e) for e in book]

def bibleSig(B): return OrderedDict((BBB, bookSig(B.books[BBB])) for BBB in B.books)

def norm(s): return ' '.join(s.split())
