"""Searching finds exactly the occurrences that are in the text, at the right place, with the right context."""
import re, unicodedata
from bosv import boot, gen, obs, rich, real
from checks.C08 import PUNCT

DEFAULTS = {'wordMode': 'Any', 'caselessFlag': True, 'ignoreDiacriticsFlag': False, 'includeIntroFlag': True, 'includeMainTextFlag': True, 'includeMarkerTextFlag': False,
            'includeExtrasFlag': False, 'contextLength': 30, 'bookList': 'ALL', 'chapterList': None, 'markerList': None}
ACCENTS = {'a': 'àáâãäåāăąæ', 'c': 'çćĉċč', 'd': 'ðďđ', 'e': 'èéêëēĕėęě', 'g': 'ģğġ', 'i': 'ìíîï', 'n': 'ñ', 'o': 'òóôõöø', 'u': 'ùúûü', 'y': 'ýÿ',
           'A': 'ÀÁÂÃÄÅĂĄÆ', 'E': 'ÈÉÊË', 'O': 'ÒÓÔÕÖØ', 'D': 'ÐĎĐ', 'N': 'Ñ', 'C': 'ÇČ', 'U': 'ÙÚÛÜ'}
PLAIN = {x: k for k, v in ACCENTS.items() for x in v}; PLAIN.update({'æ': 'ae', 'Æ': 'AE'})
MARKS = {'fn': 'f', 'en': 'fe', 'xr': 'x'}
def foldable(o):
    def one(ch):
        if o['ignoreDiacriticsFlag']: ch = PLAIN.get(ch, ch)
        return ch
    return one
def reference(B, o):
    """An independent search over the loaded entries."""
    G = boot.G; out = []; o = {**DEFAULTS, **o}; plainOf = foldable(o)
    pat = None; needle = o['findText']
    if needle.lower().startswith('regex:'): pat = re.compile(needle[6:], re.I if o['caselessFlag'] else 0)
    else:
        needle = ''.join(map(plainOf, needle))
        if o['caselessFlag']: needle = needle.lower()
    std = [G.loadedUSFMMarkers.toStandardMarker(x) for x in o['markerList'] or []]
    for BBB in B.books:
        if o['bookList'] not in ('ALL', None) and BBB not in o['bookList']: continue
        C, V = '-1', -1; para = None
        for e in B.books[BBB]:
            mk = e.getMarker(); t = e.getCleanText()
            if mk[0] == '¬' or mk in ('headers', 'intro', 'chapters'): continue
            if mk == 'c': C, V = t, '0'
            elif mk == 'v': V = t
            elif C == '-1': V = V + 1
            isPara = mk in G.USFMParagraphMarkers
            if o['markerList']:
                hit = mk in std or (mk in ('v~', 'p~') and para in std)
                if isPara: para = mk
                if not hit: continue
            elif isPara: para = mk
            if not o['markerList'] and C == '-1' and not o['includeIntroFlag']: continue
            if o['chapterList'] is not None and C not in o['chapterList'] and int(C) not in o['chapterList']: continue
            s = e.getFullText() if o['includeExtrasFlag'] else t
            if C != '0' and not o['includeMainTextFlag'] and not o['markerList'] and (mk in ('v~', 'p~') or isPara):
                s = ' '.join(('\\' + MARKS.get(x.getType(), x.getType()) + ' ' if o['includeMarkerTextFlag'] else '') + x.getText() for x in (e.getExtras() or [])) if o['includeExtrasFlag'] else ''
            if o['includeMarkerTextFlag']: s = f'\\{mk} {s}'
            if not s: continue
            h = ''; at = []
            for k, ch in enumerate(s): f = plainOf(ch); h += f; at += [k] * len(f)
            if o['caselessFlag']: h = h.lower()
            if pat: spans = [m.span() for m in pat.finditer(h)]
            else:
                spans = []
                for k in range(len(h)):
                    if h.startswith(needle, k):
                        z = k + len(needle)
                        before = k > 0 and h[k - 1].isalpha(); after = z < len(h) and h[z].isalpha()
                        wm = o['wordMode']
                        if wm == 'Whole' and (before or after): continue
                        if wm == 'Begins' and before: continue
                        if wm == 'EndsWord' and after: continue
                        if wm == 'EndsLine' and z < len(h): continue
                        spans.append((k, z))
            n = o['contextLength']
            for a, z in spans:
                vv = str(V).split('-')[0]
                a, z = at[a], at[z - 1] + 1
                ctx = (s[max(0, a - n):a], s[z:z + n]) if n else (None, None)
                out.append((BBB, C, vv, str(a)) + ((ctx[0], s[a:z], ctx[1]) if o['caselessFlag'] else ctx))
    return out

def ask(ctx, B, o, rep, history=None):
    o2 = dict(o)
    if history is not None: o2['findHistoryList'] = list(history)
    try:
        with boot.quiet(): back, summary, res = B.findText(o2)
    except Exception as e:
        ctx.violation('search-raises', f'{type(e).__name__}: {e} for {o}', rep); return history
    got = [(t[0].getBBB(), t[0].getChapterNumStr(), t[0].getVerseNumStr(), t[0].I if t[0].I is not None else t[0].S) + tuple(t[2:]) for t in res]
    exp = reference(B, o); f = {**DEFAULTS, **o}
    ctx.seen('search', repr(o) + repr(exp), bool(exp)); ctx.count('hits', len(exp))
    ctx.check(got == exp, 'search-results', lambda: f'{o}: missing {[x for x in exp if x not in got][:3]} extra {[x for x in got if x not in exp][:3]} of {len(exp)}/{len(got)}', rep)
    ctx.check(summary['searchedBookList'] == [b for b in B.books if f['bookList'] in ('ALL', None) or b in f['bookList']] and summary['foundBookList'] == list(dict.fromkeys(x[0] for x in exp)), 'search-summary', lambda: f'{o} {summary}', rep)
    ctx.check(all(back.get(k) == v for k, v in f.items()) and back['regexFlag'] == o['findText'].lower().startswith('regex:'), 'options-returned', lambda: f'{o}: {back}', rep)
    new = [x for x in history or [] if x != o['findText']] + [o['findText']]
    ctx.check(back['findHistoryList'] == new, 'search-history', lambda: f"{history} + {o['findText']}: {back['findHistoryList']}", rep)
    return new

REGEX = [r'zq[a-c]\w+z', r'\bthe\b', r'[A-Z]\w+', r'Lord', r'zq....z\W', r'(of|and) \w+', r'\bZq\w', r'^\W*\w+', r'\w+\W*$', r'e', r'aed?']
def options(r, B, words, accented=False):
    w = r.choice(words).strip(PUNCT) or 'the'
    x = r.random()
    if x < .25: w = 'zq' + w[2:4] if len(w) > 3 else w
    elif x < .35: w = r.choice(['the', 'a', 'zq', 'of', 'Lord', 'z', 'i', 'e', 'ae'])
    elif x < .45: w = w[1:] or 'z'
    elif x < .5: w = r.choice(words) + ' ' + r.choice(words)
    wm = r.choice(['Any', 'Any', 'Whole', 'Begins', 'EndsWord', 'EndsLine'])
    if ' ' in w: wm = 'Any'
    if r.random() < .15: w = r.choice(['regex:', 'regex:', 'Regex:']) + r.choice(REGEX); wm = 'Any'
    books = list(B.books); x = r.random()
    bl = 'ALL' if x < .6 else None if x < .7 else [r.choice(books)] if x < .85 else r.sample(books, r.randint(1, len(books)))
    o = {'findText': w, 'wordMode': wm, 'caselessFlag': r.random() < .5, 'includeIntroFlag': r.random() < .7,
         'includeMainTextFlag': True, 'includeExtrasFlag': r.random() < .4, 'contextLength': r.choice([5, 30, 1, 0]),
         'bookList': bl, 'chapterList': None if r.random() < .7 else r.choice([[1], ['1'], [2], [1, 3], ['2', '3'], [-1], ['-1', 2]]), 'markerList': None}
    if r.random() < .3: o['ignoreDiacriticsFlag'] = r.random() < .9
    if r.random() < .15: o['includeMarkerTextFlag'] = True
    if o.get('includeMarkerTextFlag') and r.random() < .4: o['findText'] = r.choice(['\\v~', '\\p', '\\s1 ', '\\f ', '\\x ']); o['wordMode'] = 'Any'
    if r.random() < .15: o['includeMainTextFlag'] = False; o['includeExtrasFlag'] = r.random() < .8
    if r.random() < .12: o.update(markerList=r.sample(['s1', 's', 'p', 'q1', 'q', 'ip', 'm', 'li1', 'mt1', 'q2', 'pi'], r.choice([1, 2, 3])), includeIntroFlag=False, includeMainTextFlag=True, includeExtrasFlag=False)
    for k in list(DEFAULTS):      # options that are not given have their documented defaults
        if k != 'markerList' and k in o and o[k] == DEFAULTS[k] and r.random() < .3: del o[k]
    return o
def count(ctx, o):
    f = {**DEFAULTS, **o}
    for k, name in (('includeMainTextFlag', 'searches-of-notes-only'), ('includeIntroFlag', 'searches-without-introductions')):
        if not f[k]: ctx.count(name)
    for k, name in (('markerList', 'searches-by-marker'), ('ignoreDiacriticsFlag', 'searches-ignoring-accents'), ('includeMarkerTextFlag', 'searches-with-marker-text'), ('chapterList', 'searches-by-chapter')):
        if f[k]: ctx.count(name)

def accent(r, line):
    """some letters of the text become accented ones"""
    out = []
    if '|' in line or '\\fig' in line: return line
    for t in re.split(r'(\\\S+|\|[^\\]*|zq\S*)', line):
        out.append(t if t[:1] in ('\\', '|') else re.sub('[acdeginouyAEODNCU]', lambda x: r.choice(ACCENTS[x[0]]) if r.random() < (.1 if t[:2] == 'zq' else .4) else x[0], t))
    return ''.join(out)

def run(ctx):
    ctx.rule = 'random searches (word modes, case, accents, regex, notes, marker text, introductions, books, chapters, markers, defaults) of generated, dense and real Bibles against a brute-force search of the same lines; distinct = distinct (options, hits)'
    ctx.need('search', 1000); ctx.need('hits', 1000)
    for i in ctx.cases(100):
        r = ctx.rng('b', i)
        m = gen.bible(r, set(gen.ALLFEATS) - {'suffix'} if r.random() < .5 else gen.ALLFEATS, maxVerses=r.choice([4, 8]))
        accented = r.random() < .35
        if accented:
            for b in m.books: b.lines = [accent(r, l) if not l.startswith(('\\id', '\\v ', '\\c ')) or l.startswith('\\v ') and r.random() < .5 else l for l in b.lines]
        d = ctx.tmpdir('u'); gen.writeUSFM(m, d)
        try:
            with boot.quiet(): B = gen.loadUSFM(d)
        finally: ctx.rmtree(d)
        before = obs.bibleSig(B)
        rep = {'usfm': [b.usfm for b in m.books]}
        words = [w for v in m.verses for w in v.plain.split()] + gen.FILLER
        if accented: words = [w for x in B.books.values() for e in x for w in (e.getCleanText() or '').split()] + words; words += [''.join(PLAIN.get(ch, ch) for ch in w) for w in words]
        hist = []
        for k in range(25):
            o = options(r, B, words); count(ctx, o)
            hist = ask(ctx, B, o, rep, hist if r.random() < .5 else [])
        # every unique word of every verse is found exactly once, in its verse
        for v in r.sample(m.verses, min(8, len(m.verses))) if not accented else []:
            for t in v.main[:3]:
                with boot.quiet(): _, _, res = B.findText({'findText': 'zq' + t + 'z'})
                ctx.seen('unique-word', t)
                ctx.check([(x[0].getBBB(), x[0].getChapterNumStr(), x[0].getVerseNumStr()) for x in res] == [(v.bbb, v.c, v.v.split('-')[0])], 'unique-word-found', lambda: f'{t} of {v.bbb} {v.c}:{v.v} found at {[x[0] for x in res]}', rep)
        ctx.check(obs.bibleSig(B) == before, 'search-changes-the-bible', '', rep)
    for i in ctx.cases(30):
        r = ctx.rng('dense', i); R, usfm, B, bk = rich.load(ctx, r); before = obs.bibleSig(B)
        words = [w for e in bk for w in (e.getCleanText() or '').split()]
        for k in range(15): o = options(r, B, words); count(ctx, o); ask(ctx, B, o, {'usfm': usfm})
        ctx.check(obs.bibleSig(B) == before, 'search-changes-the-bible', '', {'usfm': usfm})
    for i, (name, B) in enumerate(real.usfm()):
        r = ctx.rng('real', i); before = obs.bibleSig(B); words = [w for x in B.books.values() for e in x for w in (e.getCleanText() or '').split()]
        if not words: continue
        words = r.sample(words, min(len(words), 400)); ctx.count('real-bibles')
        for k in range(6): o = options(r, B, words); count(ctx, o); ask(ctx, B, o, {'bible': name})
        ctx.check(obs.bibleSig(B) == before, 'search-changes-the-bible', name, {'bible': name})
