"""Compare what an independent reader finds in an export with what was generated."""
import os, re
import xml.etree.ElementTree as ET
from bosv import boot, gen, exports, readers, obs, usxw, rich

EXP = {'usfx': 'toUSFXXML', 'osis': 'toOSISXML', 'zefania': 'toZefaniaXML', 'haggai': 'toHaggaiXML', 'opensong': 'toOpenSongXML', 'theword': 'totheWord', 'mysword': 'toMySword',
       'esword': 'toESword', 'mybible': 'toMyBible', 'swordsearcher': 'toSwordSearcher', 'forge': 'toVPL', 'drupal': 'toDrupalBible', 'text': 'toText', 'html5': 'toHTML5', 'markdown': 'toMarkdown', 'tex': 'toTeX'}
MODS = ('theword', 'mysword', 'esword', 'mybible')
NOTES = ('usfx', 'osis', 'zefania', 'theword', 'mysword', 'mybible', 'html5', 'markdown', 'tex')
# headings that the format holds (None: every one)
HEADS = {'usfx': None, 'osis': 'mt1 ms1 s s1 s2 sp imt1 ip is1 iot io1 io2 ili1 ili2 is2 im ipi imi ipq imq iq1 iq2 d sr mr'.split(),
         'html5': 'mt1 ms1 s s1 s2 imt1 ip is1 iot io1 io2 ili1 ili2 is2 im ipi imi ipq imq iq1 iq2 d sr mr qa'.split(), 'markdown': 'mt1 ms1 s s1 s2 imt1 ip is1 iot io1 io2 ili1 ili2 is2 im ipi imi ipq imq iq1 iq2 d sr mr qa'.split(), 'tex': 'mt1 ms1 s s1 s2 imt1 ip is1 iot io1 io2 ili1 ili2 is2 im ipi imi ipq imq iq1 iq2'.split(),
         'mysword': 'mt1 ms1 s s1 s2 d sr mr qa'.split(), 'theword': 'mt1 ms1 s s1 s2 d sr mr qa'.split(), 'esword': 's s1 s2 d sr mr qa'.split(), 'mybible': 's s1 s2 d sr mr qa'.split()}
LAST = (('JN3', '1', 15), ('REV', '12', 18)) # not in the KJV's numbering
_counts = {}
def kjv(system='KJV'):
    """Verses per chapter in the KJV (or another) numbering, read from the data file."""
    if system not in _counts:
        import BibleOrgSys
        fn = os.path.join(os.path.dirname(BibleOrgSys.__file__), f'DataFiles/VersificationSystems/BibleVersificationSystem_{system}.xml')
        _counts[system] = {b.find('referenceAbbreviation').text: [int(x.text) for x in b.findall('numVerses')] for b in ET.parse(fn).getroot().iter('BibleBookVersification')}
    return _counts[system]

def read(fmt, o, m):
    if fmt == 'opensong': return readers.opensong(o, {b.bbb: (b.titles.get('toc1') or b.titles['h']) for b in m.books})
    if fmt == 'theword': return readers.theword(o, kjv())
    return getattr(readers, fmt)(o)

def noteText(n, origin):
    """The text of a note in USFM, as one sees it."""
    mk, call, body = re.fullmatch(r'\\(\w+) (\S+) (.*?)(?:\\\1\*)?', n, re.S).groups()
    if not origin: body = re.sub(r'\\(?:fr|xo) [^\\]*', '', body)
    return re.sub(r'\\\+?\w+(?:\*| ?)', '', body)

SYM = re.compile(r'\\\+?\w+(?: |\*)')
def compare(ctx, m, R, fmt, tag, replay):
    K = kjv(); inKJV = lambda k: int(k[1]) <= len(K[k[0]]) and int(k[2]) <= K[k[0]][int(k[1]) - 1]
    ctx.seen('read-' + fmt, repr(R.verses) + repr(R.text))
    for p in R.problems[:3]: ctx.violation(f'{fmt}-' + str(p[0]).replace(' ', '-'), f'{tag}: {p}', replay)
    want = [(v.bbb, v.c, v.v) for v in m.verses]
    if fmt not in MODS + ('drupal',): ctx.check(R.verses == want, f'{fmt}-verses', lambda: f'{tag}: verses {[x for x in want if x not in R.verses][:4]} missing, {[x for x in R.verses if x not in want][:4]} added (or out of order)', replay)
    V = {}
    for v in m.verses:
        if fmt in MODS:
            for x in range(v.first, v.last + 1):
                if (v.bbb, v.c, x) in LAST: x -= 1   # kept with the verse before it
                if v not in V.setdefault((v.bbb, v.c, str(x)), []): V[(v.bbb, v.c, str(x))].append(v)
        elif fmt == 'drupal': V.setdefault((v.bbb, v.c, str(v.first)), []).append(v)
        else: V[(v.bbb, v.c, v.v)] = [v]
    for k, vs in V.items():
        if fmt in MODS and not inKJV(k): continue # the numbering of these modules is the KJV's
        if fmt in ('esword', 'drupal') and k not in R.text and not any(v.plain.strip() for v in vs): continue # (nothing but a note, and this format has none)
        if not ctx.check(k in R.text, f'{fmt}-verse-missing', lambda: f'{tag}: {k}', replay): continue
        ctx.count('verses-' + fmt)
        text = R.text[k]
        if fmt in MODS:      # the numbers of bridges, parts and verses outside the numbering
            en = [v.v for j, v in enumerate(vs) if j or v.v != k[2]]
            ctx.check(R.shown.get(k, []) == en, f'{fmt}-verse-numbers', lambda: f'{tag} {k}: shows {R.shown.get(k)} rather than {en}', replay); ctx.count('verse-numbers-shown', len(en))
        main = [t for v in vs for t in v.main]; plain = ' '.join(v.plain for v in vs)
        notes = [n for v in vs for n in v.notes if not n.startswith('\\fig') and not (fmt == 'mybible' and n.startswith('\\x '))] # (that one leaves out cross-references)
        got = gen.tokens(text)
        if not ctx.check(got == main, f'{fmt}-words', lambda: f'{tag} {k}: words {main} became {got}', replay): continue
        if fmt == 'markdown': plain = re.sub('[_*]', '', plain) # emphasis
        if fmt == 'haggai': text = SYM.sub('', text)
        squeeze = lambda s: re.sub(r'\s', '', s.replace('\u00a0', ' ')) if fmt in ('esword', 'haggai') else obs.norm(s.replace('\u00a0', ' '))
        if fmt == 'drupal': plain = plain.replace('<', '').replace('>', '') # these mark added text there
        a, e = squeeze(text), squeeze(plain)
        if fmt in ('haggai', 'opensong') and any(not v.pieces[0].plain.strip() for v in vs if getattr(v, 'pieces', None)): a = re.sub('^- ?- ?- ?', '', a) # (the filler for a verse line without text)
        ctx.check(a == e, f'{fmt}-text', lambda: f'{tag} {k}: {e!r} became {a!r}', replay)
        if fmt in NOTES:
            en = [gen.tokens(n) for n in notes]; gn = [gen.tokens(n) for n in R.notes[k]]
            flat = lambda L: [t for x in L for t in x]
            if fmt in MODS or fmt in ('usfx', 'osis', 'zefania', 'html5', 'markdown', 'tex'): ctx.check(flat(gn) == flat(en), f'{fmt}-notes', lambda: f'{tag} {k}: notes {en} became {gn}', replay)
            # the notes to the character (MyBible says itself that it does not handle other fields of notes yet)
            if notes and flat(gn) == flat(en) and not (fmt == 'mybible' and any(x not in ('f', 'fe', 'fr', 'ft', 'fq', 'fqa', 'f*', 'fe*') for n in notes for x in re.findall(r'\\(\+?\w+\*?)', n))):
                en = [noteText(n, fmt in ('usfx', 'osis')) for n in notes]; gn = R.notes[k]
                if fmt == 'zefania':       # it says that it cannot use an anchor to a verse beyond the book (in the numbering that it works with)
                    Z = kjv('BibMaxRef')[k[0]]
                    if int(k[1]) > len(Z) or max(map(int, re.findall(r'\d+', k[2]))) > Z[int(k[1]) - 1]: continue
                if fmt == 'zefania': en, gn = ([re.sub('; b ', '; ', x) for x in y] for y in (en, gn))      # (\xo within the note)
                if fmt == 'tex': gn = [x.strip().partition(' ')[2] for x in gn]         # (the caller)
                if fmt in MODS: gn = [re.sub('</?(?:font|i|b|J|FR|Fr)[^<>]*>', '', x) for x in gn]; en, gn = ([x.replace(';', '') for x in y] for y in (en, gn))      # (references are split up)
                en, gn = (re.sub(r'\s', '', ''.join(x)) for x in (en, gn))
                ctx.check(en == gn, f'{fmt}-note-text', lambda: f'{tag} {k}: {en!r} became {gn!r}', replay); ctx.count('note-characters-' + fmt, len(en))
            ctx.count('notes-' + fmt, len(notes))
        else: ctx.check(not gen.tokens(' '.join(R.notes[k])), f'{fmt}-notes', f'{tag} {k}: {R.notes[k]}', replay)
    for k in R.text:
        if k not in V and R.text[k].strip(): ctx.violation(f'{fmt}-text-at-unknown-verse', f'{tag}: {k} {R.text[k][:200]!r}', replay)
    if fmt in HEADS:
        for b in m.books:
            eh = [t for l in b.lines if l[1:].split(' ')[0] not in usxw.PARA and not l.startswith(('\\v ', '\\id ')) and (HEADS[fmt] is None or l[1:].split(' ')[0] in HEADS[fmt]) for t in gen.tokens(l)]
            gh = [t for h in R.heads if h[0] == b.bbb for t in gen.tokens(h[-1])]
            if fmt in MODS:
                allh = {t for l in b.lines if not l.startswith('\\v ') for t in gen.tokens(l)}
                miss = [t for t in eh if t not in gh]
                # verses beyond the KJV's are not in the module, nor what stands before them
                if any(not inKJV(k) for k in V if k[0] == b.bbb): miss = []
                if not any(k[0] == b.bbb for k in V): miss = [] # no verses, so nothing to put the headings in
                # a paragraph that holds nothing but a verse number is closed before the verse, and the heading stays in verse 0, which modules do not have
                if any(re.fullmatch(r"\\v \S+ *", l) for l in b.lines): miss = []
                ctx.check(not miss, f'{fmt}-headings', lambda: f'{tag} {b.bbb}: {miss} lost', replay)
                ctx.check(all(t in allh for t in gh), f'{fmt}-headings', lambda: f'{tag} {b.bbb}: {[t for t in gh if t not in allh]} in headings', replay)
            else: ctx.check([t for t in gh if t in set(eh)] == eh, f'{fmt}-headings', lambda: f'{tag} {b.bbb}: headings {eh} became {gh}', replay)
            ctx.count('heading-words-' + fmt, len(eh))

def runFormats(ctx, formats, quick, thorough, more=None, feats=gen.ALLFEATS | {'amp', 'moreheads', 'bare'}):
    def one(m, B, i, rp):
        for fmt in formats:
            o = ctx.tmpdir(); tag = f'{EXP[fmt]} case {i}'
            try: res = exports.run(B, EXP[fmt], o)
            except Exception as e:
                tb = e.__traceback__
                while tb.tb_next: tb = tb.tb_next
                ctx.violation(f'{fmt}-export-fails', f'{tag}: {type(e).__name__} {e} in {tb.tb_frame.f_code.co_name}', rp); ctx.rmtree(o); continue
            try: R = read(fmt, o, m)
            except Exception as e: ctx.violation(f'{fmt}-unreadable', f'{tag}: {type(e).__name__} {e}', rp)
            else: compare(ctx, m, R, fmt, tag, rp)
            if more: more(ctx, fmt, o, m, B, tag, rp)
            ctx.rmtree(o)
    ctx.need('dense-books', 10)
    for i in ctx.cases(quick // 3, thorough // 3, 'dense'):    # every inline construct next to every other
        r = ctx.rng('dx', i); b, usfm, B, bk = rich.load(ctx, r, simple=True)
        one(rich.model(b), B, f'dense {i}', {'case': i, 'usfm': usfm})
    for i in ctx.cases(quick, thorough):
        r = ctx.rng('ex', i)
        f = {x for x in feats if r.random() > .12}
        if i % 10 == 3: m = gen.bible(r, f | {'gaps', 'ends'}, nBooks=2, maxVerses=6, pool=[b for b in gen.BOOKS if b[0] in ('PSA', 'JN3', 'REV')], chapters=2)     # where the numbering ends
        elif i % 10 == 7: m = gen.bible(r, f, nBooks=66 if i == 7 else 20, maxVerses=r.choice([1, 2, 3]), pool=gen.ALL66, chapters=r.choice([1, 1, 2]))     # any book
        else: m = gen.bible(r, f, nBooks=r.choice([1, 2, 3]), maxVerses=r.choice([3, 6, 9]))
        d = ctx.tmpdir(); name = r.choice(['XYZ', 'Example']); gen.writeUSFM(m, d, name); B = gen.loadUSFMq(d, name)
        one(m, B, i, {'case': i, 'usfm': {b.bbb: b.usfm for b in m.books}})
        ctx.rmtree(d)
