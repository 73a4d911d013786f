"""Book codes: every lookup agrees with the source table in both directions, and books and references sort in their real order."""
import os, xml.etree.ElementTree as ET
from bosv import boot

GET = {'getShortAbbreviation': 'shortAbbreviation', 'getSBLAbbreviation': 'SBLAbbreviation', 'getOSISAbbreviation': 'OSISAbbreviation', 'getSwordAbbreviation': 'SwordAbbreviation', 'getCCELNumber': 'CCELNumber', 'getUSFMAbbreviation': 'USFMAbbreviation', 'getUSFMNumStr': 'USFMNumber', 'getUSXNumStr': 'USXNumber', 'getUnboundBibleCode': 'UnboundCode', 'getBibleditNumStr': 'BibleditNumber', 'getLogosNumStr': 'LogosNumber', 'getNETBibleAbbreviation': 'NETBibleAbbreviation', 'getDrupalBibleAbbreviation': 'DrupalBibleAbbreviation', 'getByzantineAbbreviation': 'ByzantineAbbreviation', 'getTypicalSection': 'typicalSection', 'getBookName': 'bookName'}
INVERSE = {'getBBBFromShortAbbreviation': 'shortAbbreviation', 'getBBBFromOSISAbbreviation': 'OSISAbbreviation', 'getBBBFromUSFMAbbreviation': 'USFMAbbreviation', 'getBBBFromUnboundBibleCode': 'UnboundCode', 'getBBBFromDrupalBibleCode': 'DrupalBibleAbbreviation'}

def run(ctx):
    from BibleOrgSys import BibleOrgSysGlobals as G
    ctx.rule = 'every field of every book code against BibleBooksCodes.xml as read by the check, all inverse lookups in upper, lower and mixed case, tables loaded from the XML, a written pickle and written JSON, and random lists of books and references sorted; distinct = distinct (function, argument)'
    ctx.need('fields', 3000); ctx.need('inverse', 1000); ctx.need('sorted', 500); ctx.need('text', 300); ctx.need('loaded', 3)
    src = {}
    for e in ET.parse(os.path.join(boot.REPO, 'BibleOrgSys/DataFiles/BibleBooksCodes.xml')).getroot():
        if e.find('referenceAbbreviation') is not None: src[e.find('referenceAbbreviation').text] = {c.tag: c.text for c in e}
    order = [B for B, x in sorted(src.items(), key=lambda y: int(y[1]['sequenceNumber']))]
    num = {B: int(x['referenceNumber']) for B, x in src.items()}
    def call(f, *a, **k):
        with boot.quiet():
            try: return f(*a, **k)
            except (Exception, SystemExit) as e: return repr(e)
    def table(bbc, how):
        def ck(kind, got, want, *arg):
            ctx.seen('fields', (kind,) + arg); ctx.check(got == want, f'{kind}', lambda: f'{how} {kind}{arg}: {got!r} not {want!r}', (how, kind) + arg)
        ck('all', call(lambda: (sorted(bbc), len(bbc), sorted(bbc.getAllReferenceAbbreviations()))), (sorted(src), len(src), sorted(src)))
        for B, x in src.items():
            for f, k in GET.items(): ck(f, call(getattr(bbc, f), B), x.get(k), B)
            ck('number', call(bbc.getReferenceNumber, B), num[B], B); ck('from-number', call(bbc.getBBBFromReferenceNumber, num[B]), B, num[B]); ck('from-number', call(bbc.getBBBFromReferenceNumber, str(num[B])), B, str(num[B]))
            ck('valid', (call(bbc.isValidBBB, B), B in bbc), (True, True), B)
            names = [n.strip() for n in x['bookNameEnglishGuide'].split('/')]
            ck('english', (call(bbc.getEnglishName_NR, B), call(bbc.getEnglishNameList_NR, B)), (names[0], names), B)
            ec = x.get('expectedChapters'); ch = ec.split(',') if ec else []
            ck('chapters', (call(bbc.getExpectedChaptersList, B), call(bbc.getMaxChapters, B), call(bbc.isSingleChapterBook, B), call(bbc.isChapterVerseBook, B)), (ch, max(map(int, ch), default=-1), ch == ['1'], bool(ec)), B)
            ck('testament', (call(bbc.isOldTestament_NR, B), call(bbc.isNewTestament_NR, B)), (num[B] <= 39, 40 <= num[B] <= 66), B)
            alt = x.get('possibleAlternativeBooks'); ck('alternatives', call(bbc.getPossibleAlternativeBooksCodes, B), alt.split(',') if alt else None, B)
        ck('single-chapter-books', (sorted(call(bbc.getSingleChapterBooksList)), sorted(call(bbc.getOSISSingleChapterBooksList))), (sorted(B for B in src if src[B].get('expectedChapters') == '1'), sorted(src[B]['OSISAbbreviation'] for B in src if src[B].get('expectedChapters') == '1' and src[B].get('OSISAbbreviation'))))
        ck('sequence', call(bbc.getSequenceList), order)
        for f, k in INVERSE.items():
            holders = {}
            for B, x in src.items():
                if x.get(k): holders.setdefault(x[k].upper(), []).append(B)
            for a, Bs in holders.items():
                for y in {a, a.lower(), a.title(), src[Bs[0]][k]}:
                    got = call(getattr(bbc, f), y); ctx.seen('inverse', (f, y)); ctx.check(got in Bs, f, lambda: f'{how} {f}({y!r}) = {got!r}, not one of {Bs}', (how, f, y))
                    if k == 'OSISAbbreviation': got = call(bbc.getBBBFromOSISAbbreviation, y, strict=True); ctx.check(got in Bs, f + '-strict', lambda: f'{how} {f}({y!r}) strict = {got!r}, not one of {Bs}', (how, f, y))
            for y in ('', 'zzz', 'QQQ'):
                got = call(getattr(bbc, f), y); ctx.check(isinstance(got, str) and got not in src, f + '-unknown', lambda: f'{how} {f}({y!r}) = {got!r}', (how, f, y))
        for f, k in (('getAllUSFMBooksCodeNumberTriples', 'USFMNumber'), ('getAllUSXBooksCodeNumberTriples', 'USXNumber'), ('getAllBibleditBooksCodeNumberTriples', 'BibleditNumber')):
            got = call(getattr(bbc, f)); want = {x['USFMAbbreviation'] for x in src.values() if x.get('USFMAbbreviation') and x.get(k)}
            ok = isinstance(got, list) and [a for a, _, _ in got].__len__() == len(want) and {a for a, _, _ in got} == want and all(src[B]['USFMAbbreviation'] == a and src[B][k] == n for a, n, B in got)
            ctx.seen('inverse', f); ctx.check(ok, f, lambda: f'{how} {f}: {str(got)[:200]}', (how, f))
        for up in (False, True):
            got = call(bbc.getAllUSFMBooksCodes, toUpper=up); w = {x['USFMAbbreviation'] for x in src.values() if x.get('USFMAbbreviation')}
            ck('all-usfm', (sorted(got), len(got)), (sorted({a.upper() if up else a for a in w}), len(w)), up)
        # names and codes as text
        for B in src:
            if num[B] <= 66:
                for t in {B, B.lower(), src[B]['bookNameEnglishGuide'].split('/')[0].strip(), src[B]['bookNameEnglishGuide'].split('/')[0].strip().upper(), src[B].get('OSISAbbreviation'), src[B].get('USFMAbbreviation')}:
                    got = call(bbc.getBBBFromText, t); ctx.seen('text', t); ctx.check(got == B, 'from-text', lambda: f'{how} getBBBFromText({t!r}) = {got!r} not {B}', (how, t))
            got = call(bbc.getBBBFromText, B); ctx.seen('text', B); ctx.check(got == B, 'from-text', lambda: f'{how} getBBBFromText({B!r}) = {got!r}', (how, B))
            got = {(a, b): call(bbc.tidyBBB, B, a, b) for a in (False, True) for b in (False, True)}
            w = (B[2] + B[:2]) if B[2].isdigit() else B
            ok = got[False, False] == w and got[True, False] == (w[0] + w[1] + w[2:].lower() if w[0].isdigit() else w[0] + w[1:].lower()) and got[True, True].upper() == got[False, True].upper() and (got[False, True] == w or len(got[False, True]) == 4)
            ctx.seen('fields', ('tidy', B)); ctx.check(ok, 'tidy', lambda: f'{how} tidyBBB({B}): {got}', (how, B))
        four = [call(bbc.tidyBBB, B) for B in src]; ctx.check(len(set(four)) == len(four), 'tidy-distinct', lambda: f'{how}: two books have the same tidy code', how)
        ctx.seen('loaded', how)
    bbc = G.loadedBibleBooksCodes; table(bbc, 'loaded')
    # the same data through a written pickle and a written JSON file
    from BibleOrgSys.Reference.Converters.BibleBooksCodesConverter import BibleBooksCodesConverter
    from BibleOrgSys.Reference.BibleBooksCodes import BibleBooksCodes
    from pathlib import Path
    import shutil
    real = G.BOS_DERIVED_DATAFILES_FOLDERPATH, G.BOS_DATAFILES_FOLDERPATH
    for how in ('pickle', 'json'):
        d = Path(ctx.tmpdir()); os.makedirs(d / 'Derived')
        shutil.copy(real[1] / 'BibleBooksCodes.xml', d / 'BibleBooksCodes.xml'); os.utime(d / 'BibleBooksCodes.xml', (10, 10))
        def make():
            c = BibleBooksCodesConverter(); c.loadAndValidate()
            if how == 'pickle': c.pickle(str(d / 'Derived' / 'BibleBooksCodes_Tables.pickle'))
            else: c.exportDataToJSON(str(d / 'Derived' / 'BibleBooksCodes_Tables.json'))
            (d / 'BibleBooksCodes.xml').unlink() if how == 'pickle' else None     # as in the PyPI package
            G.BOS_DERIVED_DATAFILES_FOLDERPATH = d / 'Derived'; G.BOS_DATAFILES_FOLDERPATH = d
            try: return BibleBooksCodes().loadData()
            finally: G.BOS_DERIVED_DATAFILES_FOLDERPATH, G.BOS_DATAFILES_FOLDERPATH = real
        b = call(make)
        if ctx.check(not isinstance(b, str) and len(os.listdir(d / 'Derived')) == 1, 'written-' + how, lambda: f'{how}: {b}', how): table(b, how)
        ctx.rmtree(d)
    # sorting
    books = list(src)
    for i in ctx.cases(400, 8000):
        r = ctx.rng(i); L = r.sample(books, r.choice([0, 1, 2, 5, 30, len(books)]))
        if r.random() < .3: L = [(B, r.random()) for B in L]
        key = lambda y: order.index(y if isinstance(y, str) else y[0])
        got = call(bbc.getSequenceList, L); ctx.seen('sorted', repr(L)); ctx.check(got == sorted(L, key=key), 'sequence-list', lambda: f'getSequenceList({L[:9]}…): {str(got)[:200]}', L)
        pool = r.sample(books, 4) + ['PSA', 'PRO', 'JOB']; refs = []
        for _ in range(r.choice([1, 2, 10, 60])):
            B = r.choice(pool); c = r.choice([1, 2, 150, 119, r.randint(0, 150)]); v = r.choice([1, 176, r.randint(0, 176)])
            refs.append((B, str(c), str(v) + (f'-{v + r.randint(1, 4)}' if r.random() < .1 else '')) + ((r.choice(['', 'a', 'b', 'c', 'd']),) if r.random() < .4 else ()))
        got = call(bbc.sortBCVReferences, refs); k3 = lambda y: (num[y[0]], int(y[1]), int(y[2].split('-')[0]))
        # of the parts of a verse only that a later letter comes later (whether 5 or 5a is first is not documented)
        ok = isinstance(got, list) and sorted(got) == sorted(refs) and all((k3(a), *([a[3], a[3]] if len(a) > 3 and a[3] else ['a', 'a'])) <= (k3(b), *([b[3], b[3]] if len(b) > 3 and b[3] else ['a', 'a'])) for a, b in zip(got, got[1:]))
        ctx.seen('sorted', repr(refs)); ctx.check(ok, 'sort-references', lambda: f'sortBCVReferences({refs[:9]}): {str(got)[:300]}', refs)
