"""Loading and exporting with several processes gives what one process gives."""
import os
from bosv import boot, gen, obs, exports

def run(ctx):
    G = boot.G
    from BibleOrgSys.Formats.USFMBible import USFMBible
    ctx.rule = 'the same Bible loaded and exported to every format by one process and by 2-6 worker processes, also several times in one run and mixed with analysis; distinct = distinct (Bible, number of processes, step)'
    ctx.need('parallel-load', 30); ctx.need('parallel-export-files', 800); ctx.need('parallel-load-format', 60); ctx.need('parallel-load-aligned', 4); ctx.need('failing-exports', 30); ctx.need('exports-too-slow', 2)
    for i in ctx.cases(36, 400):
        r = ctx.rng('p', i); m = gen.bible(r, gen.ALLFEATS | {'bare'}, nBooks=r.choice([2, 3, 5, 8]), maxVerses=r.choice([2, 5])); d = ctx.tmpdir(); gen.writeUSFM(m, d); n = r.choice([2, 3, 4, 6])
        rep = {'usfm': [b.usfm for b in m.books], 'processes': n}
        def load(k):
            G.maxProcesses = k
            try:
                with boot.quiet(): B = USFMBible(d, 'XYZ', 'XYZ'); B.preload(); B.loadBooks()
            finally: G.maxProcesses = 1
            ctx.check(not G.alreadyMultiprocessing, 'multiprocessing-flag-left-on', str(k), rep); G.alreadyMultiprocessing = False
            return B
        A, B = load(1), load(n)
        ctx.seen('parallel-load', (i, n)); ctx.count('books-loaded-in-parallel', len(m.books))
        ctx.check(list(A.books) == list(B.books) == [b.bbb for b in m.books] or list(A.books) == list(B.books), 'book-order', f'{list(A.books)} {list(B.books)}', rep)
        ctx.check(obs.bibleSig(A) == obs.bibleSig(B), 'loaded-differently', f'{n} processes', rep)
        ctx.check((A.availableBBBs, A.BBBToNameDict, A.bookNameDict, A.combinedBookNameDict) == (B.availableBBBs, B.BBBToNameDict, B.bookNameDict, B.combinedBookNameDict), 'names-differ', f'{n}', rep)
        ctx.check(all(x.containerBibleObject is B for x in B.books.values()), 'books-point-elsewhere', f'{n}', rep)
        for v in r.sample(m.verses, min(8, len(m.verses))):
            with boot.quiet(): ctx.check(A.getVerseText((v.bbb, v.c, v.v)) == B.getVerseText((v.bbb, v.c, v.v)), 'verse-differs', f'{v.bbb} {v.c}:{v.v}', rep)
        with boot.quiet(): A.discover(); B.discover()
        ctx.check(A.discoveryResults == B.discoveryResults, 'discovery-differs', f'{n}', rep)
        if i % 3 == 0:
            oa, ob = ctx.tmpdir('a'), ctx.tmpdir('b')
            with boot.quiet():
                ra = A.doAllExports(oa); G.maxProcesses = n
                try: rb = B.doAllExports(ob)
                finally: G.maxProcesses = 1
            ctx.check(not G.alreadyMultiprocessing, 'multiprocessing-flag-left-on', f'export {n}', rep); G.alreadyMultiprocessing = False
            ctx.check(ra == rb, 'export-results-differ', lambda: f'{[k for k in ra if ra[k] != rb.get(k)]}', rep)
            ta, tb = exports.cleanNames(exports.tree(oa)), exports.cleanNames(exports.tree(ob))
            for k in set(ta) | set(tb): ctx.seen('parallel-export-files', (i, k))
            df = exports.diff(ta, tb)
            ctx.check(not df, 'exported-files-differ', lambda: f'{n} processes: {df[:4]}', rep)
            ctx.check(obs.bibleSig(B) == obs.bibleSig(A), 'export-changes-bible', f'{n}', rep)
            ctx.rmtree(oa); ctx.rmtree(ob)
        if i % 3 == 2: faults(ctx, r, A, B, n, rep)
        if i % 6 == 2: aligned(ctx, r, i, n)
        if i % 3 == 1: formats(ctx, r, i, m, A, d, n, rep)
        ctx.rmtree(d)

KEY = dict(makeLists='listOutput', toBOSBCV='BCVOutput', toPseudoUSFM='pseudoUSFMExport', toUSFM2='USFM2Export', toUSFM3='USFM3Export', toESFM='ESFMExport', toText='textExport', toVPL='VPLExport', toMarkdown='markdownExport',
           toHTML5='htmlExport', toBibleDoor='BibleDoorExport', toEasyWorshipBible='EasyWorshipBibleExport', toUSX2XML='USX2Export', toUSXXML='USX3Export', toUSFXXML='USFXExport', toOSISXML='OSISExport', toZefaniaXML='ZefExport',
           toHaggaiXML='HagExport', toOpenSongXML='OSExport', toSwordModule='swExport', totheWord='tWExport', toMySword='MySwExport', toESword='ESwExport', toMyBible='MyBExport', toSwordSearcher='SwSExport', toDrupalBible='DrExport')

def faults(ctx, r, A, B, n, rep):
    """Some of the exporters fail (raise, or say that they failed), or the exports take longer than is allowed."""
    from BibleOrgSys.BibleWriter import BibleWriter; import multiprocessing.pool as mp; G = boot.G
    bad = {nm: r.choice(['raise', 'false']) for nm in r.sample(sorted(KEY), r.choice([1, 2, 5, 12]))}
    faults.n = getattr(faults, 'n', 0) + 1; late = faults.n % 3 == 1
    def fake(kind):
        def f(self, *a, **k):
            if kind == 'raise': raise RuntimeError('injected fault')
            return kind == 'true'
        return f
    def run(X, k):
        o = ctx.tmpdir()
        try:
            with boot.quiet(): G.maxProcesses = k; return X.doAllExports(o)
        finally: G.maxProcesses = 1; ctx.rmtree(o)
    old = {nm: getattr(BibleWriter, nm) for nm in KEY}; wait = mp.MapResult.wait
    try:
        for nm in KEY:
            f = fake(bad.get(nm, 'true')); f.__name__ = nm; setattr(BibleWriter, nm, f)
        ra, rb = run(A, 1), run(B, n)
        ctx.check(not G.alreadyMultiprocessing, 'multiprocessing-flag-left-on', f'failing exports {n}', rep); G.alreadyMultiprocessing = False
        if late:
            mp.MapResult.wait = lambda self, timeout=None: None
            def slow(self, *a, **k): import time; time.sleep(20); return True
            for nm in KEY: slow.__name__ = nm; setattr(BibleWriter, nm, slow)
            try: rc = run(B, n); ctx.seen('exports-too-slow', (n, len(A.books), tuple(sorted(bad)))); ctx.check(set(rc) == set(ra) and all(rc[x] for x in KEY.values()), 'results-of-slow-exports', lambda: str(rc), rep)
            except Exception as e: ctx.violation('slow-exports-raise', f'{type(e).__name__}: {e}', rep)
            ctx.check(not G.alreadyMultiprocessing, 'multiprocessing-flag-left-on', f'slow exports {n}', rep); G.alreadyMultiprocessing = False
    finally:
        mp.MapResult.wait = wait
        for nm in KEY: setattr(BibleWriter, nm, old[nm])
    for nm, key in KEY.items():
        ctx.seen('failing-exports', (nm, bad.get(nm)), nm in bad)
        for w, x in (('one process', ra), (f'{n} processes', rb)): ctx.check(x.get(key) is (nm not in bad), 'result-of-failing-export', f'{w}: {nm} {bad.get(nm)} reported as {x.get(key)}', rep)
    ctx.check(ra == rb, 'failing-export-results-differ', lambda: f'{[k for k in ra if ra[k] != rb.get(k)]}', rep)

def formats(ctx, r, i, m, A, d, n, rep):
    """Every other format that is loaded by several processes: the files of the same Bible loaded by one process and by n."""
    import importlib, re, shutil; G = boot.G
    out = {}
    for name in ('toUSXXML', 'toESFM', 'toPickledBible', 'toBOSBCV'):
        o = ctx.tmpdir()
        with boot.quiet(): exports.run(A, name, o)
        out[name] = o
    osis = ctx.tmpdir()
    O = ctx.tmpdir()
    with boot.quiet(): A.toOSISXML(O)
    for fn in os.listdir(O):
        if (x := re.fullmatch(r'Book-(\w+)\.osis', fn)): shutil.copy(os.path.join(O, fn), os.path.join(osis, G.loadedBibleBooksCodes.getOSISAbbreviation(x[1]) + '.xml'))
    T = [('USFMBible', d, ()), ('USFM2Bible', d, ()), ('ESFMBible', next((os.path.join(a) for a, _, f in os.walk(out['toESFM']) if any(x.upper().endswith('.ESFM') for x in f)), None), ()),
         ('USXXMLBible', next((a for a, _, f in os.walk(out['toUSXXML']) if any(x.endswith('.usx') for x in f)), None), ()), ('PickledBible', out['toPickledBible'], ()), ('BCVBible', out['toBOSBCV'], ()), ('OSISXMLBible', osis, ())]
    for cls, folder, args in T:
        if folder is None or not os.listdir(folder): continue
        if cls in ('USFMBible', 'USFM2Bible', 'ESFMBible') and r.random() < .6:   # a book file without anything in it
            have = set(A.books); BBB = r.choice([x[0] for x in gen.BOOKS if x[0] not in have and x[2:]])
            tmp = ctx.tmpdir(); shutil.copytree(folder, tmp, dirs_exist_ok=True); folder = tmp
            fn = sorted(x for x in os.listdir(folder) if '.' in x and 'usfm' in x.lower() or 'esfm' in x.lower())
            if fn:
                a = fn[0]; one = next(b for b in A.books if G.loadedBibleBooksCodes.getUSFMAbbreviation(b).upper() in a.upper())
                nm = a.upper().replace(G.loadedBibleBooksCodes.getUSFMAbbreviation(one).upper(), G.loadedBibleBooksCodes.getUSFMAbbreviation(BBB).upper()); nm = re.sub(r'^\d\d', G.loadedBibleBooksCodes.getUSFMNumStr(BBB) if hasattr(G.loadedBibleBooksCodes, 'getUSFMNumStr') else '99', nm).replace('.USFM', '.usfm')
                open(os.path.join(folder, nm), 'w').write(r.choice(['', '\n', '\n\n'])); ctx.count('blank-book-files')
        C = getattr(importlib.import_module('BibleOrgSys.Formats.' + cls), cls); got = []
        for k in (1, n):
            G.maxProcesses = k
            try:
                with boot.quiet(): B = C(folder, *args); B.preload() if hasattr(B, 'preload') else None; B.loadBooks()
            finally: G.maxProcesses = 1
            ctx.check(not G.alreadyMultiprocessing, 'multiprocessing-flag-left-on', f'{cls} {k}', rep); G.alreadyMultiprocessing = False
            got.append(B)
        a, b = got; ctx.seen('parallel-load-format', (cls, i, n)); ctx.count('loads-' + cls)
        ctx.check(len(a.books) > 0 and list(a.books) == list(b.books), cls + '-book-order', lambda: f'{list(a.books)} {list(b.books)}', rep)
        ctx.check(obs.bibleSig(a) == obs.bibleSig(b), cls + '-loaded-differently', f'{n} processes', rep)
        for what in ('availableBBBs', 'BBBToNameDict', 'bookNameDict', 'combinedBookNameDict', 'name', 'abbreviation', 'suppliedMetadata', 'settingsDict'):
            x, y = [re.sub(r' at 0x\w+', '', repr(sorted(z.items(), key=repr) if isinstance(z, dict) else sorted(z) if isinstance(z, set) else z)) for z in (getattr(a, what, None), getattr(b, what, None))]
            ctx.check(x == y, f'{cls}-{what}-differs', lambda: f'{x[:300]} / {y[:300]}', rep)
        ctx.check(all(x.containerBibleObject is b for x in b.books.values()), cls + '-books-point-elsewhere', f'{n}', rep)
        with boot.quiet(): a.discover(); b.discover()
        ctx.check(a.discoveryResults == b.discoveryResults, cls + '-discovery-differs', f'{n}', rep)

def aligned(ctx, r, i, n):
    """An aligned (unfoldingWord) Bible: the alignments found by the worker processes arrive, and the Bible counts as aligned."""
    from BibleOrgSys.Formats.USFMBible import USFMBible
    from importlib.machinery import SourceFileLoader
    G = boot.G; X = SourceFileLoader('c13', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'C13.py')).load_module(); X._n[0] = i * 1000
    books = [X.Book(r, *x) for x in sorted(r.sample(X.BOOKS, r.choice([2, 3, 4])), key=lambda x: x[1])]; d = ctx.tmpdir('u')
    for b in books:
        with open(os.path.join(d, f'{b.num}-{b.code}.usfm'), 'w', encoding='utf8') as f: f.write('\n'.join(b.lines) + '\n')
    rep = {'usfm': ['\n'.join(b.lines) for b in books], 'processes': n}; got = []
    for k in (1, n):
        G.maxProcesses = k
        try:
            with boot.quiet(): B = USFMBible(d, 'XYZ', 'XYZ'); B.loadBooks()
        finally: G.maxProcesses = 1
        ctx.check(not G.alreadyMultiprocessing, 'multiprocessing-flag-left-on', f'aligned {k}', rep); G.alreadyMultiprocessing = False
        got.append(B)
    a, b = got; ctx.seen('parallel-load-aligned', (i, n))
    ctx.check(list(a.books) == list(b.books) and obs.bibleSig(a) == obs.bibleSig(b), 'aligned-loaded-differently', f'{n}', rep)
    ctx.check(getattr(a, 'uWencoded', None) == getattr(b, 'uWencoded', None), 'aligned-flag-differs', lambda: f"{getattr(a, 'uWencoded', None)} {getattr(b, 'uWencoded', None)}", rep)
    for BBB in a.books: ctx.check(getattr(a.books[BBB], 'uWalignments', None) == getattr(b.books[BBB], 'uWalignments', None), 'alignments-differ', BBB, rep)
    with boot.quiet(): a.discover(); b.discover()
    ctx.check(a.discoveryResults == b.discoveryResults, 'aligned-discovery-differs', f'{n}', rep); ctx.rmtree(d)
