"""C47 -- reference tables are the same from XML, a pickle, JSON and exported Python; an outdated pickle is not used."""
import os, glob, json, pickle, shutil, importlib, pathlib
from argparse import Namespace
from bosv import boot
from checks.C42 import call, source as vsource
from checks.C45 import source as osource
from checks.C46 import source as usource, numbered

R = 'BibleOrgSys.Reference.'
MODS = {'BibleVersificationSystems': 'BibleVersificationSystems', 'BibleBookOrders': 'BibleBookOrderSystems', 'BiblePunctuationSystems': 'BiblePunctuationSystems', 'BibleBooksNames': 'BibleBooksNamesSystems', 'BibleOrganisationalSystems': 'BibleOrganisationalSystems',
        'USFM2Markers': 'USFM2Markers', 'USFM3Markers': 'USFM3Markers', 'ISO_639_3_Languages': 'ISO_639_3_Languages', 'BibleBooksCodes': 'BibleBooksCodes'}
FOLDERS = list(MODS)[:4]           # these have a folder of XML files
XML = {'BibleOrganisationalSystems': 'BibleOrganisationalSystems.xml', 'USFM2Markers': 'USFM2Markers.xml', 'USFM3Markers': 'USFM3Markers.xml', 'ISO_639_3_Languages': 'iso_639_3.xml', 'BibleBooksCodes': 'BibleBooksCodes.xml'}
TABLE = {'ISO_639_3_Languages': 'iso_639_3_Languages_Tables'}
# a value of the tables which is changed in pickles to see whether they were used
DOCTOR = {'BibleOrganisationalSystems': ('King James Version', 'Doctored'), 'USFM2Markers': ('File identification', 'Doctored'), 'USFM3Markers': ('File identification', 'Doctored'), 'ISO_639_3_Languages': ('Esperanto', 'Doctored'), 'BibleBooksCodes': ('Gen', 'Doctored'),
          'BibleVersificationSystems': ('150', '9149'), 'BibleBookOrders': ('GEN', 'ZZ9'), 'BiblePunctuationSystems': ('Y', 'D'), 'BibleBooksNames': ('Genesis', 'Doctored')}

def plain(x):
    if isinstance(x, dict): return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [plain(v) for v in x]
    if isinstance(x, (set, frozenset)): return sorted(map(str, x))
    return x

def doctor(x, a, b):
    if isinstance(x, dict): return {doctor(k, a, b): doctor(v, a, b) for k, v in x.items()}
    if isinstance(x, list): return [doctor(v, a, b) for v in x]
    if isinstance(x, tuple): return tuple(doctor(v, a, b) for v in x)
    return b if x == a else x

def snapshot(mod, o, G):
    """All that the object says about its tables, by its public functions."""
    s = {}
    if mod == 'BibleVersificationSystems':
        for n in o.getAvailableVersificationSystemNames():
            d = o.getVersificationSystem(n); s[n] = {k: d[k] for k in ('CV', 'omitted', 'combined', 'reordered')}
            for k in ('omitted', 'combined', 'reordered'): assert all(type(e) is tuple for l in d[k].values() for e in l), 'not tuples'
    elif mod == 'BibleBookOrders':
        for n in o.getAvailableBookOrderSystemNames():
            a, b, c = o.getBookOrderSystem(n); assert all(type(k) is int for k in b), 'numbers as text'
            s[n] = [a, b, c, o.getBookOrderList(n)]
    elif mod == 'BiblePunctuationSystems':
        for n in o.getAvailablePunctuationSystemNames(): s[n] = o.getPunctuationSystem(n)
    elif mod == 'BibleBooksNames':
        for n in o.getAvailableBooksNamesSystemNames(): s[n] = o.getBooksNamesSystem(n)[:3]
    elif mod == 'BibleOrganisationalSystems':
        for n in o.getAvailableOrganisationalSystemNames(): s[n] = o.getOrganisationalSystem(n)
        s['+'] = o.getAvailableOrganisationalSystemNames(extended=True)
    elif mod[:4] == 'USFM':
        for m in o.getNewlineMarkersList('Combined') + [f'{m}{k}' for m in o.getInternalMarkersList() + o.getNoteMarkersList() for k in ('', 1, 2, 3, 4, 5)]:
            if m in o: s[m] = [f(m) for f in (o.isNewlineMarker, o.isInternalMarker, o.isNoteMarker, o.isDeprecatedMarker, o.isCompulsoryMarker, o.isNumberableMarker, o.isNestingMarker, o.isPrinted, o.getMarkerClosureType, o.getMarkerContentType, o.toRawMarker, o.toStandardMarker, o.markerOccursIn, o.getMarkerEnglishName, o.getMarkerDescription)]
        s['+'] = [o.getNewlineMarkersList(x) for x in ('Raw', 'Numbered', 'Combined', 'CanonicalText')] + [o.getInternalMarkersList(), o.getNoteMarkersList(), o.getCharacterMarkersList(expandNumberableMarkers=True), o.getOccursInList(), [o[i] for i in range(150)], len(o)]
    elif mod == 'ISO_639_3_Languages':
        for a in 'abcdefghijklmnopqrstuvwxyz':
            for b in 'abcdefghijklmnopqrstuvwxyz':
                for c in 'abcdefghijklmnopqrstuvwxyz':
                    if o.isValidLanguageCode(a + b + c): s[a + b + c] = [f(a + b + c) for f in (o.getLanguageName, o.getScope, o.getType, o.getPart1Code, o.getPart2Code)]
        s['+'] = {v[0]: o.getLanguageCode(v[0]) for v in s.values()}; s['len'] = len(o)
    else:
        for B in o.getAllReferenceAbbreviations():
            s[B] = [getattr(o, f)(B) for f in ('getReferenceNumber', 'getSequenceList', 'getShortAbbreviation', 'getSBLAbbreviation', 'getOSISAbbreviation', 'getSwordAbbreviation', 'getUSFMAbbreviation', 'getUSXNumStr', 'getUnboundCode', 'getBibleditNumStr', 'getNETBibleAbbreviation', 'getDrupalBibleAbbreviation', 'getByzantineAbbreviation', 'getExpectedChaptersList', 'getEnglishName_NR', 'getTypicalSection') if f != 'getSequenceList' and hasattr(o, f)]
        s['+'] = [o.getSequenceList(), o.getAllUSFMBooksCodeNumberTriples(), o.getSingleChapterBooksList(), len(o)]
    return plain(s)

def has(x, v):
    if isinstance(x, dict): return any(has(k, v) or has(y, v) for k, y in x.items())
    if isinstance(x, list): return any(has(y, v) for y in x)
    return x == v

def run(ctx):
    G = boot.boot(); G.commandLineArguments = Namespace(export=False)
    ctx.rule = 'each kind of table loaded from its XML source, a pickle and a JSON file written from it, and the pickle in the repository, with and without each other and with older and newer times; everything the loaded object says compared; exported Python files executed and compared with the XML sources as read by the check; distinct = distinct (table, way, entry)'
    for k, n in (('xml', 8000), ('pickle', 8000), ('json', 200), ('standard', 50), ('python', 8000), ('old-pickle', 5), ('new-pickle', 5), ('written', 20)): ctx.need(k, n)
    D0 = G.BOS_DERIVED_DATAFILES_FOLDERPATH; X0 = G.BOS_DATAFILES_FOLDERPATH

    def load(mod, cls, folder):
        """Loads the tables afresh with the given folder of derived files."""
        G.BOS_DERIVED_DATAFILES_FOLDERPATH = pathlib.Path(folder)
        try:
            with boot.quiet():
                try:
                    importlib.reload(importlib.import_module(f'{R}Converters.{mod}Converter')); m = importlib.reload(importlib.import_module(R + mod)); o = getattr(m, cls)().loadData()
                    return snapshot(mod, o, G)
                except (Exception, SystemExit) as e: return '!' + repr(e)
        finally: G.BOS_DERIVED_DATAFILES_FOLDERPATH = D0

    def same(mod, how, got, want):
        if isinstance(got, str): return ctx.violation(f'load-{how}', f'{mod}: {got}', (mod, how))
        for k in want: ctx.seen(how, (mod, k))
        if got != want:
            k = [x for x in list(want) + list(got) if got.get(x) != want.get(x)]; ctx.violation(f'differs-{how}', f'{mod} entries {k[:5]}: {str(got.get(k[0]))[:200]} / {str(want.get(k[0]))[:200]}', (mod, how))
        else: ctx.check(True, 'same', lambda: '', None)

    for mod, cls in MODS.items():
        base = TABLE.get(mod, mod + '_Tables'); tmp = ctx.tmpdir()
        def sub(n): d = os.path.join(tmp, n); os.makedirs(d); return d
        xml = load(mod, cls, sub('empty'))
        if isinstance(xml, str): ctx.violation('load-xml', f'{mod}: {xml}', mod); continue
        same(mod, 'xml', xml, xml)
        # the files which the converter writes
        with boot.quiet():
            m = importlib.reload(importlib.import_module(f'{R}Converters.{mod}Converter')); out = sub('out'); conv = None; err = {}
            try:
                conv = getattr(m, f'{mod}Converter')(); (conv.loadSystems if hasattr(conv, 'loadSystems') else conv.loadAndValidate)()
            except (Exception, SystemExit) as e: err['load'] = repr(e)
            for f, ext in (('pickle', 'pickle'), ('exportDataToJSON', 'json')) + ((('exportDataToPython', 'py'),) if mod not in ('BibleBooksNames', 'BibleBooksCodes') else ()):
                try: getattr(conv, f)(os.path.join(out, f'{base}.{ext}'))
                except (Exception, SystemExit) as e: err[ext] = repr(e)
        ctx.check(not err, 'export', lambda: f'{mod}: {err}', mod)
        for f in os.listdir(out): ctx.seen('written', (mod, f))
        pk = os.path.join(out, base + '.pickle'); js = os.path.join(out, base + '.json')
        if not os.path.exists(pk) or not os.path.exists(js): continue
        def put(n, *files):
            d = sub(n)
            for f in files: shutil.copy(f, os.path.join(d, os.path.basename(f)))
            return d
        same(mod, 'pickle', load(mod, cls, put('p', pk)), xml)
        same(mod, 'pickle', load(mod, cls, put('pj', pk, js)), xml)
        if mod in FOLDERS + ['BibleBooksCodes']: same(mod, 'json', load(mod, cls, put('j', js)), xml)
        if mod in FOLDERS: same(mod, 'standard', load(mod, cls, D0), xml)
        # changed pickles, newer and older than the source
        a, b = DOCTOR[mod]; bad = os.path.join(sub('bad'), base + '.pickle'); objs = []
        with open(pk, 'rb') as f:
            while True:
                try: objs.append(pickle.load(f))
                except EOFError: break
        with open(js, encoding='utf-8') as f: J = json.load(f)
        ctx.check(plain(J) == plain(objs[0]), 'json-content', lambda: f'{mod}: the JSON and pickle files which were written differ', mod)
        with open(bad, 'wb') as f:
            for x in objs: pickle.dump(doctor(x, a, b), f)
        if has(xml, b): ctx.violation('source-value', f'{mod}: {b!r} is in the tables', mod); continue
        g = load(mod, cls, put('new', bad)); ctx.seen('new-pickle', mod); ctx.check(isinstance(g, dict) and has(g, b), 'new-pickle', lambda: f'{mod}: a newer pickle is not used ({str(g)[:100]})', mod)
        if mod in XML:
            for how, files in (('old', [bad]), ('oldj', [bad, js])):
                d = put(how, *files); src = os.stat(X0 / XML[mod]).st_mtime
                for f in os.listdir(d): os.utime(os.path.join(d, f), (src - 100, src - 100))
                g = load(mod, cls, d); ctx.seen('old-pickle', (mod, how)); ctx.check(g == xml, 'old-pickle', lambda: f'{mod}: a pickle older than its source is used ({isinstance(g, str) and g})', (mod, how))
        # exported Python against the sources
        py = os.path.join(out, base + '.py')
        if os.path.exists(py):
            ns = {}
            try:
                with open(py, encoding='utf-8') as f: exec(compile(f.read(), py, 'exec'), ns)
            except (Exception, SyntaxError) as e: ctx.violation('python-file', f'{mod}: {e!r}', mod); continue
            python(ctx, mod, ns, X0)
        ctx.rmtree(tmp)

def python(ctx, mod, ns, X0):
    def eq(name, got, want):
        for k in want: ctx.seen('python', (mod, name, str(k)))
        bad = [k for k in dict.fromkeys(list(got) + list(want)) if got.get(k) != want.get(k)] if isinstance(got, dict) else got
        ctx.check(isinstance(got, dict) and not bad, 'python', lambda: f'{mod} {name}: {str(bad)[:100]} {str([(got.get(k), want.get(k)) for k in bad[:1]])[:300] if isinstance(got, dict) else ""}', (mod, name))
    if mod == 'BibleVersificationSystems':
        src = vsource(X0 / 'VersificationSystems'); got = {(n, B): {k: int(v) for k, v in d.items()} for n, s in ns['chapterVerseDict'].items() for B, d in s.items()}
        eq('chapters', got, {(n, B): {('numChapters' if k == 'n' else k): v for k, v in d.items()} for n, (s, _) in src.items() for B, d in s.items()})
        eq('omitted', {(n, B): l for n, s in ns['omittedVersesDict'].items() for B, l in s.items()}, {(n, B): l for n, (_, om) in src.items() for B, l in om.items()})
    elif mod == 'BibleBookOrders':
        import xml.etree.ElementTree as ET
        src = {os.path.basename(f)[15:-4]: {int(e.get('id')): e.text for e in ET.parse(f).getroot().findall('book')} for f in glob.glob(str(X0 / 'BookOrders' / 'BibleBookOrder_*.xml'))}
        eq('numbers', ns['idDataDict'], src); eq('books', ns['bookDataDict'], {n: {B: i for i, B in d.items()} for n, d in src.items()})
    elif mod == 'BiblePunctuationSystems':
        import xml.etree.ElementTree as ET
        src = {}
        for f in glob.glob(str(X0 / 'PunctuationSystems' / 'BiblePunctuationSystem_*.xml')):
            src[os.path.basename(f)[23:-4]] = {e.tag: e.text or '' for e in ET.parse(f).getroot() if e.tag != 'header'}
        got = ns['bookDataDict']; eq('systems', {n: {k: v for k, v in d.items()} for n, d in got.items()}, {n: {k: v if isinstance(got.get(n, {}).get(k), (str, type(None))) else [v] for k, v in d.items()} for n, d in src.items()})
    elif mod == 'BibleOrganisationalSystems':
        D, I = osource(X0 / 'BibleOrganisationalSystems.xml'); eq('systems', ns['dataDict'], D); eq('index', {k: sorted(v) for k, v in ns['indexDict'].items()}, {k: sorted(v) for k, v in I.items()})
        eq('combined', {k: sorted(v) for k, v in ns['combinedIndexDict'].items()}, {**{n: [n] for n in D}, **{k: sorted(set(v)) for k, v in I.items()}})
    elif mod[:4] == 'USFM':
        M = usource(X0 / f'{mod}.xml'); nums = {m: [numbered(m, k) for k in range(1, int(d['highestNumberSuffix']) + 1)] if d['highestNumberSuffix'] != 'None' else [] for m, d in M.items()}
        eq('raw', ns['rawMarkerDict'], {m: {'compulsoryFlag': d['compulsory'] == 'Yes', 'level': d['level'], 'highestNumberSuffix': d['highestNumberSuffix'], 'nestsFlag': d['nests'] == 'Yes', 'hasContent': d['hasContent'], 'occursIn': d['occursIn'], 'printedFlag': d['printed'] == 'Yes', 'closed': d['closed'], 'deprecatedFlag': d['deprecated'] == 'Yes', 'description': d.get('description'), 'nameEnglish': d['nameEnglish']} for m, d in M.items()})
        eq('combined', ns['combinedMarkerDict'], {**{m: m for m in M}, **{x: m for m, l in nums.items() for x in l}}); eq('conversion', ns['conversionDict'], {m: l[0] for m, l in nums.items() if l}); eq('back', ns['backConversionDict'], {x: m for m, l in nums.items() for x in l})
        p = [x for m in M for x in nums[m] or [m]]; lv = {x: M[m]['level'] for m in M for x in nums[m] + [m]}
        for name, w in (('numberedMarkerList', p), ('newlineMarkersList', [m for m in M if lv[m] == 'Newline']), ('numberedNewlineMarkersList', [x for x in p if lv[x] == 'Newline']), ('internalMarkersList', [m for m in M if lv[m] == 'Internal']), ('noteMarkersList', [m for m in M if lv[m] == 'Note']), ('combinedNewlineMarkersList', [x for m in M if lv[m] == 'Newline' for x in [m] + nums[m]])):
            g = ns.get(name); ctx.seen('python', (mod, name)); ctx.check(g == w, 'python', lambda: f'{mod} {name}: {str(g)[:100]}', (mod, name))
    elif mod == 'ISO_639_3_Languages':
        import xml.etree.ElementTree as ET
        E = list(ET.parse(X0 / 'iso_639_3.xml').getroot()); a, b = [v for k, v in sorted(ns.items()) if k.startswith('ISO639')]
        eq('codes', a, {e.get('id'): (e.get('name'), e.get('scope'), e.get('type'), e.get('part1_code'), e.get('part2_code')) for e in E}); eq('names', b, {e.get('name').upper(): e.get('id') for e in E})
