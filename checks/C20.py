"""USFM exports load back as the same Bible and export again as the same files."""
import ast, os, re
from bosv import boot, gen, obs, exports, real, rich

def sig(book):
    """Everything but the marker as it was typed (s for s1) and the version line, which the USFM 3 export adds.
    A note on a verse number is held twice (with the number and with the text); the export has it once, with the text."""
    return [(s[0],) + s[2:] if s[0] != 'v' else ('v', s[2]) for s in obs.bookSig(book) if s[0] != 'usfm']

STR = re.compile(r'\\str .+?\\str\*')
def sigDense(book):
    """The exports leave Strongs markers (not USFM) out; a one-chapter book without a chapter line gets one."""
    out = []
    for m, o, adj, clean, ex, full in obs.bookSig(book):
        if m in ('usfm', 'c#'): continue
        out.append(('v', adj) if m == 'v' else (m, adj, clean, tuple(x for x in ex or () if x[0] != 'str'), STR.sub('', full or '')))
    return out

def usfmFiles(folder): return {f: open(os.path.join(folder, f), newline='').read() for f in os.listdir(folder) if f.endswith('.usfm')}

def keepOnly(folder, ext):
    for f in os.listdir(folder):
        if not f.endswith(ext): os.unlink(os.path.join(folder, f))

def place(text):
    """Tokens by chapter and verse in a marker-per-line file."""
    C, V = '-1', '0'; out = {}
    for l in text.split('\n'):
        l = l.strip()
        m = re.match(r'(\\c|c =) \'?(\d+)', l)
        if m: C, V = m.group(2), '0'
        m = re.match(r'(\\v|v =) \'?([\d\-ab]+)', l)
        if m: V = m.group(2)
        if l.startswith('\\rem') or l.startswith('rem'): continue
        t = gen.tokens(l)
        if t: out.setdefault((C, V), []).extend(t)
    return out

def roundTrip(ctx, B, name, rep, tag, sig=sig):
    """Export, load the export, compare, export again."""
    o = ctx.tmpdir('o'); ok = exports.run(B, name, o); ctx.check(ok, 'export-fails:' + name, lambda: tag, rep)
    f1 = usfmFiles(o); t = exports.tree(o)
    for k in t:
        if '!' in k and k.endswith('.usfm'):
            ctx.check(t[k].replace('\r\n', '\n') == f1[k.split('!')[-1]].replace('\r\n', '\n'), 'archive-differs:' + name, lambda: k, rep); ctx.count('archived-files')
    for f in os.listdir(o):
        if not f.endswith('.usfm'): h = open(os.path.join(o, f), 'rb').read(4); ctx.check(next((e for e, s in (('.zip', b'PK'), ('.gzip', b'\x1f\x8b'), ('.bz2', b'BZh')) if h.startswith(s)), None) == f[f.rindex('.'):], 'archive-of-another-kind', lambda: f'{f} {h}', rep)
    n = {e: len([k for k in t if k.split('!')[0].endswith(e)]) for e in ('.zip', '.gzip', '.bz2')}
    ctx.check(set(n.values()) == {len(f1)}, 'archive-incomplete:' + name, lambda: f'{n} {len(f1)}', rep)
    ctx.check(all('\n' not in x.replace('\r\n', '') for x in f1.values()), 'line-endings', lambda: name, rep)
    keepOnly(o, '.usfm'); R = gen.loadUSFMq(o)
    ctx.check(list(R.books) == list(B.books), 'books:' + name, lambda: f'{list(R.books)} {list(B.books)}', rep)
    for x in B.books:
        if x not in R.books: continue
        a, e = sig(R.books[x]), sig(B.books[x]); ctx.seen('round-trip', (tag, name, x))
        ctx.count('lines-compared', len(e))
        d = next((i for i, (p, q) in enumerate(zip(a, e)) if p != q), None)
        ctx.check(a == e, 'differs-after-reload:' + name, lambda: f'{tag} {x} line {d}: {a[d] if d is not None else len(a)} / {e[d] if d is not None else len(e)}', rep)
        if name == 'toUSFM3':
            u = [s for s in obs.bookSig(R.books[x]) if s[0] == 'usfm']
            ctx.check(len(u) == 1, 'version-line', lambda: f'{x}: {u}', rep)
    o2 = ctx.tmpdir('o'); exports.run(R, name, o2); f2 = usfmFiles(o2)
    f1, f2 = [{k: x for k, x in f.items() if k in f1 and f1[k].startswith('\\id ')} for f in (f1, f2)]   # (one shipped file has a remark ahead of its id line)
    ctx.check(f2 == f1, 'not-a-fixpoint:' + name, lambda: f'{tag} {[k for k in f1 if f1[k] != f2.get(k)]}', rep); ctx.seen('fixpoint', (tag, name))
    ctx.rmtree(o); ctx.rmtree(o2)
    return R

def wholeLines(ctx, name, text, bk, rep):
    """Every line of the book which has text, with all its words, in order."""
    es = list(bk)
    if name == 'toESFM':
        want = []; got = []
        for e in es:
            mk, tx = e.getMarker(), e.getFullText()
            if not tx or mk in ('ide', 'rem', 'c#', 'vp#'): continue
            mk = 'cl' if mk == 'cl¤' else mk
            want += ([] if mk[-1] == '~' else ['\\' + mk]) + tx.split()
        for l in text.split('\n'):
            w = l.split()
            if not w or w[0] in ('\\ide', '\\rem') or len(w) == 1 and w[0][0] == '\\' and w[0][-1] != '*': continue
            got += w
    else:
        want = [(e.getMarker(), [x for x in (e.getAdjustedText(), e.getCleanText() if e.getCleanText() and e.getCleanText() != e.getAdjustedText() else None) if x is not None]) for e in es]; got = []
        for l in text.split('\n'):
            l = l.strip()
            if not l: continue
            mk, _, rest = l.partition(' ='); rest = rest.strip(); v = []
            while rest and rest[0] in '\'"':
                m = re.match(r"""('(?:[^'\\]|\\.)*'|"(?:[^"\\]|\\.)*")\s*""", rest)
                v.append(ast.literal_eval(m[1])); rest = rest[m.end():]
            got.append((mk, v))
    ctx.count('lines-of-other-forms', len(want))
    ctx.check(got == want, 'lines:' + name, lambda: f'{bk.BBB} {next(((a, b) for a, b in zip(got, want) if a != b), (len(got), len(want)))}', rep)

def run(ctx):
    ctx.rule = 'export to USFM 2, USFM 3, ESFM and pseudo-USFM of generated, densely marked and shipped Bibles, loaded back and exported again; also with verse bridges removed; distinct = distinct (Bible, export, book)'
    ctx.need('round-trip', 150); ctx.need('fixpoint', 80); ctx.need('unbridged-verse', 25); ctx.need('other-forms', 60); ctx.need('dense', 40)
    for n, B in real.usfm():
        for name in ('toUSFM2', 'toUSFM3'): roundTrip(ctx, B, name, {'bible': n}, n)
    for i in ctx.cases(30, 600):   # dense ones: every inline construct next to every other
        r = ctx.rng('d', i); b, u, B, bk = rich.load(ctx, r)
        for name in ('toUSFM2', 'toUSFM3'): roundTrip(ctx, B, name, {'usfm': u}, ('d', i), sigDense); ctx.seen('dense', (i, name))
    for i in ctx.cases(60, 900):
        r = ctx.rng('u', i); m = gen.bible(r, gen.ALLFEATS | {'bare'}, nBooks=r.choice([1, 2, 3]), maxVerses=r.choice([3, 6, 9])); d = ctx.tmpdir()
        if r.random() < .3:
            for b in m.books:   # the version line may also follow the encoding line
                if '\\usfm 3.0' in b.lines and '\\ide UTF-8' in b.lines: b.lines.remove('\\usfm 3.0'); b.lines.insert(b.lines.index('\\ide UTF-8') + 1, '\\usfm 3.0')
        gen.writeUSFM(m, d); B = gen.loadUSFMq(d); rep = {'usfm': [b.usfm for b in m.books]}
        for name in ('toUSFM2', 'toUSFM3'): roundTrip(ctx, B, name, rep, i)
        # and over: USFM 2 out, in, USFM 3 out, in
        if i % 4 == 0:
            o = ctx.tmpdir('o'); exports.run(B, 'toUSFM2', o); keepOnly(o, '.usfm'); roundTrip(ctx, gen.loadUSFMq(o), 'toUSFM3', rep, (i, 'chain')); ctx.rmtree(o)
        # bridges removed
        name = r.choice(['toUSFM2', 'toUSFM3']); o = ctx.tmpdir('o'); exports.run(B, name, o, removeVerseBridges=True); keepOnly(o, '.usfm'); R = gen.loadUSFMq(o); ctx.rmtree(o)
        for b in m.books:
            T, S = obs.verseTexts(R.books[b.bbb]), obs.verseTexts(B.books[b.bbb])
            want = {}
            for (c, v), t in S.items():
                if '-' in v:
                    x, y = map(int, v.split('-')); want[(c, str(x))] = t
                    for k in range(x + 1, y + 1): want[(c, str(k))] = []; ctx.seen('unbridged-verse', (i, b.bbb, c, k))
                else: want[(c, v)] = t
            ctx.check(dict(T) == want and list(T) == list(want), 'bridges-removed:' + name, lambda: f'{b.bbb} {[(k, want.get(k), T.get(k)) for k in list(want) + list(T) if want.get(k) != T.get(k)][:3] or (list(T), list(want))}', rep)
        # ESFM and pseudo-USFM: the same words at the same places
        for name, ext in (('toESFM', '.ESFM'), ('toPseudoUSFM', '.pSFM')):
            o = ctx.tmpdir('o'); exports.run(B, name, o); fs = sorted(f for f in os.listdir(o) if f.endswith(ext))
            ctx.check(len(fs) == len(m.books), 'files:' + name, lambda: f'{fs}', rep)
            for b in m.books:
                code = m.pool[b.bbb][1] if name == 'toESFM' else '_' + b.bbb + '_'
                f = next((f for f in fs if code in f), None)
                if not ctx.check(f is not None, 'file-missing:' + name, lambda: f'{b.bbb} {fs}', rep): continue
                p, src = place(open(os.path.join(o, f), encoding='utf-8-sig').read()), place(b.usfm); ctx.seen('other-forms', (i, name, b.bbb))
                if name == 'toPseudoUSFM': p = {k: [t for j, t in enumerate(v) if t not in v[:j]] for k, v in p.items()}   # both the marked-up and the clean text are on each line
                if name == 'toPseudoUSFM': p, src = [{k: sorted(v) for k, v in z.items()} for z in (p, src)]
                wholeLines(ctx, name, open(os.path.join(o, f), encoding='utf-8-sig').read(), B.books[b.bbb], rep)
                ctx.check(p == src, 'words:' + name, lambda: f'{b.bbb} {[(k, p.get(k), src.get(k)) for k in set(p) | set(src) if p.get(k) != src.get(k)][:3]}', rep)
            ctx.rmtree(o)
        ctx.rmtree(d)
