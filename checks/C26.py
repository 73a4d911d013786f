"""HTML5, Markdown and TeX exports: well formed, every verse once with its words and notes, links that lead somewhere."""
import os, re, glob, zipfile
from bosv import exread, readers, exports, gen
FORMATS = ('html5', 'markdown', 'tex')
def more(ctx, fmt, o, m, B, tag, rp):
    if fmt == 'tex':
        a, b = readers.texAll(o)
        ctx.check(a == b, 'tex-all-books-file', lambda: f'{tag}: differs from the files of the books at {next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))}', rp)
    if fmt == 'html5':
        site = os.path.join(o, 'Website'); books = [b.bbb for b in m.books]
        pages = {f for f in os.listdir(site) if f.endswith('.html')}
        ctx.check(pages == {b + '.html' for b in books} | {'index.html', 'about.html'}, 'html5-pages', lambda: f'{tag}: {sorted(pages)}', rp)
        for p in pages:
            root, _ = readers.page(readers.slurp(os.path.join(site, p)))
            nav = [x for x in readers.allnodes(root) if x[1].get('class') in ('bookNameLink', 'currentBookName')]
            names = [(b.titles.get('toc1') or b.titles['h']) for b in m.books]
            ctx.check([readers.alltext(x) for x in nav] == names, 'html5-navigation', lambda: f'{tag} {p}: {[readers.alltext(x) for x in nav]} for {names}', rp)
            want = ['' if b + '.html' == p else b + '.html' for b in books]
            ctx.check([x[1].get('href', '') for x in nav] == want, 'html5-navigation', lambda: f'{tag} {p}: links {[x[1].get("href") for x in nav]}', rp)
            if p[:-5] in books:
                i = books.index(p[:-5]); near = [b + '.html' for b in ([books[i - 1]] if i else []) + (books[i + 1:i + 2])]
                got = [x[1].get('href') for x in readers.allnodes(root) if x[1].get('class') == 'bookNav' and '#' not in x[1].get('href', '')]
                ctx.check(got == near, 'html5-navigation', lambda: f'{tag} {p}: neighbours {got} for {near}', rp)
            ctx.count('pages')
    for z in glob.glob(o + '/**/*.zip', recursive=True):
        with zipfile.ZipFile(z) as zf:
            here = os.path.dirname(z); here = os.path.join(here, 'Website') if fmt == 'html5' else here
            if fmt == 'tex': continue
            want = sorted(f for f in os.listdir(here) if not f.endswith('.zip') and os.path.isfile(os.path.join(here, f)))
            ctx.check(sorted(zf.namelist()) == want, f'{fmt}-archive-members', lambda: f'{tag}: {zf.namelist()} for {want}', rp)
            for n in zf.namelist():
                with open(os.path.join(here, n), 'rb') as f: data = f.read()
                ctx.check(zf.read(n) == data, f'{fmt}-archive-content', f'{tag}: {n}', rp); ctx.count('archive-members')
NAMES = {'GEN': ['Genesis', 'Gen', 'GEN'], 'MAT': ['Matthew', 'Mat.', 'MAT', 'Mat'], 'MRK': ['Mark', 'MRK', 'Mark'], 'ROM': ['Romans', 'Rom', 'ROM'], 'JHN': ['John', 'JHN']}
def references(ctx):
    """Reference lines, levels of headings, end titles and outlines: what they say, and where their links go."""
    for i in ctx.cases(24, 300, 'refs'):
        r = ctx.rng('refs', i); n = [0]; d = ctx.tmpdir(); inside = r.sample(list(NAMES), r.choice([2, 3])); want = {}; src = {}
        def w(): n[0] += 1; return 'Zq' + ''.join(chr(97 + int(x)) for x in str(n[0] + 100))
        for b in inside:
            L = [f'\\id {b} - x', f'\\h {NAMES[b][0]}', f'\\mt1 {w()}']; E = want[b] = {'heads': [], 'refs': [], 'text': {}}; E['heads'].append(L[-1][5:])
            def head(mk, t): L.append(f'\\{mk} {t}'); E['heads'].append(t)
            if r.random() < .5:
                head('iot', w())
                for j in range(r.randint(1, 3)):
                    c, v, c2, v2 = r.randint(1, 150), r.randint(1, 176), r.randint(2, 20), r.randint(1, 30)
                    t = w(); a, z = f'{t} ', ''
                    ref = r.choice([f'{c}:{v}', f'{c}:{v}-{c2}:{v2}', f'{c}:{v}–{v2}', ''])
                    ior = r.random() < .6
                    L.append(f'\\io{r.choice([1, 2])} {a}' + (f'\\ior {ref}\\ior*' if ior and ref else ref)); E['heads'].append((a + ref).strip())
                    if ref: E['refs'].append((f'{c}:{v}', f'#C{c}V{v}'))
            for c in range(1, r.randint(2, 4)):
                L.append(f'\\c {c}')
                for v in range(1, r.randint(2, 5)):
                    if r.random() < .5:
                        if r.random() < .3:
                            for k in range(1, r.randint(2, 5)): head(f'ms{k}', w())
                        head('s' + r.choice('1123'), w())
                        if r.random() < .8:
                            o, z = r.choice([('(', ')'), ('[', ']'), ('', '')]); parts = []; B0 = None
                            for j in range(r.randint(1, 4)):
                                cc, vv = r.randint(1, 12), r.randint(1, 20)
                                if not j or r.random() < .6: B0 = r.choice(list(NAMES)); name = r.choice(NAMES[B0]) + ' '
                                else: name = ''
                                t = f'{name}{cc}:{vv}' + r.choice(['', '', '', '-' + str(vv + 3), ',' + str(vv + 2)] + ['a'] * (j > 0))
                                parts.append(t)
                                if B0 in inside: E['refs'].append((t, f'{B0}.html#C{cc}V{vv}'))
                            head('r', o + '; '.join(parts) + z)
                        elif r.random() < .5: head(r.choice(['r', 'mr']), r.choice([f'x_y to {w()}… ${c}', f'{w()} {c}', f'x_y {c}:{v},{v + 1}'])) # no reference
                    L.append(r.choice(['\\p', '\\q1', '\\m'])); x, y = w(), w()
                    note = r.choice(['', f'\\f + \\fl {w()} \\fr {c}:{v} \\ft {w()}\\f*', f'\\f + \\fr {c}:{v} \\fq {w()} \\ft {w()}\\f*'])
                    L.append(f'\\v {v} {x}{note} {y}.'); E['text'][(b, str(c), str(v))] = f'{x} {y}.'
                    if r.random() < .15: L.append('\\b')
            for k in r.choice([[], [1], [2, 1]]): head(f'mte{k}', w())
            src[b] = '\n'.join(L) + '\n'
            with open(os.path.join(d, f'{b}XYZ.usfm'), 'wt', encoding='utf-8') as f: f.write(src[b])
        B = gen.loadUSFMq(d, 'XYZ'); rp = {'case': i, 'usfm': src}
        for fmt in ('html5', 'markdown'):
            o = ctx.tmpdir(); tag = f'{fmt} references {i}'
            try: exports.run(B, exread.EXP[fmt], o); R = getattr(readers, fmt)(o)
            except Exception as e: ctx.violation(f'{fmt}-references-fail', f'{tag}: {type(e).__name__} {e}', rp); ctx.rmtree(o); continue
            for p in R.problems[:3]: ctx.violation(f'{fmt}-' + str(p[0]).replace(' ', '-'), f'{tag}: {p}', rp)
            for b in inside:
                E = want[b]; sq = lambda L: re.sub(r'[\s#]', '', ''.join(L)) if fmt == 'html5' else re.sub(r'[\s#\[\]]', '', ''.join(L))
                got = [h[-1] for h in R.heads if h[0] == b]
                ctx.check(sq(got) == sq(E['heads']), f'{fmt}-heading-text', lambda: f'{tag} {b}: {E["heads"]} became {got}', rp); ctx.count('reference-headings', len(got))
                for k, t in E['text'].items(): ctx.check(k in R.text and R.text[k].split() == t.split(), f'{fmt}-reference-case-text', lambda: f'{tag} {k}: {t!r} became {R.text.get(k)!r}', rp)
                if fmt == 'html5':
                    got = [(readers.alltext(x).strip(), x[1].get('href')) for x in readers.allnodes(R.pages[b + '.html']) if x[1].get('class') in ('sectionCrossReferenceLink', 'CVReference')]
                    ctx.check(got == E['refs'], 'html5-reference-links', lambda: f'{tag} {b}: {[x for x in E["refs"] if x not in got][:4]} became {[x for x in got if x not in E["refs"]][:4]}', rp); ctx.count('reference-links', len(got))
            ctx.rmtree(o)
        ctx.rmtree(d)
def run(ctx):
    ctx.need('reference-links', 60); ctx.need('reference-headings', 200)
    references(ctx)
    ctx.rule = 'a generated Bible with any mix of markup, exported to the formats for reading and read back by an HTML tree, Markdown line and TeX group reader'
    for f in FORMATS: ctx.need('read-' + f, 60); ctx.need('verses-' + f, 200); ctx.need('notes-' + f, 100); ctx.need('heading-words-' + f, 100)
    ctx.need('pages', 100)
    exread.runFormats(ctx, FORMATS, 80, 2000, more)
