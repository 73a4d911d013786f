"""Value types of the internal representation behave like values and lists; attribute strings parse to what was written."""
import re
from bosv import boot, gen, obs

def run(ctx):
    from BibleOrgSys.Internals.InternalBibleInternals import (InternalBibleExtra, InternalBibleExtraList, InternalBibleEntry, InternalBibleEntryList,
        getLeadingInt, parseWordAttributes, parseFigureAttributes, BOS_EXTRA_TYPES)
    ctx.rule = 'random histories of list operations mirrored on Python lists; equality laws on random pairs; attribute strings rendered then parsed; distinct = distinct histories / strings'
    for p in ('list-op', 'equality', 'word-attributes', 'figure-attributes', 'leading-int'): ctx.need(p, 200)
    def extra(r, w): return InternalBibleExtra(r.choice(BOS_EXTRA_TYPES[:4]), r.randrange(5), w.words(1), w.words(1), 'x')
    def fields(x): return (x.getType(), x.getIndex(), x.getText(), x.getCleanText())
    def efields(e): return (e.getMarker(), e.getOriginalMarker(), e.getAdjustedText(), e.getCleanText(), None if e.getExtras() is None else [fields(x) for x in e.getExtras()], e.getOriginalText())
    for i in ctx.cases(300):
        r = ctx.rng('h', i); w = gen.W(r)
        words = [w.words(1) for _ in range(3)]
        def entry(rich=True):
            if r.random() < .15: return InternalBibleEntry('¬' + r.choice(['v', 'c', 'p']), None, None, '', None, None)
            ex = None
            if rich and r.random() < .5:
                ex = InternalBibleExtraList([InternalBibleExtra(r.choice(['fn', 'xr']), r.randrange(2), words[0], words[1], 'l') for _ in range(r.choice([1, 1, 2]))])
            t = r.choice(words)
            return InternalBibleEntry(r.choice(['v~', 'p~', 's1']), r.choice(['v', 'p']), t, r.choice([t, words[0]]), ex, r.choice([t, words[1]]))
        # equality: exactly equality of all the fields
        es = [entry() for _ in range(8)]
        for a in es:
            for b in es:
                want = efields(a) == efields(b)
                ctx.seen('equality', repr((efields(a), efields(b))))
                ctx.check((a == b) is want and (a != b) is not want, 'entry-equality', lambda: f'{efields(a)} == {efields(b)} gave {a == b}')
                if a.getExtras() is not None and b.getExtras() is not None:
                    xa, xb = a.getExtras(), b.getExtras(); want = [fields(x) for x in xa] == [fields(x) for x in xb]
                    ctx.check((xa == xb) is want and (xa != xb) is not want, 'extras-equality', lambda: f'{xa} {xb}')
                    ctx.check((xa[0] == xb[0]) is (fields(xa[0]) == fields(xb[0])), 'extra-equality', lambda: f'{xa[0]} {xb[0]}')
        ctx.check(es[0] != 'x' and not (es[0] == 5) and InternalBibleExtra('fn', 0, 'a', 'a', 'x') != 3, 'equality-with-other-types', '')
        for e in es:
            ctx.check([e[k] for k in range(6)] == [e.getMarker(), e.getOriginalMarker(), e.getAdjustedText(), e.getCleanText(), e.getExtras(), e.getOriginalText()] and len(e) == 6 and len(list(e)) == 6, 'entry-as-sequence', lambda: repr(e))
        # histories on both list classes, mirrored on plain lists
        for kind in (0, 1):
            mk = (lambda: entry()) if kind == 0 else (lambda: extra(r, w))
            Cls = InternalBibleEntryList if kind == 0 else InternalBibleExtraList
            n0 = [mk() for _ in range(r.randrange(4))]
            real = Cls(list(n0)) if r.random() < .7 or not n0 else Cls(Cls(n0)); model = list(n0)
            others = []
            for step in range(r.randint(5, 25)):
                op = r.choice(['append', 'extend', 'pop', 'slice', 'index', 'iter', 'add', 'iadd', 'contains', 'forindex', 'copy', 'bad', 'str'])
                if op == 'append': x = mk(); real.append(x); model.append(x)
                elif op == 'extend': xs = [mk() for _ in range(r.randrange(3))]; o = Cls(xs); real.extend(o); model.extend(xs); others.append((o, list(xs)))
                elif op == 'pop':
                    got = real.pop(); want = model.pop() if model else None
                    ctx.check(got is want, 'list-pop', f'{got} {want}')
                elif op == 'slice':
                    a, b, c = r.choice([None, 0, 1, -2]), r.choice([None, 3, -1, 99]), r.choice([None, None, 2, -1])
                    s = real[a:b:c]; want = model[a:b:c]
                    ctx.check(s is not real, 'slice-is-the-list', f'[{a}:{b}:{c}]')
                    ctx.check(type(s) is Cls and len(s) == len(want) and all(x is y for x, y in zip(s, want)), 'list-slice', f'[{a}:{b}:{c}] of {len(model)}')
                    others.append((s, list(want)))
                elif op == 'index' and model: k = r.randrange(-len(model), len(model)); ctx.check(real[k] is model[k], 'list-index', str(k))
                elif op == 'iter': ctx.check([id(x) for x in real] == [id(x) for x in model], 'list-iteration', '')
                elif op == 'copy': o = Cls(real); others.append((o, list(model)))
                elif op == 'str': str(real); repr(real); [str(x) + repr(x) for x in real]
                elif op == 'bad':
                    try: real[len(model)]; ctx.violation('list-index-out-of-range', f'{len(model)}')
                    except IndexError: pass
                elif kind == 0 and op == 'add':
                    xs = [mk() for _ in range(r.randrange(3))]; o = Cls(xs); others += [(real, list(model)), (o, list(xs))]; old = real; real = old + o; model = model + xs; ctx.check(real is not old and real is not o, 'sum-is-an-operand', '')
                elif kind == 0 and op == 'iadd': xs = [mk() for _ in range(r.randrange(3))]; o = Cls(xs); others.append((o, list(xs))); real += o; model += xs
                elif kind == 0 and op == 'contains':
                    q = r.choice(['v~', 's1', 'p~', '¬v', 'zz']); want = next((k for k, x in enumerate(model) if x.getMarker() == q), None)
                    ctx.check(real.contains(q) == want, 'list-contains', f'{q} {want}')
                    ctx.check(real.contains(q, len(model)) == want, 'list-contains-limited', f'{q} {want}')
                elif kind == 1 and op == 'forindex':
                    k = r.randrange(6); want = [x for x in model if x.getIndex() == k]; got = real.checkForIndex(k)
                    got = [] if got is None else list(got) if isinstance(got, list) else [got]
                    ctx.check([id(x) for x in got] == [id(x) for x in want], 'extras-at-index', f'{k}')
                ctx.seen('list-op', (kind, i, step, op))
                ctx.check(len(real) == len(model) and all(x is y for x, y in zip(real, model)), 'list-contents', lambda: f'after {op}: {len(real)} entries, expected {len(model)}')
            for o, want in others:
                if o is not real: ctx.check(len(o) == len(want) and all(x is y for x, y in zip(o, want)), 'other-list-changed', lambda: f'{type(o).__name__} {len(o)} {len(want)}')
        # attributes
        for k in range(8):
            word = w.words(r.choice([1, 1, 2])).replace('=', ''); names = r.sample(['lemma', 'strong', 'x-morph', 'x-tw', 'x-content', 'x-occurrence', 'x-a-b', 'x-tax', 'x-x'], r.randint(1, 5))
            vals = {}; parts = []
            for nm in names:
                v = r.choice([w.word(), f'H{r.randrange(9999):04}', 'He,Ncmpa', 'rc://*/tw/dict/bible/kt/god', w.words(2), 'a=b', '1', 'ἐν', '12:3', 'a|b'[:1], '֑']) ; q = True
                if ' ' not in v and '=' not in v and r.random() < .15: q = False
                vals[nm[2:] if nm.startswith('x-') else nm] = v
                parts.append(f'{nm}="{v}"' if q else f'{nm}={v}')
            s = word + '|' + r.choice(['', '', ' ']) + r.choice([' ', ' ', '  ']).join(parts) + r.choice(['', '', ' '])
            got = parseWordAttributes('W', 'GEN', '1', '1', s)
            ctx.seen('word-attributes', s)
            ctx.check(got == dict(vals, word=word), 'word-attributes', lambda: f'{s!r} gave {got}')
            lem = w.word(); ctx.check(parseWordAttributes('W', 'GEN', '1', '1', f'{word}|{lem}') == {'word': word, 'lemma': lem}, 'default-lemma', lem)
            better = dict(alt='altDescription', src='sourceFilename', size='relativeSize', loc='locationOrRange', copy='copyrightOrRightsHolder', ref='referenceCV')
            cap = w.words(r.randrange(3)); names = r.sample(list(better), r.randint(1, 6)); vs = {n: r.choice([w.word(), 'a b.jpg', '1:2', 'col', 'x=y', '© 2020 ' + w.word()]) for n in names}
            s = cap + '|' + ' '.join(f'{n}="{vs[n]}"' for n in names)
            got = parseFigureAttributes('W', 'GEN', '1', '1', s); ctx.seen('figure-attributes', s)
            ctx.check(got == dict({better[n]: vs[n] for n in names}, USFM=3, caption=cap), 'figure-attributes-3', lambda: f'{s!r} gave {got}')
            seven = [r.choice(['', w.words(2), 'x.jpg', 'col']) for _ in range(r.choice([7, 7, 6]))]
            got = parseFigureAttributes('W', 'GEN', '1', '1', '|'.join(seven))
            order = ['altDescription', 'sourceFilename', 'relativeSize', 'locationOrRange', 'copyrightOrRightsHolder', 'caption', 'referenceCV']
            ctx.check(got == dict(zip(order, seven), USFM=2), 'figure-attributes-2', lambda: f'{seven} gave {got}')
            n = r.choice([0, 1, 7, 176, -1, 12, r.randrange(100000)]); tail = r.choice(['', 'a', '-25', 'b-9', ' x', '–3', ',4', '.5'])
            ctx.seen('leading-int', (n, tail)); ctx.check(getLeadingInt(f'{n}{tail}') == n, 'leading-int', f'{n}{tail}')
            for bad in ('', 'a1', ' 7', '--3', w.words(1)):
                try: v = getLeadingInt(bad); ctx.violation('leading-int-accepts', f'{bad!r} gave {v}')
                except ValueError: pass
        # ESFM underlines
        e = InternalBibleEntry('v~', 'v', 'a_b', 'a_b', None, 'a_b'); t = ' '.join(r.choice(['ab', 'a_b', 'x_', '_y']) for _ in range(4)); e.setCleanText(t)
        ctx.check((e.getCleanText(), e.getAdjustedText(), e.getOriginalText(), e.getFullText()) == (t,) * 4, 'set-clean-text', t)
        u = e.getCleanText(removeESFMUnderlines=True)
        ctx.check('_' not in u and [c for c in u if c not in ' '] == [c for c in t if c not in '_ '], 'esfm-underlines', f'{t!r} {u!r}')
