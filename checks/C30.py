"""Verse keys: the text of a key, the verses it names, equality and hashing, against an independent reading of the notation."""
import re
from bosv import boot

FLEX = ['r s','r s s','r s s s','r s s s s','s r','s r r','s s r r','r s r','r s s r','s s r','s s s r','s s s s r','s r s','s s r s','r r','r r s','r r s s','r r r','r r r r']

def item(r, lo, kind):
    """a verse or a range of verses, all beyond verse lo: text, verses named, last verse"""
    def sfx(): return r.choice('abcd') if r.random() < .25 else ''
    a = lo + r.choice([2, 2, 3, 5, 9]) if lo else r.choice([1, 1, 2, 9, 10, 11, 99, 100, 101])
    t = lambda v, s: f'{v}!{s}' if s else str(v)
    sa = sfx()
    if kind == 's': return t(a, sa), [(str(a), sa)], a
    if r.random() < .1 and sa and sa < 'd':      # one verse in parts: 5a-5c
        sb = chr(ord(sa) + r.randint(1, ord('d') - ord(sa)))
        return t(a, sa) + '-' + t(a, sb), [(str(a), chr(c)) for c in range(ord(sa), ord(sb) + 1)], a
    b = a + r.choice([1, 1, 2, 3, 7, 12]); sb = sfx()
    return t(a, sa) + '-' + t(b, sb), [(str(a), sa)] + [(str(v), '') for v in range(a + 1, b)] + [(str(b), sb)], b

def verses(key): return [k.getBCVS() for k in key.getIncludedVerses()]

def run(ctx):
    from BibleOrgSys import BibleOrgSysGlobals as G
    from BibleOrgSys.Reference.VerseReferences import SimpleVerseKey, SimpleVersesKey, VerseRangeKey, FlexibleVersesKey
    ctx.rule = 'keys generated from the documented notation (single verses with suffix or index, lists, ranges, mixtures), expanded by the generator itself; near misses of the notation must be refused; distinct = distinct reference texts'
    ctx.need('single', 1000); ctx.need('lists', 500); ctx.need('ranges', 500); ctx.need('flexible', 1000); ctx.need('refused', 300); ctx.need('pairs', 300)
    codes = list(G.loadedBibleBooksCodes.getAllReferenceAbbreviations())
    def short(B, C, VS): return ', '.join(f'{B} {C}:{v}{s}' for v, s in VS)
    for i in ctx.cases(2500, 60000):
        r = ctx.rng(i); B = codes[i % len(codes)] if i < 2 * len(codes) else r.choice(codes); C = r.choice([1, 1, 2, 9, 10, 19, 28, 99, 100, 119, 150])
        with boot.quiet():
            # one verse
            kind = r.choice(['', 's', 'i']); V = r.choice([1, 2, 9, 10, 31, 99, 100, 176, 199])
            x = r.choice('abcd') if kind == 's' else str(r.choice([0, 1, 7, 12, 99, 100, 999])) if kind == 'i' else ''
            text = f'{B}_{C}:{V}' + ('!' + x if x else '')
            k = None
            try:
                k = SimpleVerseKey(text); k2 = SimpleVerseKey(B, C, V, x) if r.random() < .5 else SimpleVerseKey(B, str(C), str(V), x); k3 = FlexibleVersesKey(text)
                S, I = (None, x) if kind == 'i' else (x, None)
                got = (k.getBCVS(), k.getBCVI(), k.getBCV(), k.getCV(), k.getVerseKeyText(), k2.getVerseKeyText(), k2.getBCVS(), k2.getBCVI(), tuple(k), k.getChapterNumberInt(), k.getVerseNumberInt(),
                       k == k2, hash(k) == hash(k2), list(k), [z.getVerseKeyText() for z in k3.getIncludedVerses()], k3.getVerseKeyText(), k.getShortText(), tuple(k[j] for j in range(4)))
                want = ((B, str(C), str(V), S), (B, str(C), str(V), I), (B, str(C), str(V)), (str(C), str(V)), text, text, (B, str(C), str(V), S), (B, str(C), str(V), I), (k,), C, V,
                       True, True, [k], [text], text, f"{B} {C}:{V}{'!' + x if kind == 'i' else x}", (B, str(C), str(V), x))
            except Exception as e: got, want = repr(e), text
            ctx.seen('single', text); ctx.check(got == want, 'single-verse-key', lambda: f'{text}: {got} {want}', text)
            # other verses are other keys
            o = r.choice([(r.choice(codes), C, V, x), (B, C % 150 + 1, V, x), (B, C, V % 199 + 1, x), (B, C, V, {'': 'a', 's': chr((ord(x[:1] or 'a') - 96) % 4 + 97), 'i': str((int(x) + 1) % 1000 if kind == 'i' else 0)}[kind]), (B, C, V, '')])
            k2 = SimpleVerseKey(o[0], o[1], o[2], o[3]); same = (o == (B, C, V, x))
            ctx.seen('pairs', (text, o)); ctx.check((k == k2) == same and (k != k2) != same and (not same or hash(k) == hash(k2)) and len({k, k2}) == 2 - same, 'key-equality', lambda: f'{text} and {o}: {k == k2}', (text, o))
            # lists
            n = r.randint(2, 9); VS = []; ts = []; lo = 0
            for j in range(n):
                t, vs, lo = item(r, lo, 's'); ts.append(t); VS += vs
            text = f'{B}_{C}:' + ','.join(ts)
            want = [(B, str(C), v, s) for v, s in VS]
            if lo > 199: text = None
            if r.random() < .25:
                cs = [C, C + r.randint(1, 9), C + r.randint(10, 19)][:r.choice([2, 3])]; VS = []; ts = []
                for c in cs: t, vs, lo = item(r, 0, 's'); ts.append(f'{c}:{t}'); VS += [(c, *z) for z in vs]
                text = f'{B}_' + ';'.join(ts); want = [(B, str(c), v, s) for c, v, s in VS]
            if text:
                try: k = SimpleVersesKey(text); k2 = FlexibleVersesKey(text); got = (verses(k), [z.getBCVS() for z in k], k.getVerseKeyText(), verses(k2), k == SimpleVersesKey(text), k.getShortText())
                except Exception as e: got = repr(e)
                w = (want, want, text, want, True, ', '.join(f'{b} {c}:{v}{s}' for b, c, v, s in want))
                ctx.seen('lists', text); ctx.check(got == w, 'list-key', lambda: f'{text}: {got} {w}', text)
            # ranges
            t, vs, lo = item(r, 0, 'r'); text = f'{B}_{C}:{t}'; want = [(B, str(C), v, s) for v, s in vs]
            try: k = VerseRangeKey(text); k2 = FlexibleVersesKey(text); got = (verses(k), [z.getBCVS() for z in k], k.getVerseKeyText(), verses(k2), k == VerseRangeKey(text))
            except Exception as e: got = repr(e)
            w = (want, want, text, want, True)
            ctx.seen('ranges', text); ctx.check(got == w, 'range-key', lambda: f'{text}: {got} {w}', text)
            # mixtures
            shape = r.choice(FLEX); VS = []; ts = []; lo = 0
            for kd in shape.split():
                t, vs, lo = item(r, lo, kd); ts.append(t); VS += vs
            if lo <= 199:
                text = f'{B}_{C}:' + ','.join(ts); want = [(B, str(C), v, s) for v, s in VS]
                try: k = FlexibleVersesKey(text); got = (verses(k), k == FlexibleVersesKey(text), k.getVerseKeyText())
                except Exception as e: got = repr(e)
                w = (want, True, text)
                ctx.seen('flexible', text); ctx.check(got == w, 'mixed-key:' + shape, lambda: f'{text}: {got} {w}', text)
            # near misses
            good = text = f'{B}_{C}:{V}'
            bad = r.choice([good.replace('_', ' '), good.replace(':', '.'), good + '!', good + '!z', good + '!1234', good + '!ab', f'{B}_{C}:{V}b', f'{B}_{C}', f'{B}_0{C}:{V}', f'{B}_{C}:0{V}', good + ' ', ' ' + good, good + '-', good + ',', f'{B}_{C}:', f'{B}_:{V}', f'{B}{C}:{V}', f'{B}_200:{V}', f'{B}_{C}:200', good + ';3', good.lower(), '', good + '\n'])
            if bad != good and not (bad.endswith('!')) and not bad.endswith('\n'):
                try: k = SimpleVerseKey(bad); ctx.violation('accepted', f'{bad!r}: {k}', bad)
                except TypeError: pass
                except Exception as e: ctx.violation('not-refused-properly', f'{bad!r}: {e!r}', bad)
                ctx.seen('refused', bad)
