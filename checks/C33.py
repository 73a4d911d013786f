"""Anchors of notes: an anchor matches exactly if it names the verse (or an end of the verse bridge) where the note is."""
from bosv import boot

def run(ctx):
    from BibleOrgSys import BibleOrgSysGlobals as G
    from BibleOrgSys.Reference.BibleReferences import BibleAnchorReference
    ctx.rule = 'anchors (chapter:verse, chapter.verse, lists, bridges, verse parts, trailing colon or note letter, verse alone in single-chapter books) against homes that are the same verse, a bridge ending in it, or another verse or chapter; distinct = distinct (home, anchor)'
    ctx.need('match', 1500); ctx.need('differ', 1500); ctx.need('parsed', 2500); ctx.need('single', 300)
    books = [B for B in G.loadedBibleBooksCodes if G.loadedBibleBooksCodes.isChapterVerseBook(B)]; single = set(G.loadedBibleBooksCodes.getSingleChapterBooksList()); ones = [B for B in books if B in single]
    for i in ctx.cases(4000, 100000):
        r = ctx.rng(i); B = r.choice(ones if r.random() < .2 else books); c = 1 if B in single else r.randint(1, 150); v = r.randint(1, 176)
        n = r.choice([1, 1, 1, 2, 3]); vs = sorted({v} | {r.randint(1, 176) for _ in range(n - 1)}); bridge = n == 2 and len(vs) == 2 and r.random() < .6
        sep = '-' if bridge else r.choice([',', ',', ', ']); sfx = [r.choice(['', '', '', 'a', 'b', 'e']) for _ in vs]
        short = B in single and r.random() < .5
        t = ('' if short else f'{c}' + r.choice(':.')) + sep.join(f'{x}{y}' for x, y in zip(vs, sfx))
        if short: ctx.seen('single', (B, t))
        refs = [(B, str(c), str(x), y) for x, y in zip(vs, sfx)]
        with boot.quiet():
            try: a = BibleAnchorReference(B, str(c), str(v), None).parseAnchorString(t)
            except (Exception, SystemExit) as e: a = (repr(e), 0, 0)
        ctx.seen('parsed', (B, t)); ctx.check(a[0] is True and a[2] == refs, 'anchor-parsed', lambda: f'{B} {c}:{v} {t!r}: {a} not {refs}', (B, c, v, t))
        text = t + r.choice(['', '', ':', ' a', ' ']) if not t[-1].isalpha() else t + r.choice(['', ':'])
        text = r.choice(['', '', ' ']) + text
        hows = ['same', 'verse', 'chapter', 'bridge', 'bridge-other']
        for how in r.sample(hows, 3):
            hc, hs = c, None
            if how == 'same': hv = str(r.choice(vs)); want = True
            elif how == 'verse': w = r.choice([v + 1, v + 10, v * 10, r.randint(1, 176)]); want = w in vs if not bridge else None if vs[0] < w < vs[1] else w in vs; hv = str(w)
            elif how == 'chapter':
                if short: continue
                hc = r.choice([c + 1, c * 10, c + 100]); hv = str(v); want = False
            elif how == 'bridge': x = r.choice(vs); hv = r.choice([f'{x}-{x + r.randint(1, 5)}', f'{max(0, x - r.randint(1, 5))}-{x}', f'{x},{x + r.randint(1, 9)}']); want = True
            else: x = max(vs) + r.randint(1, 3); hv = f'{x}-{x + r.randint(1, 5)}'; want = False
            if want is None: continue        # inside a bridge: not decided (the anchor knows no versification)
            if r.random() < .2: hs = r.choice('abc')
            with boot.quiet():
                try: a = BibleAnchorReference(B, str(hc), hv, hs).matchesAnchorString(text)
                except (Exception, SystemExit) as e: a = repr(e)
            ctx.seen('match' if want else 'differ', (B, hc, hv, text)); ctx.check((a is True) == want and not isinstance(a, str), 'anchor-' + how, lambda: f'{B} {hc}:{hv} matches {text!r}: {a}', (B, hc, hv, hs, text))
