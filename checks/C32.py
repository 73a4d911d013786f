"""OSIS references: parsed to exactly the verses written, refused when they do not exist, written back, and no effect on later references."""
from bosv import boot
from checks import C31

plain = lambda x: x[:3] + ('',)

def run(ctx):
    from BibleOrgSys import BibleOrgSysGlobals as G
    ctx.rule = 'OSIS reference lists written by the generator for seven organisational systems, including ranges over chapters and books, unknown books, books outside the system and verses beyond the end; after each the same object parses a vernacular reference; distinct = distinct (system, text)'
    ctx.need('osis', 1500); ctx.need('refused', 1000); ctx.need('vernacular-after', 3000); ctx.need('round-trip', 700); ctx.need('contains-list', 800)
    with boot.quiet(): SS = [C31.Sys(n) for n in C31.SYSTEMS]
    codes = G.loadedBibleBooksCodes; osis = codes.getOSISAbbreviation
    from collections import Counter
    shared = Counter(osis(B) for B in codes if osis(B))
    best = lambda B: osis(B) and (shared[osis(B)] == 1 or codes.getBBBFromOSISAbbreviation(osis(B)) == B)
    one = lambda y: f'{osis(y[0])}.{y[1]}' + (f'.{y[2]}' if y[2] else '')
    for i in ctx.cases(2000, 60000):
        r = ctx.rng(i); S = SS[i % len(SS)]; order = [B for B in S.order if best(B)]
        k = sorted(r.sample(range(len(order)), min(len(order), r.choice([1, 1, 2, 3]))))
        want = []; vern = []
        for j in k:
            t, o = C31.group(r, S, order[j], ''); want += [plain(x) if len(x) == 4 else (plain(x[0]), plain(x[1])) for x in o]; vern.append((t, o))
        if r.random() < .15 and k[-1] + 1 < len(order):
            A, B = order[k[-1]], order[k[-1] + 1]; na, nb = S.books[A][1], S.books[B][1]; c = r.randint(max(1, len(na) - 1), len(na)); d = r.randint(1, min(2, len(nb)))
            want.append(((A, str(c), str(r.randint(1, na[c - 1])), ''), (B, str(d), str(r.randint(1, nb[d - 1])), '')))
        text = r.choice(['; ', '; ', ';']).join(one(x) if len(x) == 4 else one(x[0]) + '-' + one(x[1]) for x in want)
        def after(what):
            t, o = r.choice(vern)
            with boot.quiet():
                try: a = S.L.parseReferenceString(t)
                except (Exception, SystemExit) as e: a = (repr(e), 0, 0)
            ctx.seen('vernacular-after', (S.name, text, t)); ctx.check(a[0] is True and a[2] == o, 'vernacular-after-osis', lambda: f'{S.name} {t!r} after {what!r}: {a}', (S.name, what, t))
        with boot.quiet():
            try: a = S.L.parseOSISReferenceString(text); back = S.L.getOSISRefList()
            except (Exception, SystemExit) as e: a = (repr(e), 0, 0); back = ''
        ctx.seen('osis', (S.name, text))
        ctx.check(a[0] is True and a[2] == want, 'osis-reference', lambda: f'{S.name} {text!r}: {a} not {want}', (S.name, text))
        after(text)
        # what was written by getOSISRefList is read again
        t, o = r.choice(vern)
        with boot.quiet():
            try: w = S.L.parseToOSIS(t); a = S.L.parseOSISReferenceString(w)
            except (Exception, SystemExit) as e: a = (repr(e), 0, 0); w = None
        wo = [plain(x) if len(x) == 4 else (plain(x[0]), plain(x[1])) for x in o]
        ctx.seen('round-trip', (S.name, t)); ctx.check(a[0] is True and a[2] == wo, 'osis-round-trip', lambda: f'{S.name} {t!r} → {w!r}: {a}', (S.name, t))
        # lists of verses of a chapter, in or out
        full = set(C31.expand(S, o)); B, c, _ = r.choice(sorted(full)); n = S.books[B][1][int(c) - 1]; vs = sorted(r.sample(range(1, n + 1), min(n, r.choice([2, 3])))); q = set(vs); txt = S.p['verseSeparator'].join(map(str, vs))
        if r.random() < .5 and n - vs[-1] >= 2: e = r.randint(vs[-1] + 1, min(n, vs[-1] + 5)); q |= set(range(vs[-1], e + 1)); txt += f'{S.p["verseBridgeCharacter"]}{e}'
        with boot.quiet():
            try: S.L.parseReferenceString(t); a = S.L.containsReference(B, c, txt)
            except (Exception, SystemExit) as e: a = repr(e)
        ctx.seen('contains-list', (S.name, t, txt)); ctx.check(a == any((B, c, str(v)) in full for v in q), 'contains-list', lambda: f'{S.name} {t!r} contains {B} {c}:{txt}: {a}', (S.name, t, B, c, txt))
        # what is not there
        B = r.choice(order); nv = S.books[B][1]; c = r.randint(1, len(nv)); how = r.choice(['book', 'outside', 'chapter', 'verse', 'range'])
        with boot.quiet(): out = [X for X in codes if best(X) and X not in S.bos.getBookList()]
        if how == 'book': bad = r.choice(['Foo', 'Genn', 'XXX', '4John']) + f'.{c}.1'
        elif how == 'outside' and out: bad = osis(r.choice(out)) + '.1.1'
        elif how == 'chapter': bad = f'{osis(B)}.{len(nv) + r.choice([1, 1, 20])}.1'
        elif how == 'verse': bad = f'{osis(B)}.{c}.{nv[c - 1] + r.choice([1, 1, 40])}'
        else: bad = f'{osis(B)}.{c}.1-{osis(B)}.{c}.{nv[c - 1] + 1}'
        bad = r.choice(['', '', text + '; ']) + bad
        with boot.quiet():
            try: a = S.L.parseOSISReferenceString(bad)
            except (Exception, SystemExit) as e: a = (repr(e), 0, 0)
        ctx.seen('refused', (S.name, bad)); ctx.check(a[0] is False, 'no-such-reference', lambda: f'{S.name} {bad!r}: {a}', (S.name, bad)); after(bad)
