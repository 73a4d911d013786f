"""Every exporter leaves the Bible as it was and writes the same files whatever was done before."""
import os
from bosv import boot, gen, obs, exports

def state(B):
    return (obs.bibleSig(B), {k: len(b._processedLines) for k, b in B.books.items()},
            B.abbreviation, B.name, dict(B.bookNameDict), dict(B.BBBToNameDict), list(B.availableBBBs), str(B.settingsDict), str(B.suppliedMetadata), str(B.getSetting('ShortTitle')) if B.settingsDict else '')

def run(ctx):
    ctx.rule = 'each exporter run alone on a freshly loaded Bible, again, and after a random history of other exporters, analyses, searches and queries: files, return values and the Bible compared; distinct = distinct (Bible, exporter, history)'
    ctx.need('exporter-runs', 500); ctx.need('files-compared', 2000)
    for i in ctx.cases(16, 200):
        r = ctx.rng('x', i); feats = set(gen.ALLFEATS) | {'bare'}
        names = list(exports.NAMES)
        if i % 2: feats -= {'suffix'}
        else: names.remove('toSwordModule')   # says itself that it does not handle verse numbers like 3b yet
        m = gen.bible(r, feats, nBooks=r.choice([1, 2, 3]), maxVerses=r.choice([3, 6])); d = ctx.tmpdir(); gen.writeUSFM(m, d)
        rep = {'usfm': [b.usfm for b in m.books]}
        # reference: every exporter on a Bible nothing else was done with
        ref = {}; res = {}
        B0 = None
        for name in names:
            B = gen.loadUSFMq(d); before = state(B); o = ctx.tmpdir('o')
            res[name] = exports.run(B, name, o); ref[name] = exports.cleanNames(exports.tree(o))
            ctx.check(state(B) == before, 'export-changes-bible:' + name, lambda: name, rep)
            if i % 4 == 1:
                a = exports.run(B, name, o); df = exports.diff(ref[name], exports.cleanNames(exports.tree(o)))
                ctx.check(a == res[name] and not df, 'exporting-again-to-same-folder:' + name, lambda: f'{a} {df[:3]}', rep); ctx.seen('exporter-runs', (i, name, 'again')); ctx.count('again-to-same-folder')
            ctx.seen('exporter-runs', (i, name, 'alone')); ctx.rmtree(o)
        # the histories
        B = gen.loadUSFMq(d); before = state(B); hist = []; discovered = False
        order = names * 2; r.shuffle(order)
        for name in order:
            if r.random() < .35:
                op = r.choice(['discover', 'check', 'find', 'text', 'context']); hist.append(op)
                with boot.quiet():
                    if op == 'discover': B.discover()
                    elif op == 'check': B.check()
                    elif op == 'find':
                        B.findText({'findText': 'the'})
                    elif op == 'text' and m.verses: v = r.choice(m.verses); B.getVerseText((v.bbb, v.c, v.v))
                    elif m.verses: v = r.choice(m.verses); B.getContextVerseData((v.bbb, v.c, v.v))
            o = ctx.tmpdir('o'); a = exports.run(B, name, o); t = exports.cleanNames(exports.tree(o)); ctx.rmtree(o)
            ctx.seen('exporter-runs', (i, name, tuple(hist)))
            for k in t: ctx.seen('files-compared', (i, name, k, len(hist)))
            ctx.check(a == res[name], 'result-depends-on-history:' + name, lambda: f'{name} after {hist}: {a} {res[name]}', rep)
            df = exports.diff(ref[name], t)
            ctx.check(not df, 'files-depend-on-history:' + name, lambda: f'{name} after {hist[-12:]}: {df[:3]}', dict(rep, history=list(hist)))
            hist.append(name)
            ctx.check(state(B) == before, 'export-changes-bible:' + name, lambda: f'{name} after {hist[-6:]}', rep)
        ctx.rmtree(d)
