"""theWord, MySword, e-Sword and MyBible modules hold the text of each verse in the record of that verse."""
import os, glob, sqlite3
from bosv import exread, readers, exports
FORMATS = exread.MODS
def more(ctx, fmt, o, m, B, tag, rp):
    K = exread.kjv()
    if fmt in ('mysword', 'esword', 'mybible'):
        fn = readers.only(o, {'mysword': '*.mybible', 'esword': '*.bblx', 'mybible': '*.SQLite3'}[fmt])
        q = {'mysword': 'select Book,Chapter,Verse from Bible', 'esword': 'select Book,Chapter,Verse from Bible', 'mybible': 'select book_number,chapter,verse from verses'}[fmt]
        rows = readers.sqlrows(fn, q)
        ctx.check(len(rows) == len(set(rows)), f'{fmt}-verse-stored-twice', lambda: f'{tag}: {[x for x in rows if rows.count(x) > 1][:3]}', rp)
        ok = readers.sqlrows(fn, 'pragma integrity_check')
        ctx.check(ok == [('ok',)], f'{fmt}-database', f'{tag}: {ok}', rp)
    else:
        fn = [f for f in glob.glob(o + '/*') if f.endswith(('.nt', '.ot', '.ont'))][0]
        books = readers.ORDER[39:] if fn.endswith('.nt') else readers.ORDER[:39] if fn.endswith('.ot') else readers.ORDER
        with open(fn, encoding='utf-8-sig', newline='') as f: lines = f.read().replace('\r\n', '\n').split('\n')
        need = sum(sum(K[b]) for b in books)
        ctx.check(len(lines) > need and (lines[need] == '' or '=' in ''.join(lines[need:need + 3])), 'theword-lines', lambda: f'{tag}: {len(lines)} lines, {need} verses, then {lines[need:need+2]}', rp)
        ot = any(b.bbb in readers.ORDER[:39] for b in m.books); nt = any(b.bbb in readers.ORDER[39:] for b in m.books)
        ctx.check(fn.rsplit('.', 1)[1] == ('ont' if ot and nt else 'ot' if ot else 'nt'), 'theword-testament', f'{tag}: {os.path.basename(fn)} for {[b.bbb for b in m.books]}', rp)
def run(ctx):
    ctx.rule = 'a generated Bible with any mix of markup, exported to the module formats and read by independent readers'
    for f in FORMATS: ctx.need('read-' + f, 40); ctx.need('verses-' + f, 200)
    for f in ('theword', 'mysword', 'mybible'): ctx.need('notes-' + f, 50)
    exread.runFormats(ctx, FORMATS, 50, 1000, more)
