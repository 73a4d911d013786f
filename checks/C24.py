"""VPL, SwordSearcher, Drupal and plain text exports: one entry per verse, in order, with exactly the words of the verse."""
import os, glob, zipfile
from bosv import exread, readers
FORMATS = ('swordsearcher', 'forge', 'drupal', 'text')
def more(ctx, fmt, o, m, B, tag, rp):
    if fmt == 'drupal':
        R = readers.drupal(o)
        ctx.check(R.counts == {b.bbb: int(b.chapters[-1]) for b in m.books if b.chapters}, 'drupal-chapter-counts', lambda: f'{tag}: {R.counts}', rp)
        ctx.check(R.books == [b.bbb for b in m.books if b.chapters], 'drupal-books', lambda: f'{tag}: {R.books}', rp)
        part = None; head = []; books = []
        for l in readers.slurp(os.path.join(o, 'Bible.txt')).split('\n'):
            if l.startswith('*'): part = l
            elif l and not l.startswith('#') and part == '*Bible': head.append(l.split('|'))
            elif l and not l.startswith('#') and part == '*Chapter': books.append(l.split('|')[1])
        ctx.check(len(head) == 1 and len(head[0]) == 3 and head[0][1] == B.name and len(head[0][0]) <= 5 and head[0][0] in (B.abbreviation[:5], B.name[:5]), 'drupal-header', lambda: f'{tag}: {head} for {B.name}/{B.abbreviation}', rp)
        ctx.check(books == [(b.titles.get('toc1') or b.titles['h']) for b in m.books if b.chapters], 'drupal-book-names', lambda: f'{tag}: {books}', rp); ctx.count('book-names', len(books))
    if fmt in ('swordsearcher', 'forge'):
        for fn in [os.path.join(o, 'Bible.txt')] if fmt == 'swordsearcher' else glob.glob(o + '/Forge/*.txt'):
            l = readers.slurp(fn).lstrip('\ufeff').split('\n')
            ctx.check(l[:2] == [f'; TITLE: {B.name}', f'; ABBREVIATION: {B.abbreviation}'], fmt + '-header', lambda: f'{tag}: {l[:3]}', rp)
    if fmt == 'text':
        for b in m.books:
            a, c = (readers.slurp(os.path.join(o, x, f'BOS-BibleWriter-{b.bbb}.txt')) for x in ('', 'Without_ByteOrderMarker'))
            ctx.check(a == c, 'text-copies-differ', f'{tag} {b.bbb}', rp)
    for z in glob.glob(o + '/**/*.zip', recursive=True):
        with zipfile.ZipFile(z) as zf:
            names = [n for n in zf.namelist() if not n.endswith('/')]; here = os.path.dirname(z)
            want = sorted(f for f in os.listdir(here) if not f.endswith('.zip') and os.path.isfile(os.path.join(here, f)))
            ctx.check(sorted(os.path.basename(n) for n in names) == want, f'{fmt}-archive-members', lambda: f'{tag}: {names} for {want}', rp)
            for n in names:
                with open(os.path.join(here, os.path.basename(n)), 'rb') as f: data = f.read()
                ctx.check(zf.read(n) == data, f'{fmt}-archive-content', f'{tag}: {n}', rp); ctx.count('archive-members')
def run(ctx):
    ctx.rule = 'a generated Bible with any mix of markup, exported to the line-oriented formats and read by independent readers'
    for f in FORMATS: ctx.need('read-' + f, 80); ctx.need('verses-' + f, 200)
    ctx.need('archive-members', 100)
    exread.runFormats(ctx, FORMATS, 120, 2500, more)
