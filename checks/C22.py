"""OSIS, USFX, Zefania, Haggai and OpenSong exports, read with ElementTree, say what the Bible says."""
from bosv import exread
FORMATS = ('usfx', 'osis', 'zefania', 'haggai', 'opensong')
def run(ctx):
    ctx.rule = 'a generated Bible with any mix of markup, exported and read by independent readers'
    for f in FORMATS: ctx.need('read-' + f, 60); ctx.need('verses-' + f, 200)
    ctx.need('notes-usfx', 50); ctx.need('notes-osis', 50); ctx.need('notes-zefania', 50)
    exread.runFormats(ctx, FORMATS, 70, 1200)
