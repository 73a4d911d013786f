"""Running the exporters and turning what they wrote into something comparable."""
import os, re, io, zipfile, tarfile, gzip, bz2, sqlite3, pickle, hashlib
from bosv import boot

NAMES = ['toPickledBible', 'makeLists', 'toBOSBCV', 'toPseudoUSFM', 'toUSFM2', 'toUSFM3', 'toESFM', 'toText', 'toVPL', 'toMarkdown', 'toHTML5', 'toBibleDoor', 'toEasyWorshipBible',
         'toUSX2XML', 'toUSXXML', 'toUSFXXML', 'toOSISXML', 'toZefaniaXML', 'toHaggaiXML', 'toOpenSongXML', 'toSwordModule', 'totheWord', 'toMySword', 'toESword', 'toMyBible',
         'toSwordSearcher', 'toDrupalBible', 'toTeX']

DATE = re.compile(r'\b2\d\d\d-\d\d-\d\d(?:[ T]\d\d:\d\d(?::\d\d(?:\.\d+)?)?)?|\b\d\d?-[A-Z][a-z][a-z]-2\d\d\d|publish\.date=\d+|(?<=[Dd]ate>)\d+')

def run(B, name, folder, **kw):
    os.makedirs(folder, exist_ok=True)
    with boot.quiet(): return getattr(B, name)(folder, **kw)

def sqlDump(data):
    fn = os.path.join(boot.WORK, 'tmp', 'sqldump.%d' % os.getpid())
    with open(fn, 'wb') as f: f.write(data)
    db = sqlite3.connect(fn)
    try:
        out = [l for l in db.iterdump() if l.startswith('CREATE')]
        for (t,) in db.execute("select name from sqlite_master where type='table' order by 1").fetchall():
            out += [repr(r) for r in db.execute(f'select * from "{t}"')]
    finally: db.close(); os.unlink(fn)
    return '\n'.join(out)

def member(n):
    """Some archives name their members by the whole path of the file that was packed."""
    return re.sub('/?' + re.escape(boot.WORK.lstrip('/')) + r'/tmp/[^/]+/', '', n)

def norm(name, data, prefix, out):
    """Flatten archives and databases; mask dates."""
    if data[:4] == b'PK\3\4':
        with zipfile.ZipFile(io.BytesIO(data)) as z:
            for n in sorted(z.namelist()): norm(prefix + name + '!' + member(n), z.read(n), '', out)
        return
    if data[:2] == b'\x1f\x8b': d = gzip.decompress(data)
    elif data[:3] == b'BZh': d = bz2.decompress(data)
    else: d = None
    if d is not None:
        try:
            with tarfile.open(fileobj=io.BytesIO(d)) as t:
                for m in sorted(t.getmembers(), key=lambda m: m.name):
                    if m.isfile(): norm(prefix + name + '!' + member(m.name), t.extractfile(m).read(), '', out)
            return
        except tarfile.TarError: pass
        norm(prefix + name + '!', d, '', out); return
    if data[:15] == b'SQLite format 3': out[prefix + name] = DATE.sub('DATE', sqlDump(data)); return
    if name.endswith('.pickle'): out[prefix + name] = 'PICKLE'; return
    try: out[prefix + name] = DATE.sub('DATE', data.decode('utf8'))
    except UnicodeDecodeError: out[prefix + name] = hashlib.sha1(data).hexdigest()

def tree(folder, strip=True):
    out = {}
    for p, ds, fs in os.walk(folder):
        for f in fs:
            with open(os.path.join(p, f), 'rb') as h: norm(os.path.relpath(os.path.join(p, f), folder), h.read(), '', out)
    return out

def cleanNames(t):
    """The MyBible export adds the process number to a file name when it runs in a worker process."""
    return {re.sub(r'_\d+(?=\.SQLite3)', '', k): v for k, v in t.items()}

def diff(a, b):
    d = [f'only in one: {k}' for k in sorted(set(a) ^ set(b))][:6]
    for k in sorted(set(a) & set(b)):
        if a[k] != b[k]:
            i = next((i for i, (x, y) in enumerate(zip(a[k], b[k])) if x != y), min(len(a[k]), len(b[k])))
            d.append(f'{k} at {i}: {a[k][max(0,i-40):i+60]!r} / {b[k][max(0,i-40):i+60]!r}')
    return d
