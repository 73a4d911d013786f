"""Prepare the process for importing and driving the real BibleOrgSys code from /repo.

 * os.getlogin() is stubbed (it fails without a tty, and one module calls it at import).
 * The reference-data loaders choose between the tracked pickles and the XML sources by file times, which depend
   on checkout order. We make the derived files look old, so the sources are what is loaded -- deterministic.
 * Output is silenced; logging is captured by counters instead of being printed.
"""
import os, sys, io, logging, contextlib

REPO = os.environ.get('BOSV_REPO', '/repo')
WORK = os.environ.get('BOSV_WORK')

os.getlogin = lambda: 'root'

_realStat = os.stat
def _stat(path, *args, **kw):
    r = _realStat(path, *args, **kw)
    try: s = os.fspath(path)
    except TypeError: return r
    if isinstance(s, str) and 'DerivedFiles' in s and not s.endswith('DerivedFiles'):
        t = list(r[:10])
        t[7] = t[8] = t[9] = 1
        d = dict(st_mtime=1.0, st_ctime=1.0, st_atime=1.0)
        return os.stat_result(t, d)
    return r

@contextlib.contextmanager
def sourcesNewest():
    os.stat = _stat      # and stays: some tables are loaded later
    yield

class LogCounter(logging.Handler):
    def __init__(self):
        super().__init__(); self.counts = {}
    def emit(self, record):
        self.counts[record.levelname] = self.counts.get(record.levelname, 0) + 1

logCounter = LogCounter()
G = None  # BibleOrgSysGlobals, after boot()

def boot():
    """Import BibleOrgSys silently and return BibleOrgSysGlobals with the common data loaded."""
    global G
    if G is not None: return G
    assert WORK and os.environ['HOME'].startswith(WORK), 'run through check.sh'
    root = logging.getLogger()
    root.addHandler(logCounter)
    with quiet(), sourcesNewest():
        from BibleOrgSys import BibleOrgSysGlobals as g
        assert os.path.realpath(g.__file__).startswith(os.path.realpath(REPO)), g.__file__
        g.setVerbosity('Silent') if hasattr(g, 'setVerbosity') else None
        g.verbosityLevel = 0
        g.debugFlag = False
        g.strictCheckingFlag = False
        g.maxProcesses = 1
        g.preloadCommonData()
    for h in list(root.handlers):
        if h is not logCounter: root.removeHandler(h)
    root.setLevel(logging.CRITICAL + 1)   # logging text is never part of an oracle
    G = g
    return g

@contextlib.contextmanager
def quiet():
    """Swallow anything printed by the code under test."""
    out, err = sys.stdout, sys.stderr
    sys.stdout = io.StringIO(); sys.stderr = io.StringIO()
    try: yield
    finally: sys.stdout, sys.stderr = out, err
