"""Verdicts, counters, evidence, known findings."""
import os, sys, json, time, signal, random, hashlib, traceback, tempfile, shutil

HERE = os.environ.get('BOSV_HERE', os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

class Inconclusive(Exception): pass

class Ctx:
    def __init__(self, pid):
        self.pid = pid; self.inMain = False
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'): self.tier = 'quick'
        self.work = os.environ['BOSV_WORK']
        self.repo = os.environ.get('BOSV_REPO', '/repo')
        self.evidenceDir = os.environ.get('BOSV_EVIDENCE', os.path.join(HERE, 'evidence'))
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.counters = {}
        self.samples = []
        self.violations = []
        self.violationKinds = {}
        self.known = {}
        self.knownSeen = {}
        self.rule = ''
        self.assumptions = []
        self.parts = {}
        self.minimums = {}
        self._loadKnown()

    # -- randomness ------------------------------------------------------
    def rng(self, *tags):
        return random.Random('|'.join([str(self.seed), self.pid] + [str(t) for t in tags]))

    def n(self, quick, thorough=None):
        """Number of cases for this tier."""
        if self.tier == 'quick': return quick
        return thorough if thorough is not None else quick * 12

    def cases(self, quick, thorough=None, tag=''):
        """Case numbers for this tier, ending early when the tier's time budget is used up (a count, never a verdict)."""
        limit = float(os.environ.get('BOSV_BUDGET', 200 if self.tier == 'quick' else 1500))
        for i in range(self.n(quick, thorough)):
            if time.time() - self.t0 > limit: self.counters['stopped-by-time-budget' + tag] = i; return
            if self.inMain: signal.alarm(240 if self.tier == 'quick' else 1200)      # one case takes seconds: see main.Watchdog
            yield i
        if self.inMain: signal.alarm(700 if self.tier == 'quick' else 5400)

    @property
    def thorough(self): return self.tier == 'thorough'

    # -- observations ----------------------------------------------------
    def seen(self, part, key, nontrivial=True):
        """One evaluation of the oracle `part` on the case `key`."""
        self.evaluations += 1
        self.counters[part] = self.counters.get(part, 0) + 1
        if nontrivial:
            self.distinct.add(hashlib.blake2b((part + '\0' + (key if isinstance(key, str) else repr(key))).encode('utf8', 'surrogatepass'), digest_size=8).digest())

    def count(self, name, k=1):
        self.counters[name] = self.counters.get(name, 0) + k

    def sample(self, what, limit=12):
        if len(self.samples) < limit: self.samples.append(what)

    def need(self, part, minimum=1):
        """The run is inconclusive if the oracle `part` was evaluated fewer times than this."""
        self.minimums[part] = minimum

    # -- verdicts --------------------------------------------------------
    def _loadKnown(self):
        fn = os.path.join(HERE, 'known_findings.jsonl')
        if os.path.exists(fn):
            with open(fn, encoding='utf8') as f:
                for line in f:
                    line = line.strip()
                    if not line: continue
                    e = json.loads(line)
                    if e.get('status') == 'known' and e['property'] == self.pid: self.known[e['key']] = e

    def violation(self, kind, detail, replay=None, known=None):
        """Report that the property is broken. `known` is a mechanism key worked out from the witness."""
        if known is not None and known in self.known:
            self.knownSeen[known] = self.knownSeen.get(known, 0) + 1
            return
        self.violationKinds[kind] = self.violationKinds.get(kind, 0) + 1
        if self.violationKinds[kind] <= 3 and len(self.violations) < 60:
            self.violations.append({'kind': kind, 'detail': detail, 'replay': replay})

    def check(self, ok, kind, detail, replay=None, known=None):
        if not ok:
            self.violation(kind, detail() if callable(detail) else detail, replay() if callable(replay) else replay, known)
        return ok

    def tmpdir(self, tag='d'):
        return tempfile.mkdtemp(prefix=tag + '.', dir=os.path.join(self.work, 'tmp'))

    def rmtree(self, d):
        assert os.path.abspath(d).startswith(self.work + os.sep)
        shutil.rmtree(d, ignore_errors=True)

    # -- the end -----------------------------------------------------------
    def finish(self):
        short = [f'{p}: {self.counters.get(p,0)} < {m}' for p, m in self.minimums.items() if self.counters.get(p, 0) < m]
        cov = {
            'evaluations': self.evaluations, 'distinct_nontrivial': len(self.distinct), 'rule': self.rule,
            'samples': self.samples or ['(none)'], 'observed': dict(sorted(self.counters.items())),
            'known_findings_seen': self.knownSeen,
        }
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration', 'coverage': cov,
              'wall_s': round(time.time() - self.t0, 2), 'violations': sum(self.violationKinds.values()),
              'assumptions': self.assumptions}
        os.makedirs(self.evidenceDir, exist_ok=True)
        tmp = os.path.join(self.evidenceDir, self.pid + '.json.tmp')
        with open(tmp, 'w', encoding='utf8', errors='backslashreplace') as f: json.dump(ev, f, indent=1, ensure_ascii=True, default=str)
        os.replace(tmp, os.path.join(self.evidenceDir, self.pid + '.json'))
        print(f'{self.pid} {self.tier} seed={self.seed}: {self.evaluations} evaluations, {len(self.distinct)} distinct, {time.time()-self.t0:.1f}s')
        for k, c in sorted(self.counters.items()): print(f'   {k} = {c}')
        for k, e in self.known.items():
            print(f"KNOWN-FINDING: property={self.pid} {e['what']} [{k}; seen {self.knownSeen.get(k,0)} times in this run]")
        if self.violations:
            rdir = os.path.join(self.evidenceDir, 'replay'); os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, f'{self.pid}-{self.tier}-{self.seed}.json')
            with open(rp, 'w', encoding='utf8', errors='backslashreplace') as f:
                json.dump({'property': self.pid, 'seed': self.seed, 'tier': self.tier, 'kinds': self.violationKinds,
                           'violations': self.violations}, f, indent=1, ensure_ascii=True, default=str)
            for v in self.violations[:12]:
                print(f"  {v['kind']} (x{self.violationKinds[v['kind']]}): {str(v['detail'])[:1200]}")
            print(f'VIOLATION property={self.pid} replay={rp}')
            return 1
        if short:
            print('INCONCLUSIVE: ' + '; '.join(short))
            return 2
        return 0
