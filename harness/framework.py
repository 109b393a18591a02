"""Common machinery of the checks: tiers, seeds, verdicts, evidence, known findings."""
import hashlib, json, multiprocessing, os, shutil, signal, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known-findings.txt')
CASE_LIMIT = 60          # seconds of processor time a single case may take before it counts as not terminating
WALL_LIMIT = 240         # the same for the clock on the wall


class Timeout(Exception):
    pass


class limit:
    """Bound the time the code under test gets for one case."""
    def __init__(self, cpu=CASE_LIMIT, wall=WALL_LIMIT):
        self.cpu, self.wall = cpu, wall

    def __enter__(self):
        def fire(*_):
            raise Timeout(f'no answer within {self.cpu} s')
        self.old = signal.signal(signal.SIGALRM, fire), signal.signal(signal.SIGPROF, fire)
        signal.setitimer(signal.ITIMER_REAL, self.wall)
        signal.setitimer(signal.ITIMER_PROF, self.cpu)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGALRM, self.old[0])
        signal.signal(signal.SIGPROF, self.old[1])
        return False


class Result:
    """What replaying a batch of cases found (mergeable)."""
    def __init__(self):
        self.evaluations = 0
        self.distinct = set()
        self.violations = []      # (key, message, data)
        self.known = {}           # finding id -> how often seen
        self.samples = []
        self.counters = {}

    def case(self, key, nontrivial=True, sample=None):
        self.evaluations += 1
        if nontrivial:
            self.distinct.add(hashlib.blake2b(repr(key).encode('utf-8', 'surrogatepass'), digest_size=8).digest())
        if sample is not None and len(self.samples) < 3:
            self.samples.append(sample)

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def bad(self, key, message, **data):
        self.violations.append((key, message, data))

    def merge(self, o):
        self.evaluations += o.evaluations
        self.distinct |= o.distinct
        self.violations += o.violations
        for k, v in o.known.items():
            self.known[k] = self.known.get(k, 0) + v
        for k, v in o.counters.items():
            self.counters[k] = self.counters.get(k, 0) + v
        self.samples = (self.samples + o.samples)[:6]


_JOB = None


def _work(rng):
    fn, cases, extra = _JOB
    res = Result()
    for i in rng:
        try:
            with limit():
                fn(res, i, cases[i], *extra)
        except Timeout as e:
            res.bad(('timeout', i), f'the code under test gave {e}', case=_brief(cases[i]))
            break
        except Exception as e:
            tb = e.__traceback__
            while tb.tb_next:
                tb = tb.tb_next
            code = tb.tb_frame.f_code
            if f'{os.sep}kiutils{os.sep}' in code.co_filename:
                res.bad(('raised', code.co_name), f'the code under test raises {type(e).__name__}: {e} in {code.co_name}', trace=traceback.format_exc(), case=_brief(cases[i]))
                continue
            res.violations.append((('machinery', i), None, {'trace': traceback.format_exc(), 'case': _brief(cases[i])}))
    return res


def _brief(c):
    s = json.dumps(c, default=repr)
    return s if len(s) < 6000 else s[:6000] + '...'


BEFORE_FORK = []


def replay(fn, cases, extra=(), procs=8):
    """Run fn(result, index, case, *extra) over all cases, in parallel."""
    global _JOB
    for f in BEFORE_FORK:
        f()
    _JOB = (fn, cases, extra)
    total = Result()
    n = len(cases)
    if n == 0:
        return total
    step = max(1, min(200, n // (procs * 4) + 1))
    ranges = [range(a, min(a + step, n)) for a in range(0, n, step)]
    sys.stdout.flush()
    with multiprocessing.get_context('fork').Pool(procs) as pool:
        for r in pool.imap(_work, ranges):
            total.merge(r)
    return total


class Check:
    def __init__(self, prop, level='model_checking'):
        self.prop, self.level = prop, level
        self.tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' or '--thorough' in sys.argv else 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.result = Result()
        self.states = self.transitions = 0
        self.runs, self.models = [], []
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def model(self, name, run):
        """Account for a TLC run."""
        self.models.append((name, run))
        return run

    def account(self):
        for name, run in self.models:
            self.states += run.states
            self.transitions += run.generated
            self.runs.append({'model': name, 'states': run.states, 'generated': run.generated, 'depth': run.depth,
                              'exported': len(run.exported)})

    def replay(self, fn, cases, extra=()):
        r = replay(fn, cases, extra)
        self.result.merge(r)
        return r

    def finish(self, rule):
        res = self.result
        self.account()
        broken = [v for v in res.violations if v[1] is None]
        if broken and len(broken) == len(res.violations):
            sys.stderr.write(f'machinery failure in {len(broken)} cases, first:\n{broken[0][2]["trace"]}\n{broken[0][2]["case"][:1500]}\n')
            sys.exit(2)
        fresh = {}
        for key, msg, data in (v for v in res.violations if v[1] is not None):
            fresh.setdefault(str(key), (msg, data))
        os.makedirs(EVIDENCE, exist_ok=True)
        rdir = os.path.join(EVIDENCE, 'replay')
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(self.prop + '-'):
                os.unlink(os.path.join(rdir, f))
        for n, (key, (msg, data)) in enumerate(sorted(fresh.items())[:20]):
            path = os.path.join(rdir, f'{self.prop}-{n}.json')
            with open(path, 'w') as fh:
                json.dump({'property': self.prop, 'seed': self.seed, 'tier': self.tier, 'key': key, 'what': msg, **data},
                          fh, indent=1, default=repr)
            print(f'VIOLATION property={self.prop} replay={path}')
            print(f'  {msg[:600]}')
        if len(fresh) > 20:
            print(f'  ... and {len(fresh) - 20} more')
        for fid in sorted(res.known):
            print(f'KNOWN-FINDING: property={self.prop} {fid} {finding(fid)} (seen {res.known[fid]} times)')
        cov = {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': res.evaluations,
               'distinct_nontrivial': len(res.distinct), 'rule': rule, 'samples': res.samples[:5] or ['none'],
               'models': self.runs, 'exhaustive': False, **{'n_' + k: v for k, v in sorted(res.counters.items())}}
        with open(os.path.join(EVIDENCE, f'{self.prop}.json'), 'w') as fh:
            json.dump({'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
                       'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
                       'violations': len(fresh)}, fh, indent=1, default=repr)
        print(f'{self.prop} {self.tier}: {self.states} model states, {res.evaluations} replays, {len(res.distinct)} distinct, '
              f'{len(fresh)} violations, {time.time() - self.t0:.1f} s')
        sys.exit(1 if fresh else 0)


def finding(fid):
    with open(KNOWN) as fh:
        for line in fh:
            if line.startswith(f'finding: {fid} '):
                return line.split(' ', 2)[2].strip()
    return ''


class Scratch:
    """A directory that is removed afterwards; all file effects stay inside."""
    def __enter__(self):
        import tempfile
        self.path = tempfile.mkdtemp(prefix='kiv_')
        return self.path

    def __exit__(self, *exc):
        shutil.rmtree(self.path, ignore_errors=True)
        return False
