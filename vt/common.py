"""Runner shared by all checks: seeded Hypothesis campaigns over JSON-able cases, replay files, evidence.

A property is a list of Sub(...): a generator of cases (a Hypothesis strategy, or a finite list that is
enumerated completely) and a check(case) that raises Violation, and returns True when the case was
non-trivial by the Sub's stated rule.  A case is plain JSON, so a shrunk failure is saved as is and
replayed without Hypothesis.

Exit codes: 0 held; 1 with a VIOLATION line; 2 anything else (harness error, inconclusive).
"""
import hashlib
import json
import multiprocessing
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VT_REPO', '/repo')
PYTHON = sys.executable
sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ.setdefault('MPLBACKEND', 'Agg')
for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
    os.environ[_v] = '1'
if REPO not in sys.path:
    sys.path.insert(0, REPO)
# Hypothesis is pure Python; numpy and the rest come from the project's own environment, which is ahead on sys.path.
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
warnings.simplefilter('ignore')

SEED = int(os.environ.get('VERIF_SEED') or 1)
TIER = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
JOBS = int(os.environ.get('VT_JOBS') or min(8, os.cpu_count() or 1))
SCALE = float(os.environ.get('VT_SCALE') or 1)   # development only
START = time.time()
OVERALL_S = 780 if TIER == 'quick' else 6 * 3600
BUDGET_S = float(os.environ.get('VT_BUDGET') or (450 if TIER == 'quick' else 5 * 3600))   # no new case after that
SOFT_CPU = 20 if TIER == 'quick' else 120   # where the cost of single cases is not known beforehand
MEM = 12 << 30


class Violation(Exception):
    """The code under test broke the property."""


class Hang(BaseException):
    """One case used far more CPU time than any case needs (a termination failure of the code under test)."""


def need(cond, *msg):
    if not cond:
        raise Violation(' '.join(str(m) for m in msg))


def sut(f, *a, **kw):
    """Call the code under test on an input inside its domain: any exception is a violation."""
    try:
        return f(*a, **kw)
    except (Violation, HarnessError):
        raise
    except Exception as e:
        raise Violation(f'{getattr(f, "__name__", f)} raised {type(e).__name__}: {e}') from e


class HarnessError(Exception):
    pass


class OutOfTime(BaseException):
    """The time budget is used up (a slow machine): report what was explored."""


_labels = {}


def label(name):
    """count a class of generated cases (distribution report in the evidence file)"""
    _labels[name] = _labels.get(name, 0) + 1


class Sub:
    def __init__(self, name, gen, check, quick=200, thorough=None, rule='', shards=1, cpu=60, thorough_gen=None,
                 thorough_only=False, soft=False):
        self.name, self.check, self.rule, self.cpu = name, check, rule, cpu
        self.soft = soft   # single cases may be too expensive: skipped and counted, unless it is one in ten
        self.gen = thorough_gen if thorough_gen is not None and TIER == 'thorough' else gen
        self.finite = isinstance(self.gen, (list, tuple))
        self.n = quick if TIER == 'quick' else (thorough or quick * 20)
        self.n = max(1, int(self.n * SCALE))
        self.shards = shards if TIER == 'quick' or self.finite else max(shards, min(64, max(8, self.n // 2000)))
        self.thorough_only = thorough_only


def _jsonable(x):
    if isinstance(x, (list, tuple)):
        return [_jsonable(y) for y in x]
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, bool) or x is None or isinstance(x, (str, float)):
        return x
    return int(x)


class _Run:
    def __init__(self, sub):
        self.sub = sub
        self.n = 0
        self.nontrivial = set()
        self.samples = []
        self.fail = None
        self.skipped = self.slow = 0
        self.maxcpu = 0.0
        self.early = False

    def one(self, case):
        from vt.ref import TooBig
        if time.time() - START > BUDGET_S:
            raise OutOfTime
        case = _jsonable(case)
        self.current = case
        t = time.process_time()
        signal.setitimer(signal.ITIMER_VIRTUAL, self.sub.cpu)
        try:
            nt = self.sub.check(case)
        except TooBig:
            self.skipped += 1
            nt = False
        except Hang:
            self.slow += 1
            if not self.sub.soft or self.slow >= 4 and self.slow * 10 > self.n:
                raise
            nt = False
        except Violation as e:
            self.fail = (case, str(e))
            raise
        except (HarnessError, MemoryError):
            raise
        except Exception as e:
            if type(e).__module__.startswith('hypothesis'):
                raise
            # the oracle could not make sense of what the code under test returned (None, wrong shape, ...)
            msg = 'unusable result: ' + traceback.format_exc(limit=-3)
            self.fail = (case, msg)
            raise Violation(msg) from e
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        self.maxcpu = max(self.maxcpu, time.process_time() - t)
        self.n += 1
        if nt:
            h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).digest()[:10]
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                if len(self.samples) < 2:
                    s = json.dumps(case)
                    self.samples.append(s if len(s) < 1200 else s[:1200] + '...')


def _on_hang(*_):
    raise Hang()


def _run_shard(sub, shard, conn):
    """child process"""
    out = {'error': None}
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
        signal.signal(signal.SIGVTALRM, _on_hang)
        sys.stdout = sys.stderr = open(os.devnull, 'w')   # Hypothesis and the code under test print
        _labels.clear()
        run = _Run(sub)
        try:
            if sub.finite:
                for case in sub.gen[shard::sub.shards]:
                    run.one(case)
            else:
                _hypothesis(sub, shard, run)
        except OutOfTime:
            run.early = True
        except Hang:
            run.fail = (run.current, f'the case did not finish within {sub.cpu} s of CPU time')
        except Violation as e:
            if run.fail is None:
                run.fail = (getattr(run, 'current', None), str(e))
        except Exception:
            if run.fail is None:
                raise
            # the code under test is not deterministic (Hypothesis could not repeat the failure): still a failure
        out.update(n=run.n, nontrivial=run.nontrivial, samples=run.samples, fail=run.fail, skipped=run.skipped, slow=run.slow,
                   labels=dict(_labels), maxcpu=run.maxcpu, early=run.early)
    except BaseException:
        out['error'] = traceback.format_exc()
    conn.send(out)
    conn.close()


def _hypothesis(sub, shard, run):
    tmp = tempfile.mkdtemp(prefix='vt-hyp-')
    os.environ['HYPOTHESIS_STORAGE_DIRECTORY'] = tmp
    try:
        import hypothesis
        from hypothesis import HealthCheck, Phase, Verbosity, given, settings
        import hypothesis.internal.conjecture.engine as engine
        if hasattr(engine, 'MAX_SHRINKING_SECONDS'):
            engine.MAX_SHRINKING_SECONDS = 45
        n = max(1, sub.n // sub.shards)

        @hypothesis.seed(SEED * 100003 + shard)
        @settings(max_examples=n, database=None, deadline=None, print_blob=False, verbosity=Verbosity.quiet,
                  phases=(Phase.explicit, Phase.generate, Phase.target, Phase.shrink), report_multiple_bugs=False,
                  suppress_health_check=(HealthCheck.too_slow, HealthCheck.data_too_large,
                                         HealthCheck.large_base_example))
        @given(sub.gen)
        def test(case):
            run.one(case)

        test()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _collect(tasks):
    """run (sub, shard) tasks in at most JOBS child processes"""
    ctx = multiprocessing.get_context('fork')
    t0 = time.time()
    pending, live, results = list(tasks), [], []
    late = False
    while pending or live:
        while pending and len(live) < JOBS:
            sub, shard = pending.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_run_shard, args=(sub, shard, w))
            p.start()
            w.close()
            live.append((sub, shard, p, r))
        multiprocessing.connection.wait([x[3] for x in live], timeout=1)
        still = []
        for sub, shard, p, r in live:
            if r.poll():
                try:
                    out = r.recv()
                except EOFError:
                    p.join()
                    out = {'error': f'child for {sub.name} died, exit code {p.exitcode}'}
                p.join()
                results.append((sub, shard, out))
                if out.get('fail'):
                    pending = [t for t in pending if t[0] is not sub]
            elif time.time() - t0 > OVERALL_S:
                late = True
                p.kill()
                p.join()
                results.append((sub, shard, {'error': f'{sub.name} ran out of wall-clock time (inconclusive)'}))
            else:
                still.append((sub, shard, p, r))
        live = still
        if late:
            pending = []
    return results


def load_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)


def main(pid, subs, assumptions=(), argv=()):
    import multiprocessing.connection  # noqa: F401
    argv = list(argv)
    if '--replay' in argv:
        return replay(pid, subs, argv[argv.index('--replay') + 1])
    only = argv[argv.index('--sub') + 1] if '--sub' in argv else None
    t0 = time.time()
    subs = [s for s in subs if (not s.thorough_only or TIER == 'thorough') and (only is None or s.name == only)]
    tasks = [(s, i) for s in subs for i in range(s.shards)]
    results = _collect(tasks)
    fails, errors = [], []
    cov = {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': '', 'samples': [], 'parts': {}}
    rules = []
    for s in subs:
        mine = sorted((r for r in results if r[0] is s), key=lambda r: r[1])
        n = sum(r[2].get('n', 0) for r in mine)
        nt = set().union(*(r[2].get('nontrivial', set()) for r in mine))
        labels = {}
        for r in mine:
            for k, c in r[2].get('labels', {}).items():
                labels[k] = labels.get(k, 0) + c
        part = {'evaluations': n, 'distinct_nontrivial': len(nt),
                'enumerated_completely': s.finite and not any(r[2].get('early') for r in mine)}
        skipped = sum(r[2].get('skipped', 0) for r in mine)
        if skipped:
            part['skipped_too_big_for_reference'] = skipped
        slow = sum(r[2].get('slow', 0) for r in mine)
        if slow:
            part['skipped_too_slow'] = slow
        early = sum(bool(r[2].get('early')) for r in mine)
        if early:
            part['shards_stopped_by_the_time_budget'] = early
        if labels:
            part['distribution'] = dict(sorted(labels.items()))
        part['max_case_cpu_s'] = round(max([r[2].get('maxcpu', 0) for r in mine] or [0]), 3)
        cov['parts'][s.name] = part
        cov['evaluations'] += n
        cov['distinct_nontrivial'] += len(nt)
        rules.append(f'[{s.name}] {s.rule}')
        for r in mine[:1]:
            cov['samples'] += [f'{s.name}: {x}' for x in r[2].get('samples', [])]
        for r in mine:
            if r[2].get('fail'):
                fails.append((s, r[2]['fail']))
            if r[2].get('error'):
                errors.append((s, r[2]['error']))
    cov['rule'] = ' '.join(rules)
    lines = []
    findings = [f for f in load_findings() if f.get('property') == pid and f.get('status') == 'known']
    for f in findings:
        lines.append(f'KNOWN-FINDING: property={pid} {f["what"]}')
    seen = set()
    for s, (case, msg) in fails:
        if s.name in seen:
            continue
        seen.add(s.name)
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(d, f'{pid}-{s.name}-{h}.json')
        with open(path, 'w') as f:
            json.dump({'property': pid, 'sub': s.name, 'case': case, 'message': msg, 'seed': SEED}, f)
        lines.append(f'  {s.name}: {msg[:1500]}')
        lines.append(f'VIOLATION property={pid} replay={path}')
    ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': 'exploration', 'coverage': cov,
          'assumptions': list(assumptions), 'wall_s': round(time.time() - t0, 3), 'violations': len(seen)}
    if only is None:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for x in lines:
        print(x)
    for s, e in errors:
        print(f'ERROR {s.name}: {e}', file=sys.stderr)
    if fails:
        return 1
    if errors:
        return 2
    print(f'{pid}: held on {cov["evaluations"]} cases, {cov["distinct_nontrivial"]} distinct non-trivial, '
          f'{ev["wall_s"]} s')
    return 0


def replay(pid, subs, path):
    with open(path) as f:
        r = json.load(f)
    s = [s for s in subs if s.name == r['sub']][0]
    run = _Run(s)
    signal.signal(signal.SIGVTALRM, _on_hang)
    try:
        run.one(r['case'])
    except Violation as e:
        print(f'  {s.name}: {e}')
    except Hang:
        print(f'  {s.name}: the case did not finish within {s.cpu} s of CPU time')
    else:
        print(f'{pid}: the replayed case holds')
        return 0
    print(f'VIOLATION property={pid} replay={path}')
    return 1
