"""Generic runner for the generated-input checks in /verif/checks.

A check module defines PROPERTY (id), RULE (text for the evidence file) and
SUBS, a list of Sub objects.  A Sub couples a Hypothesis strategy that draws a
*case* -- plain Python data (numbers, strings, lists, tuples, dicts) -- with a
function run(case, rec) that executes the case against the real code and
compares with an oracle.  run() raises Violation (or lets an exception of the
code under test escape) when the property is broken.

Since a case is plain data, the shrunk failing case is written as a Python
literal to the replay file and can be executed again without Hypothesis:

    ./check P01 --replay failures/P01-....json

Jobs (sub x shard) run in separate worker processes; each worker derives its
Hypothesis seed from VERIF_SEED, the sub's name and the shard number only.
"""
import ast
import contextlib
import hashlib
import importlib
import json
import logging
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
SCRATCH_ROOT = '/dev/shm' if os.access('/dev/shm', os.W_OK) else tempfile.gettempdir()


class Violation(Exception):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """The check itself is wrong (never reported as a violation)."""


def require(cond, msg, *details):
    if not cond:
        if details:
            msg = msg + '\n' + '\n'.join(
                d if isinstance(d, str) else repr(d) for d in details)
        raise Violation(msg)


class Sub:
    def __init__(self, name, strategy, run, quick, thorough, shards=None):
        self.name = name
        self.strategy = strategy      # zero-argument function returning a strategy
        self.run = run                # run(case, rec)
        self.quick = quick            # number of cases per tier
        self.thorough = thorough
        self.shards = shards          # number of jobs to split into (quick)


class Recorder:
    """Collects what a run really exercised."""
    def __init__(self):
        self.evaluations = 0
        self.classes = {}
        self.keys = set()
        self.samples = []
        self.frozen = False
        self._nontrivial = False
        self.known = {}

    def begin(self):
        self._nontrivial = False

    def event(self, label, n=1):
        if not self.frozen:
            self.classes[label] = self.classes.get(label, 0) + n

    def nontrivial(self):
        self._nontrivial = True

    def excluded(self, label):
        """Count input excluded by construction (known finding)."""
        if not self.frozen:
            self.known[label] = self.known.get(label, 0) + 1

    def end(self, case):
        if self.frozen:
            return
        self.evaluations += 1
        if self._nontrivial:
            text = repr(case)
            key = hashlib.blake2b(text.encode('utf-8', 'surrogatepass'), digest_size=8).hexdigest()
            if key not in self.keys:
                self.keys.add(key)
                n = len(self.keys)
                if len(self.samples) < 4 and (n & (n - 1)) == 0:
                    self.samples.append(text[:1500])

    def dump(self):
        return dict(evaluations=self.evaluations, classes=self.classes,
                    keys=sorted(self.keys), samples=self.samples, known=self.known)


def quiet():
    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')


def load_check(pid):
    sys.path.insert(0, os.path.join(VERIF, 'lib'))
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    quiet()
    import toron
    if not os.path.abspath(toron.__file__).startswith(os.path.abspath(SRC) + os.sep):
        raise HarnessError(f'toron imported from {toron.__file__}, expected {SRC}')
    quiet()
    return importlib.import_module(pid.lower())


def is_code_failure(exc):
    """True if *exc* says something about the code under test.

    A Violation always does.  Any other exception does if it passed through a
    frame of the code under test; exceptions raised purely by harness code are
    harness errors.
    """
    if isinstance(exc, Violation):
        return True
    if isinstance(exc, HarnessError):
        return False
    tb = exc.__traceback__
    root = os.path.abspath(SRC) + os.sep
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    for linked in (exc.__cause__, exc.__context__):
        if linked is not None and linked is not exc and is_code_failure(linked):
            return True
    return False


def sub_seed(seed, name, shard):
    h = hashlib.sha256(f'{seed}|{name}|{shard}'.encode()).digest()
    return int.from_bytes(h[:6], 'big')


def write_json(path, obj):
    tmp = path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(obj, f)
    os.replace(tmp, path)


def literal(obj):
    text = repr(obj)
    return text


def unliteral(text):
    try:
        return ast.literal_eval(text)
    except ValueError:
        return eval(text, {'__builtins__': {}, 'inf': float('inf'), 'nan': float('nan')})


# --------------------------------------------------------------------------
# Worker
# --------------------------------------------------------------------------
def worker(pid, sub_name, shard, ncases, seed, out, budget):
    """Run *ncases* generated cases of one sub; write result JSON to *out*."""
    start = time.monotonic()
    result = {'status': 'ok'}
    try:
        mod = load_check(pid)
        subs = [s for s in mod.SUBS if s.name == sub_name]
        sub = subs[0]
        import hypothesis
        from hypothesis import settings, HealthCheck, Phase, Verbosity, given
        rec = Recorder()
        failure = {}

        def body(case):
            if not failure and time.monotonic() - start > budget:
                rec.event('(skipped: time budget)')
                return
            rec.begin()
            try:
                sub.run(case, rec)
            except hypothesis.errors.HypothesisException:
                raise
            except BaseException as e:
                if isinstance(e, KeyboardInterrupt):
                    raise
                rec.frozen = True
                text = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
                failure.update(case=case, text=text, code=is_code_failure(e),
                               msg=f'{type(e).__name__}: {e}')
                write_json(out + '.fail', dict(
                    property=pid, sub=sub_name, seed=seed, shard=shard,
                    case=literal(case), code=failure['code'],
                    message=failure['msg'][:4000], traceback=text[-8000:],
                    stats=rec.dump()))
                raise
            rec.end(case)

        test = given(sub.strategy())(body)
        test = settings(
            max_examples=ncases, database=None, deadline=None,
            report_multiple_bugs=False, print_blob=False,
            verbosity=Verbosity.quiet,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                   HealthCheck.large_base_example],
        )(test)
        test = hypothesis.seed(sub_seed(seed, sub_name, shard))(test)
        try:
            test()
        except BaseException as e:
            if not failure:
                raise
            result['status'] = 'fail'
        result['stats'] = rec.dump()
    except BaseException as e:
        result['status'] = 'error'
        result['error'] = traceback.format_exc()
    result['wall'] = time.monotonic() - start
    write_json(out, result)
    return 0


# --------------------------------------------------------------------------
# Driver
# --------------------------------------------------------------------------
def drive(pid, tier, seed):
    t0 = time.monotonic()
    scratch = tempfile.mkdtemp(prefix=f'verif-{pid}-', dir=SCRATCH_ROOT)
    try:
        return _drive(pid, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


PRELOADED = {'P18', 'P19'}       # checks whose workers run with lib/preload.c


def worker_env(scratch, pid=None):
    env = dict(os.environ)
    if pid in PRELOADED:
        lib = os.path.join(scratch, 'preload.so')
        subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', lib, os.path.join(VERIF, 'lib', 'preload.c'), '-ldl'],
                       check=True, capture_output=True)
        env['LD_PRELOAD'] = lib
    env['PYTHONPATH'] = SRC
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONHASHSEED'] = '0'
    env['TMPDIR'] = scratch
    env['SQLITE_TMPDIR'] = scratch
    env['VERIF_SCRATCH'] = scratch
    env['HYPOTHESIS_STORAGE_DIRECTORY'] = os.path.join(scratch, 'hyp')
    return env


def _drive(pid, tier, seed, scratch, t0):
    mod = load_check(pid)
    evidence_path = os.path.join(VERIF, 'evidence', f'{pid}.json')
    os.makedirs(os.path.dirname(evidence_path), exist_ok=True)
    only = os.environ.get('VERIF_SUB')
    ncpu = os.cpu_count() or 4
    quick = tier == 'quick'
    total_budget = 600 if quick else 3000
    jobs = []
    for sub in mod.SUBS:
        if only and sub.name != only:
            continue
        n = sub.quick if quick else sub.thorough
        scale = float(os.environ.get('VERIF_SCALE', '1'))
        n = max(1, int(n * scale))
        shards = sub.shards or min(ncpu, max(1, n // 20))
        if not quick:
            shards = max(shards, min(32, n // 200))
        base, extra = divmod(n, shards)
        for i in range(shards):
            k = base + (1 if i < extra else 0)
            if k:
                jobs.append((sub.name, i, k))
    # Interleave shards so that every sub starts early.
    jobs.sort(key=lambda j: (j[1], j[0]))
    nworkers = min(int(os.environ.get('VERIF_WORKERS', min(8, ncpu))), len(jobs))
    env = worker_env(scratch, pid)
    running = []
    results = []
    failed = None
    errors = []
    notes = []
    pending = list(jobs)
    nworker_id = 0

    def launch(job):
        nonlocal nworker_id
        nworker_id += 1
        name, shard, k = job
        out = os.path.join(scratch, f'job{nworker_id}.json')
        remaining = max(5.0, total_budget - (time.monotonic() - t0))
        wdir = os.path.join(scratch, f'w{nworker_id}')
        os.mkdir(wdir)
        wenv = dict(env, TMPDIR=wdir, SQLITE_TMPDIR=wdir, VERIF_SCRATCH=wdir)
        log = open(os.path.join(scratch, f'job{nworker_id}.log'), 'w')
        p = subprocess.Popen(
            [sys.executable, os.path.join(VERIF, 'lib', 'main.py'), pid, '--worker', name,
             '--shard', str(shard), '--cases', str(k), '--seed', str(seed),
             '--out', out, '--budget', str(remaining)],
            env=wenv, cwd=wdir, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
            start_new_session=True)
        log.close()
        return dict(p=p, job=job, out=out, log=log.name, wdir=wdir)

    def kill(r):
        import signal
        with contextlib.suppress(ProcessLookupError, PermissionError):
            os.killpg(r['p'].pid, signal.SIGKILL)
        r['p'].wait()

    shrink_since = None
    shrink_limit = 60 if quick else 300
    hard = total_budget + 90
    while pending or running:
        while pending and len(running) < nworkers and not failed:
            running.append(launch(pending.pop(0)))
        time.sleep(0.05)
        now = time.monotonic()
        for r in list(running):
            rc = r['p'].poll()
            failfile = r['out'] + '.fail'
            if rc is None:
                if os.path.exists(failfile):
                    # A failure was found; give the worker time to shrink it.
                    if shrink_since is None:
                        shrink_since = now
                        failed = failfile
                        for other in list(running):
                            if other is not r:
                                kill(other)
                                running.remove(other)
                        pending.clear()
                        break
                    if now - shrink_since > shrink_limit:
                        kill(r)
                        running.remove(r)
                elif now - t0 > hard:
                    notes.append(f'{r["job"]}: stopped at the time limit (inconclusive)')
                    kill(r)
                    running.remove(r)
                continue
            running.remove(r)
            if os.path.exists(r['out']):
                with open(r['out']) as f:
                    res = json.load(f)
            else:
                with open(r['log']) as f:
                    res = {'status': 'error', 'error': f'worker ended with {rc}\n' + f.read()[-4000:]}
            res['job'] = r['job']
            results.append(res)
            shutil.rmtree(r['wdir'], ignore_errors=True)
            if res['status'] == 'error':
                errors.append(f'{r["job"]}: {res["error"]}')
            elif res['status'] == 'fail':
                failed = failfile
                for other in list(running):
                    kill(other)
                running.clear()
                pending.clear()
                break
    # Merge statistics.
    classes, keys, samples, known = {}, set(), [], {}
    evaluations = 0
    for res in results:
        st = res.get('stats')
        if not st:
            continue
        evaluations += st['evaluations']
        for k, v in st['classes'].items():
            classes[f'{res["job"][0]}: {k}'] = classes.get(f'{res["job"][0]}: {k}', 0) + v
        keys.update((res['job'][0], k) for k in st['keys'])
        known.update({k: known.get(k, 0) + v for k, v in st['known'].items()})
        samples.extend({'sub': res['job'][0], 'case': s} for s in st['samples'])
    seen = {}
    picked = []
    for s in samples:
        seen[s['sub']] = seen.get(s['sub'], 0) + 1
        if seen[s['sub']] <= 3:
            picked.append(s)

    violation = None
    if failed:
        with open(failed) as f:
            fail = json.load(f)
        evaluations += fail['stats']['evaluations'] if not any(
            r['status'] == 'fail' for r in results) else 0
        if fail['code']:
            violation = fail
        else:
            errors.append(fail['traceback'])

    # Known findings of this property are demonstrated afresh on every run.
    known_lines = []
    if not violation and not errors:
        import known_findings
        known_lines = known_findings.demonstrate(pid, scratch)

    evidence = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(keys),
            'rule': mod.RULE,
            'samples': picked or ([{'case': violation['case'][:1500]}] if violation else []),
            'classes': dict(sorted(classes.items())),
            'excluded_known': known,
            'notes': notes,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': 1 if violation else 0,
    }
    write_json(evidence_path, evidence)
    with open(evidence_path) as f:
        text = json.load(f)
    with open(evidence_path, 'w') as f:
        json.dump(text, f, indent=1)

    for line in notes:
        print('note:', line)
    if errors:
        print('HARNESS ERROR', file=sys.stderr)
        for e in errors[:3]:
            print(e, file=sys.stderr)
        if not violation:
            return 3
    if violation:
        os.makedirs(os.path.join(VERIF, 'failures'), exist_ok=True)
        digest = hashlib.sha256(violation['case'].encode('utf-8', 'surrogatepass')).hexdigest()[:12]
        path = os.path.join(VERIF, 'failures', f'{pid}-{violation["sub"]}-{digest}.json')
        violation.pop('stats', None)
        with open(path, 'w') as f:
            json.dump(violation, f, indent=1)
        print(violation['message'])
        print(f'  sub={violation["sub"]} case={violation["case"][:3000]}')
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    for line in known_lines:
        print(line)
    print(f'{pid}: held on {evaluations} cases ({len(keys)} distinct non-trivial), '
          f'{evidence["wall_s"]} s')
    return 0


def replay(pid, path):
    with open(path) as f:
        info = json.load(f)
    scratch = tempfile.mkdtemp(prefix=f'verif-{pid}-', dir=SCRATCH_ROOT)
    try:
        if pid in PRELOADED and 'preload.so' not in os.environ.get('LD_PRELOAD', ''):
            return subprocess.call([sys.executable, os.path.join(VERIF, 'lib', 'main.py'), pid, '--replay', path],
                                   env=worker_env(scratch, pid))
        os.environ.update(worker_env(scratch))
        tempfile.tempdir = scratch
        mod = load_check(pid)
        sub = [s for s in mod.SUBS if s.name == info['sub']][0]
        rec = Recorder()
        try:
            sub.run(unliteral(info['case']), rec)
        except BaseException as e:
            if not is_code_failure(e):
                raise
            traceback.print_exc()
            print(f'VIOLATION property={pid} replay={path}')
            return 1
        print(f'{pid}: the replayed case holds')
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
