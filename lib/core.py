"""Property-based testing harness: generated cases, explicit oracles, shrinking, replay, evidence.

A check module (checks/cNN.py) defines PROPERTY (id), LEVEL, RULE and SUBS, a list of `Sub`.  A Sub couples a
Hypothesis strategy (the domain) with `fn(case, ctx)` (the oracle).  A case is plain data (JSON + bytes), so that
a shrunk failure can be stored and replayed without Hypothesis.
"""
import hashlib
import json
import mmap
import multiprocessing
import os
import resource
import signal
import sys
import tempfile
import time
import traceback

_real_time = time.time
_real_monotonic = time.monotonic

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.path.join(VERIF, 'evidence', 'replay')

MAX_SHRINK_SECONDS = 20


def setup_paths():
    """Import `bit` from the working tree and Hypothesis from the offline tool environment (same Python)."""
    scratch = tempfile.mkdtemp(prefix='verif_pyc_')
    sys.pycache_prefix = scratch
    for name in ('REQUESTS_CA_BUNDLE', 'CURL_CA_BUNDLE'):    # would override what the code asks `requests` for
        os.environ.pop(name, None)
    sys.path.insert(0, REPO)
    for extra in (os.path.join(VERIF, 'vendor'), '/opt/veriftools/pyvenv/lib/python3.12/site-packages'):
        if os.path.isdir(extra):
            sys.path.append(extra)
    return scratch


# ---------------------------------------------------------------- JSON codec (bytes <-> {"$b": hex})
def enc(x):
    if isinstance(x, (bytes, bytearray)):
        return {'$b': bytes(x).hex()}
    if isinstance(x, dict):
        return {str(k): enc(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    if isinstance(x, float):
        return {'$f': repr(x)}
    if x is None or isinstance(x, (int, str, bool)):
        return x
    raise TypeError('case is not plain data: %r' % (x,))


def dec(x):
    if isinstance(x, dict):
        if len(x) == 1 and '$b' in x:
            return bytes.fromhex(x['$b'])
        if len(x) == 1 and '$f' in x:
            return float(x['$f'])
        return {k: dec(v) for k, v in x.items()}
    if isinstance(x, list):
        return [dec(v) for v in x]
    return x


class Violation(AssertionError):
    pass


class KnownFinding(Exception):
    """Raised by an oracle for a failure listed in known_findings.txt (identified exactly)."""


def check(cond, msg='', *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def eq(got, want, what=''):
    if type(got) is bool or type(want) is bool:
        same = got is want
    else:
        same = got == want
    if not same:
        raise Violation('%s: got %.600r, expected %.600r' % (what, got, want))


def raises(exc, fn, what=''):
    """fn() must raise one of exc (and nothing else)."""
    try:
        got = fn()
    except exc as e:
        return e
    raise Violation('%s: expected %s, got result %.300r' % (what, exc, got))


class NoTermination(BaseException):
    """A case used up CASE_CPU_SECONDS of CPU time of its own (typical: milliseconds) or CASE_MEMORY."""


CASE_CPU_SECONDS = 100
CASE_MEMORY = 2 << 30  # address space of a worker; typical cases need a few megabytes


def _on_vtalrm(signum, frame):
    raise NoTermination('the call did not finish within %d s of CPU time' % CASE_CPU_SECONDS)


class Ctx:
    def __init__(self):
        self.labels = {}
        self.nontrivial = True
        self.known = []

    def label(self, *names):
        for n in names:
            self.labels[n] = self.labels.get(n, 0) + 1

    def trivial(self, is_trivial=True):
        if is_trivial:
            self.nontrivial = False


class Sub:
    def __init__(self, name, strategy, fn, quick, thorough=None, examples=(), shards=8, enumerate_=None):
        self.name = name
        self.strategy = strategy  # a strategy, or a zero-argument callable returning one
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.examples = examples  # list of cases (or callable returning one), always run
        self.shards = shards
        self.enumerate_ = enumerate_  # callable(tier) -> list of cases run in full

    def count(self, tier):
        return self.quick if tier == 'quick' else self.thorough


def stable_seed(*parts):
    h = hashlib.sha256('|'.join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:6], 'big')


class _Acc:
    """Per-shard statistics."""

    def __init__(self, sub, current=None):
        self.sub = sub
        self.evaluations = 0
        self.hashes = set()
        self.labels = {}
        self.samples = []
        self.known = {}
        self.failure = None
        self.current = current

    def run(self, raw):
        j = enc(raw)
        text = json.dumps(j, sort_keys=True)
        if self.current is not None:
            # Lets the parent name the case should this process die in it.
            b = text.encode()
            self.current[:4] = (len(b) if len(b) + 4 <= len(self.current) else 0).to_bytes(4, 'little')
            if len(b) + 4 <= len(self.current):
                self.current[4 : 4 + len(b)] = b
        case = dec(j)
        ctx = Ctx()
        self.evaluations += 1
        signal.signal(signal.SIGVTALRM, _on_vtalrm)
        signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_SECONDS)
        try:
            exhausted = False
            try:
                self.sub.fn(case, ctx)
            except MemoryError:
                exhausted = True  # raised anew outside, so that the frames holding the memory are gone
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            if exhausted:
                raise NoTermination('the call used more than %d MB of memory' % (CASE_MEMORY >> 20))
        except (Exception, NoTermination) as e:
            self.failure = {
                'sub': self.sub.name,
                'case': j,
                'error': '%s: %s' % (type(e).__name__, e),
                'trace': traceback.format_exc()[-3000:],
            }
            raise
        for k in ctx.known:
            self.known[k] = self.known.get(k, 0) + 1
        for k, v in ctx.labels.items():
            self.labels[k] = self.labels.get(k, 0) + v
        if ctx.nontrivial:
            h = hashlib.sha256((self.sub.name + text).encode()).digest()[:8]
            if h not in self.hashes:
                self.hashes.add(h)
                if len(self.samples) < 2 and len(text) < 4000:
                    self.samples.append({'sub': self.sub.name, 'case': j})


def _run_shard(sub, cases, n, seed, current=None):
    """Runs explicit cases, then n generated ones.  Returns an _Acc; acc.failure holds the minimal failing case."""
    acc = _Acc(sub, current)
    for raw in cases:
        try:
            acc.run(raw)
        except (Exception, NoTermination):
            return acc
    if n <= 0:
        return acc
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine

    if hasattr(engine, 'MAX_SHRINKING_SECONDS'):
        engine.MAX_SHRINKING_SECONDS = MAX_SHRINK_SECONDS
    strategy = sub.strategy() if callable(sub.strategy) else sub.strategy

    @hypothesis.seed(seed)
    @settings(
        max_examples=n,
        deadline=None,
        database=None,
        derandomize=False,
        print_blob=False,
        report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.shrink),
    )
    @given(strategy)
    def test(raw):
        acc.run(raw)

    try:
        test()
    except BaseException:
        if acc.failure is None:
            raise  # harness error: no oracle reported a failure
        # Hypothesis re-ran the minimal example last, so acc.failure is the minimal one.
        return acc
    if acc.failure is not None:
        # Hypothesis saw a failure that did not reproduce: report it, with the case that failed.
        acc.failure['flaky'] = True
    return acc


def _worker(sub, cases, n, seed, conn, current=None):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    resource.setrlimit(resource.RLIMIT_AS, (CASE_MEMORY, resource.getrlimit(resource.RLIMIT_AS)[1]))
    try:
        # Keep the code under test from cluttering stdout.
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        if not os.environ.get('VERIF_DEBUG'):
            os.dup2(devnull, 2)
        import logging

        logging.disable(logging.CRITICAL)
        import warnings

        warnings.simplefilter('ignore')
        acc = _run_shard(sub, cases, n, seed, current)
        conn.send(
            (
                'ok',
                {
                    'evaluations': acc.evaluations,
                    'hashes': acc.hashes,
                    'labels': acc.labels,
                    'samples': acc.samples,
                    'known': acc.known,
                    'failure': acc.failure,
                },
            )
        )
    except BaseException:
        conn.send(('error', traceback.format_exc()))
    finally:
        conn.close()
        os._exit(0)


def _died(ctx, sub, current):
    """A worker died without an answer: does the case it was running kill (or fail in) a process of its own?"""
    n = int.from_bytes(current[:4], 'little')
    if not n:
        return 'error', 'shard of %s died' % sub.name
    case = json.loads(current[4 : 4 + n].decode())
    parent, child = ctx.Pipe(duplex=False)
    p = ctx.Process(target=_worker, args=(sub, [dec(case)], 0, 0, child))
    p.start()
    child.close()
    try:
        kind, payload = parent.recv()
    except EOFError:
        p.join()
        failure = {'sub': sub.name, 'case': case, 'error': 'the process died (exit code %s)' % p.exitcode, 'trace': ''}
        return 'ok', {'evaluations': 1, 'hashes': set(), 'labels': {}, 'samples': [], 'known': {}, 'failure': failure}
    p.join()
    if kind == 'ok' and not payload['failure']:
        return 'error', 'shard of %s died; the case it was running passes on its own' % sub.name
    return kind, payload


def run_check(mod, tier, seed, only=None, jobs=None):
    t0 = _real_monotonic()
    jobs = jobs or min(8, os.cpu_count() or 1)
    tasks = []
    for sub in mod.SUBS:
        if only and sub.name not in only:
            continue
        explicit = list(sub.examples() if callable(sub.examples) else sub.examples)
        if sub.enumerate_:
            explicit += list(sub.enumerate_(tier))
        n = sub.count(tier)
        if tier == 'quick':
            n = int(n * getattr(mod, 'QUICK_SCALE', 3))
        shards = max(1, min(sub.shards, max((n + 19) // 20, (len(explicit) + 3) // 4)))
        for i in range(shards):
            k = n // shards + (1 if i < n % shards else 0)
            tasks.append((sub, explicit[i::shards], k, stable_seed(seed, mod.PROPERTY, sub.name, i)))
    # Longest-looking tasks first is not needed: interleave the subs' shards instead.
    tasks.sort(key=lambda t: t[3])

    ctx = multiprocessing.get_context('fork')
    running, results, failure, error = [], [], None, None
    pending = list(tasks)
    while (pending or running) and failure is None and error is None:
        while pending and len(running) < jobs:
            sub, cases, n, s = pending.pop(0)
            parent, child = ctx.Pipe(duplex=False)
            current = mmap.mmap(-1, 1 << 20)
            p = ctx.Process(target=_worker, args=(sub, cases, n, s, child, current))
            p.start()
            child.close()
            running.append((p, parent, sub, current))
        ready = multiprocessing.connection.wait([r[1] for r in running], timeout=5)
        for p, conn, sub, current in list(running):
            if conn in ready:
                try:
                    kind, payload = conn.recv()
                except EOFError:
                    p.join()
                    kind, payload = _died(ctx, sub, current)
                p.join()
                running = [r for r in running if r[0] is not p]
                if kind == 'error':
                    error = payload
                else:
                    results.append((sub, payload))
                    if payload['failure']:
                        failure = payload['failure']
    for p, conn, sub, current in running:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            p.kill()
        except Exception:
            pass
        p.join()
    return results, failure, error, _real_monotonic() - t0


def write_evidence(mod, tier, seed, results, wall, violations):
    evaluations = sum(r['evaluations'] for _, r in results)
    hashes = set()
    labels, known, samples, per_sub = {}, {}, [], {}
    for sub, r in results:
        hashes |= r['hashes']
        for k, v in r['labels'].items():
            labels[sub.name + ':' + k] = labels.get(sub.name + ':' + k, 0) + v
        for k, v in r['known'].items():
            known[k] = known.get(k, 0) + v
        per_sub[sub.name] = per_sub.get(sub.name, 0) + r['evaluations']
        have = sum(1 for s in samples if s['sub'] == sub.name)
        for s in r['samples'][: max(0, 2 - have)]:
            samples.append(s)
    ev = {
        'property': mod.PROPERTY,
        'tier': tier,
        'seed': seed,
        'level': mod.LEVEL,
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(hashes),
            'rule': mod.RULE,
            'samples': samples[:12],
            'cases_per_generator': per_sub,
            'labels': dict(sorted(labels.items())),
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 3),
        'violations': violations,
    }
    if known:
        ev['coverage']['known_findings_hit'] = known
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, mod.PROPERTY + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    os.replace(path + '.tmp', path)


def known_lines(prop):
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                out.append(line[len('finding: ') :])
    return out


def main(mod, argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only, replay, jobs = None, None, None
    it = iter(argv)
    for a in it:
        if a in ('quick', 'thorough'):
            tier = a
        elif a == '--only':
            only = next(it).split(',')
        elif a == '--replay':
            replay = next(it)
        elif a == '--jobs':
            jobs = int(next(it))
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if replay:
        data = json.load(open(replay))
        sub = [s for s in mod.SUBS if s.name == data['sub']][0]
        ctx = Ctx()
        try:
            sub.fn(dec(data['case']), ctx)
        except Exception:
            traceback.print_exc()
            print('VIOLATION property=%s replay=%s' % (mod.PROPERTY, replay))
            return 1
        print('replay passes: property=%s %s' % (mod.PROPERTY, replay))
        return 0
    results, failure, error, wall = run_check(mod, tier, seed, only, jobs)
    if error and not failure:
        sys.stderr.write(error + '\n')
        print('HARNESS-ERROR property=%s' % mod.PROPERTY)
        return 2
    write_evidence(mod, tier, seed, results, wall, 1 if failure else 0)
    if failure:
        os.makedirs(OUT, exist_ok=True)
        path = os.path.join(OUT, '%s-%s-%d.json' % (mod.PROPERTY, failure['sub'], seed))
        failure['property'] = mod.PROPERTY
        failure['how'] = './run %s --replay %s' % (mod.PROPERTY, path)
        with open(path, 'w') as f:
            json.dump(failure, f, indent=1, sort_keys=True)
            f.write('\n')
        sys.stderr.write('%s\n%s\n' % (failure['error'], json.dumps(failure['case'])[:2000]))
        print('VIOLATION property=%s replay=%s' % (mod.PROPERTY, path))
        return 1
    for line in known_lines(mod.PROPERTY):
        print('KNOWN-FINDING: ' + line)
    n = sum(r['evaluations'] for _, r in results)
    print('OK property=%s tier=%s seed=%d cases=%d wall=%.1fs' % (mod.PROPERTY, tier, seed, n, wall))
    return 0
