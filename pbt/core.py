"""Runner of property-based checks.

A property is a list of sub-checks.  A sub-check has a Hypothesis strategy that
produces a *case* (plain JSON data) and a function that interprets the case
against the real code and an oracle.  Since a case is data only, the shrunk
failing case is the replay file and is executed again without Hypothesis.
Sub-checks may also enumerate a small scope exhaustively.
"""
import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import resource
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get('GCS_REPO', '/repo'))
CHUNK = 250
NPROC = int(os.environ.get('PBT_PROCS', 0)) or max(1, min(8, os.cpu_count() or 1))
CASE_CPU_SECONDS = float(os.environ.get('PBT_CASE_SECONDS', 30))
MEMORY = 3 << 29

MODULES = {'S': 'slices', 'F': 'formats', 'D': 'mappings', 'V': 'versions'}


class Failure(Exception):
    """The code under test breaks the property."""


class HarnessError(Exception):
    """The surroundings of the check do not work.  Any other exception that a
    check raises counts as a failure: code under test raises it, or returned
    something that is not usable as documented.
    """


class CaseTimeout(BaseException):
    """A case used CASE_CPU_SECONDS of CPU time."""


class ChunkAborted(BaseException):
    pass


def fail(message):
    raise Failure(message)


def need(condition, *message):
    if not condition:
        raise Failure(' '.join(m if isinstance(m, str) else repr(m) for m in message))


class Sub:
    """A sub-check of a property.

    name     - str
    check    - function (case, ctx), raises Failure
    strategy - function () -> Hypothesis strategy of cases, or None
    quick, thorough - number of cases to generate
    enum     - function (tier) -> iterable of cases, or None
    cost     - chunk divisor, the larger, the more expensive a case is
    """
    def __init__(self, name, check, strategy=None, quick=0, thorough=None, enum=None, cost=1):
        self.name, self.check, self.strategy = name, check, strategy
        self.thorough = quick * 25 if thorough is None else thorough
        self.quick = quick * (3 if cost == 1 else 2)
        self.enum, self.cost = enum, cost


class Property:
    def __init__(self, id, rule, subs, assumptions=()):
        self.id, self.rule, self.subs, self.assumptions = id, rule, subs, list(assumptions)

    def sub(self, name):
        return next(s for s in self.subs if s.name == name)


class Context:
    """Collects what a case exercised."""

    def __init__(self, known=()):
        self.labels = []
        self.is_nontrivial = False
        self.listed = known
        self.known_hits = set()

    def label(self, *names):
        self.labels.extend(names)

    def nontrivial(self, flag=True):
        self.is_nontrivial = self.is_nontrivial or bool(flag)

    def known(self, key, message):
        """The code breaks the property in the way that is identified by key."""
        if key not in self.listed:
            raise Failure(message)
        self.known_hits.add(key)


def load_property(pid):
    module = importlib.import_module(
        'pbt.' + ('parts' if pid in ('F14', 'F15', 'D08') else MODULES[pid[0]]))
    prop = module.PROPERTIES[pid]
    extra = importlib.import_module('pbt.parts').EXTRA.get(pid, []) if pid[0] == 'F' else []
    for sub in extra:
        if sub not in prop.subs:
            prop.subs.append(sub)
            prop.rule += ' Also (assembled) for storages assembled from their parts, as in F14.'
    return prop


def load_known(pid):
    """Return {key: text} of the known findings of a property."""
    known = {}
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            prefix = f'known: property={pid} key='
            if line.startswith(prefix):
                key, _, text = line[len(prefix):].partition(' ')
                known[key] = text
    return known


def load_regressions(pid):
    path = os.path.join(VERIF, 'regressions', pid + '.json')
    if os.path.exists(path):
        return json.load(open(path))
    return []


def dumps(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def digest(text):
    return hashlib.blake2b(text.encode(), digest_size=8).digest()


def derive(*args):
    return int.from_bytes(hashlib.blake2b(repr(args).encode(), digest_size=8).digest(), 'big')


def describe(exc):
    if isinstance(exc, Failure):
        return str(exc)
    last = traceback.extract_tb(exc.__traceback__)[-1]
    return f'{type(exc).__name__}: {exc} (raised at {last.filename}:{last.lineno} {last.name})'


class Runner:
    """Runs cases of one sub-check, in a worker process."""

    def __init__(self, prop, sub, known):
        self.prop, self.sub, self.known = prop, sub, known
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.known_hits = {}
        self.failure = None   # the last failing case
        self.nfailures = 0

    def run(self, case):
        text = dumps(case)
        ctx = Context(self.known)
        self.evaluations += 1
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU_SECONDS)
        try:
            self.sub.check(json.loads(text), ctx)
        except CaseTimeout:
            self.nfailures += 1
            self.failure = (case, f'no result within {CASE_CPU_SECONDS} s of CPU time', 'hang')
            raise ChunkAborted
        except (Exception, SystemExit) as exc:
            if isinstance(exc, HarnessError):
                raise
            self.nfailures += 1
            self.failure = (case, describe(exc), 'case')
            raise
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        for name in ctx.labels:
            self.labels[name] = self.labels.get(name, 0) + 1
        for key in ctx.known_hits:
            self.known_hits.setdefault(key, case)
        if ctx.is_nontrivial:
            self.nontrivial.add(digest(self.sub.name + text))
            if len(self.samples) < 3 and len(text) < 1500:
                self.samples.append(case)
            elif self.evaluations % 97 == 0 and len(text) < 1500:
                self.samples[-1] = case

    def result(self):
        return dict(evaluations=self.evaluations, nontrivial=self.nontrivial,
                    labels=self.labels, samples=self.samples, known=self.known_hits,
                    failure=None if self.failure is None else (self.sub.name,) + self.failure)


def run_generated(runner, seed, count):
    import hypothesis
    from hypothesis import HealthCheck, Phase
    from hypothesis.internal.conjecture import engine
    engine.MAX_SHRINKING_SECONDS = 60

    @hypothesis.seed(seed)
    @hypothesis.settings(max_examples=count, deadline=None, database=None,
                         derandomize=False, print_blob=False,
                         report_multiple_bugs=False,
                         phases=(Phase.generate,) if os.environ.get('PBT_NOSHRINK')
                         else (Phase.generate, Phase.shrink),
                         suppress_health_check=list(HealthCheck),
                         verbosity=hypothesis.Verbosity.quiet)
    @hypothesis.given(runner.sub.strategy())
    def test(case):
        runner.run(case)

    try:
        test()
    except ChunkAborted:
        pass
    except BaseException:
        if runner.failure is None:
            raise


def run_cases(runner, cases):
    for case in cases:
        try:
            runner.run(case)
        except ChunkAborted:
            break
        except (Exception, SystemExit):
            if runner.failure is None:
                raise
            break


def setup_worker():
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    warnings.simplefilter('ignore')

    def on_timer(signum, frame):
        raise CaseTimeout

    signal.signal(signal.SIGPROF, on_timer)


def execute(task, known, tier):
    kind, pid, subname, args = task
    prop = load_property(pid)
    sub = prop.sub(subname)
    runner = Runner(prop, sub, known)
    if kind == 'gen':
        run_generated(runner, *args)
    elif kind == 'enum':
        part, parts = args
        run_cases(runner, (c for i, c in enumerate(sub.enum(tier)) if i % parts == part))
    else:
        run_cases(runner, args)
    return runner.result()


def worker(conn, task, known, tier):
    try:
        setup_worker()
        result = execute(task, known, tier)
    except BaseException:
        result = dict(error=traceback.format_exc())
    try:
        conn.send(result)
        conn.close()
    finally:
        os._exit(0)


class Pool:
    """Runs every task in a process of its own."""

    def __init__(self, known, tier):
        self.known, self.tier = known, tier
        self.mp = multiprocessing.get_context('fork')

    def start(self, task):
        recv, send = self.mp.Pipe(False)
        proc = self.mp.Process(target=worker, args=(send, task, self.known, self.tier))
        proc.start()
        send.close()
        return recv, proc

    def one(self, task):
        recv, proc = self.start(task)
        return self.collect(recv, proc)

    def collect(self, recv, proc):
        try:
            result = recv.recv()
        except EOFError:
            proc.join()
            result = dict(error=f'worker ended with exit code {proc.exitcode}')
        recv.close()
        proc.join()
        return result

    def run(self, tasks, deadline):
        """Yield (task number, result).  Tasks that follow a failed task are
        dropped.  No task is started after deadline.
        """
        running, results, limit = {}, {}, len(tasks)
        number = 0
        try:
            while True:
                while (number < limit and len(running) < NPROC
                       and (time.monotonic() < deadline or number == 0)):
                    recv, proc = self.start(tasks[number])
                    running[recv] = (number, proc)
                    number += 1
                if not any(n < limit for n, _ in running.values()):
                    break
                for recv in multiprocessing.connection.wait(list(running)):
                    n, proc = running.pop(recv)
                    result = self.collect(recv, proc)
                    if n >= limit:
                        continue
                    results[n] = result
                    if 'error' in result or result['failure']:
                        limit = n + 1
        finally:
            for recv, (n, proc) in running.items():
                proc.kill()
                proc.join()
                recv.close()
        return {n: r for n, r in results.items() if n < limit}


def make_tasks(prop, tier, seed):
    tasks = []
    regressions = load_regressions(prop.id)
    for sub in prop.subs:
        cases = [r['case'] for r in regressions if r['sub'] == sub.name]
        if cases:
            tasks.append(('cases', prop.id, sub.name, cases))
    for sub in prop.subs:
        if sub.enum is not None:
            parts = NPROC
            tasks.extend(('enum', prop.id, sub.name, (p, parts)) for p in range(parts))
    queues = []
    for sub in prop.subs:
        total = sub.quick if tier == 'quick' else sub.thorough
        total = int(total * float(os.environ.get('PBT_SCALE', 1)))
        size = max(1, CHUNK // sub.cost)
        queue = []
        for i in range(-(-total // size) if sub.strategy else 0):
            queue.append(('gen', prop.id, sub.name,
                          (derive(seed, prop.id, sub.name, i), min(size, total - i * size))))
        queues.append(queue)
    # interleave, so that a deadline does not starve a sub-check
    longest = max(map(len, queues), default=0)
    merged = []
    for queue in queues:
        merged.extend(((i + 0.5) * longest / len(queue), task) for i, task in enumerate(queue))
    merged.sort(key=lambda item: item[0])
    tasks.extend(task for _, task in merged)
    return tasks


def write_replay(pid, doc):
    results_dir = os.environ.get('PBT_RESULTS', VERIF)
    os.makedirs(os.path.join(results_dir, 'replays'), exist_ok=True)
    text = json.dumps(doc, indent=1, sort_keys=True)
    path = os.path.join(results_dir, 'replays', f'{pid}-{digest(text).hex()[:10]}.json')
    with open(path, 'w') as f:
        f.write(text + '\n')
    return path


def run_property(pid, tier, seed):
    started = time.monotonic()
    budget = float(os.environ.get('PBT_BUDGET', 480 if tier == 'quick' else 7200))
    prop = load_property(pid)
    known = load_known(pid)
    pool = Pool(known, tier)
    tasks = make_tasks(prop, tier, seed)
    results = pool.run(tasks, started + budget)

    evaluations, nontrivial, labels, samples, hits = 0, set(), {}, {}, {}
    per_sub, failure, error = {}, None, None
    for n in sorted(results):
        r = results[n]
        if 'error' in r:
            error = r['error']
            break
        name = tasks[n][2]
        evaluations += r['evaluations']
        per_sub[name] = per_sub.get(name, 0) + r['evaluations']
        nontrivial |= r['nontrivial']
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
        if tasks[n][0] != 'cases' and len(samples.get(name, ())) < 3:
            samples.setdefault(name, []).extend(r['samples'][-1:])
        for k, case in r['known'].items():
            hits.setdefault(k, case)
        if r['failure']:
            failure = (n, r['failure'])
            break

    wall = time.monotonic() - started
    coverage = dict(
        evaluations=evaluations,
        distinct_nontrivial=len(nontrivial),
        rule=prop.rule,
        samples=[dict(sub=name, case=case) for name in samples for case in samples[name]],
        evaluations_per_subcheck=per_sub,
        labels=dict(sorted(labels.items())),
        exhaustive_subchecks=[s.name for s in prop.subs if s.enum is not None],
        tasks_run=len(results), tasks_planned=len(tasks))
    evidence = dict(property=pid, tier=tier, seed=seed, level='exploration', coverage=coverage,
                    assumptions=prop.assumptions, wall_s=round(wall, 2),
                    violations=0 if failure is None else 1)
    results_dir = os.environ.get('PBT_RESULTS', VERIF)
    os.makedirs(os.path.join(results_dir, 'evidence'), exist_ok=True)
    with open(os.path.join(results_dir, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')

    if error is not None:
        print(f'ERROR property={pid} the check itself failed:\n{error}')
        return 2
    for key in sorted(hits):
        print(f'KNOWN-FINDING: property={pid} {known[key]}')
    if failure is None:
        print(f'OK property={pid} tier={tier} seed={seed} evaluations={evaluations}'
              f' distinct_nontrivial={len(nontrivial)} wall_s={wall:.1f}')
        return 0
    n, (subname, case, message, kind) = failure
    doc = dict(property=pid, sub=subname, kind=kind, case=case, message=message)
    if kind == 'case':
        again = pool.one(('cases', pid, subname, [case]))
        if 'error' in again or not again['failure']:
            # depends on what ran before in the same process
            doc['kind'] = 'history'
            doc['task'] = tasks[n]
    path = write_replay(pid, doc)
    print(f'sub-check {subname}: {message}')
    print(f'case: {dumps(case)[:2000]}')
    print(f'VIOLATION property={pid} replay={path}')
    return 1


def replay(path):
    doc = json.load(open(path))
    pid = doc['property']
    pool = Pool(load_known(pid), 'quick')
    if doc['kind'] == 'history':
        kind, pid, subname, args = doc['task']
        task = (kind, pid, subname, tuple(args) if kind != 'cases' else args)
    else:
        task = ('cases', pid, doc['sub'], [doc['case']])
    r = pool.one(task)
    if 'error' in r:
        print(r['error'])
        return 2
    if r['failure']:
        print(f"sub-check {r['failure'][0]}: {r['failure'][2]}")
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    print(f'OK property={pid} replay={path}')
    return 0


def main(argv):
    sys.setrecursionlimit(10000)
    if len(argv) == 3 and argv[1] == '--replay':
        return replay(argv[2])
    if len(argv) == 2 and argv[0] == '--replay':
        return replay(argv[1])
    tier = os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED') or '1')
    try:
        return run_property(argv[0], tier, seed)
    except Exception:
        traceback.print_exc()
        return 2
