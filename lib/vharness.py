"""
Common harness of every check.

A check module (checks/*.py) declares sub-checks:  a Hypothesis strategy producing *plain literal* cases (tuples, lists,
dictionaries, strings, bytes, numbers, booleans, None) and a runner ``run(case, ctx)`` deciding one case against an
oracle. The runner raises ``Violation`` when the property is broken.

Every sub-check runs in its own worker process (several at a time). Hypothesis shrinks a failure, the minimal case is
written as a replay file, which is replayed without Hypothesis with ``./check <ID> --replay <file>``.
"""
import ast, errno, hashlib, importlib, json, os, resource, signal, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
REPO_CODE = os.path.join(REPO, 'scarletio') + os.sep

# Errors telling that the sandbox ran out of something.
RESOURCE_ERRORS = (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EADDRINUSE, errno.EDQUOT)

_monotonic = time.monotonic


class Violation(Exception):
    """The property is broken by the current case."""


class HarnessError(Exception):
    """The check itself could not do its work."""


class CaseHang(BaseException):
    """The current case did not end."""


class BudgetOver(BaseException):
    """Ends the search of a worker that used up its time."""


def check(condition, message, *details):
    if not condition:
        if details:
            message = f'{message}: ' + ', '.join(repr(detail) for detail in details)
        raise Violation(message)


def check_eq(got, expected, message, *details):
    if not (got == expected):
        of = ''.join(f' of {detail!r}' for detail in details)
        raise Violation(f'{message}{of}: got {got!r}, expected {expected!r}')


class Ctx:
    """Passed to each case: classifies it."""
    __slots__ = ('labels', 'is_nontrivial', 'note')

    def __init__(self):
        self.labels = set()
        self.is_nontrivial = False
        self.note = None

    def nontrivial(self, condition = True):
        if condition:
            self.is_nontrivial = True

    def label(self, name, condition = True):
        if condition:
            self.labels.add(name)


class Sub:
    __slots__ = ('name', 'strategy', 'runner', 'quick', 'thorough', 'rule', 'fixed', 'shards')

    def __init__(self, name, strategy, runner, quick, thorough, rule, fixed, shards):
        self.name = name
        self.strategy = strategy
        self.runner = runner
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.fixed = fixed
        self.shards = shards


class Property:
    registry = {}

    def __init__(self, id_, rule = '', assumptions = (), level = 'exploration'):
        self.id = id_
        self.rule = rule
        self.subs = {}
        self.assumptions = list(assumptions)
        self.level = level
        self.knowns = []
        Property.registry[id_] = self

    def case(self, name, strategy, quick = 300, thorough = None, rule = '', fixed = (), shards = 1):
        """
        strategy: zero argument callable returning a Hypothesis strategy (or None, if only fixed cases are ran).
        fixed: cases always executed before the generated ones (regressions of shrunk earlier failures).
        shards: how many worker processes share the quick run.
        """
        def decorator(runner):
            self.subs[name] = Sub(
                name, strategy, runner, quick, (quick * 20 if thorough is None else thorough), rule, list(fixed), shards
            )
            return runner
        return decorator

    def known(self, finding_id):
        """Registers a reproduction of a known finding; the function raises Violation while the defect exists."""
        def decorator(runner):
            self.knowns.append((finding_id, runner))
            return runner
        return decorator


# ---------------------------------------------------------------------------------------------------------------------
# Execution of a single case
# ---------------------------------------------------------------------------------------------------------------------

CPU_LIMIT = float(os.environ.get('VERIF_CASE_CPU', '40'))
WALL_LIMIT = float(os.environ.get('VERIF_CASE_WALL', '150'))

ENVIRONMENT_ERRNOS = {errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.ENOSPC, errno.EADDRNOTAVAIL, errno.EADDRINUSE}


def _on_hang(signal_number, frame):
    raise CaseHang('CPU' if signal_number == signal.SIGPROF else 'wall')


def _frames_of(exception):
    seen = set()
    stack = [exception]
    while stack:
        exc = stack.pop()
        if exc is None or id(exc) in seen:
            continue
        seen.add(id(exc))
        tb = exc.__traceback__
        while tb is not None:
            yield tb.tb_frame.f_code.co_filename, tb.tb_lineno, tb.tb_frame.f_code.co_name
            tb = tb.tb_next
        stack.append(exc.__cause__)
        stack.append(exc.__context__)


def classify(exception):
    """Turns an exception escaping a case into Violation / HarnessError."""
    if isinstance(exception, (Violation, HarnessError)):
        return exception
    if isinstance(exception, OSError) and exception.errno in ENVIRONMENT_ERRNOS:
        return HarnessError(f'environment: {exception!r}')
    frames = [frame for frame in _frames_of(exception) if frame[0].startswith(REPO_CODE)]
    if isinstance(exception, MemoryError):
        if frames:
            return Violation(f'memory exhausted at {frames[-1]}')
        return HarnessError('memory exhausted in the harness')
    if frames:
        where = frames[-1]
        return Violation(
            f'unexpected exception {type(exception).__name__}: {exception} '
            f'(at {where[0][len(REPO) + 1:]} in {where[2]})'
        )
    # The sandbox has no more of something or the check itself is broken.
    if (
        isinstance(exception, (ImportError, NameError)) or
        (isinstance(exception, OSError) and exception.errno in RESOURCE_ERRORS) or
        (isinstance(exception, RuntimeError) and 'start new thread' in str(exception))
    ):
        return HarnessError(''.join(traceback.format_exception(exception)))
    last = list(_frames_of(exception))[-1:]
    return Violation(f'oracle could not use what the code produced: {type(exception).__name__}: {exception} {last}')


def run_case(sub, case, ctx):
    """Runs one case; raises only Violation or HarnessError (or CaseHang)."""
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    signal.setitimer(signal.ITIMER_REAL, WALL_LIMIT)
    try:
        sub.runner(case, ctx)
    except CaseHang:
        raise
    except Violation:
        raise
    except HarnessError:
        raise
    except Exception as exception:
        if type(exception).__module__.startswith('hypothesis'):
            raise
        new = classify(exception)
        raise new from exception
    except BaseException as exception:
        # `scarletio.CancelledError` is not an `Exception`.
        if not type(exception).__module__.startswith('scarletio'):
            raise
        raise classify(exception) from exception
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def case_key(case):
    return hashlib.blake2b(repr(case).encode('utf-8', 'surrogatepass'), digest_size = 8).hexdigest()


def short(case, limit = 700):
    text = repr(case)
    if len(text) > limit:
        text = text[:limit] + f'... ({len(text)} characters)'
    return text


# ---------------------------------------------------------------------------------------------------------------------
# Worker
# ---------------------------------------------------------------------------------------------------------------------

def worker(property_, sub, seed, count, budget, shard):
    """Runs one sub check and returns its statistics."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings

    stats = {
        'sub': sub.name, 'shard': shard, 'evaluations': 0, 'keys': set(), 'labels': {}, 'samples': [],
        'violation': None, 'error': None, 'skipped_budget': 0, 'excluded': 0,
    }
    state = {'last': None, 'sample_every': 1, 'shrinking': 0, 'given': 0}
    started = _monotonic()

    def execute(case, is_fixed = False):
        ctx = Ctx()
        stats['evaluations'] += 1
        try:
            run_case(sub, case, ctx)
        except Violation as violation:
            state['last'] = (case, str(violation))
            raise
        except CaseHang as hang:
            state['last'] = (case, f'the case did not end within the {hang} time limit')
            raise
        if ctx.is_nontrivial:
            key = case_key(case)
            if key not in stats['keys']:
                stats['keys'].add(key)
                n = len(stats['keys'])
                if n in (1, 7, 40, 200, 1000):
                    sample = {'sub': sub.name, 'case': short(case)}
                    if ctx.note is not None:
                        sample['observed'] = short(ctx.note, 400)
                    stats['samples'].append(sample)
        for label in ctx.labels:
            stats['labels'][label] = stats['labels'].get(label, 0) + 1

    try:
        for case in sub.fixed if shard == 0 else ():
            execute(case, True)
        if sub.strategy is not None and count > 0:
            strategy = sub.strategy()

            def test(case):
                if state['last'] is None and _monotonic() - started > budget:
                    raise BudgetOver()
                state['given'] += 1
                if state['last'] is not None and _monotonic() - started > budget + 120.0:
                    # shrinking takes too long, keep what we have.
                    raise CaseHang('shrink')
                execute(case)

            test = hypothesis.given(strategy)(test)
            test = settings(
                max_examples = count, database = None, deadline = None, derandomize = False, print_blob = False,
                report_multiple_bugs = False, suppress_health_check = list(HealthCheck),
                phases = (Phase.generate, Phase.shrink),
            )(test)
            test = hypothesis.seed(seed * 1000003 + shard)(test)
            test()
    except Violation as violation:
        case, message = state['last']
        stats['violation'] = (repr(case), str(violation))
    except BudgetOver:
        stats['skipped_budget'] = count - state['given']
    except CaseHang as hang:
        case, message = state['last']
        stats['violation'] = (repr(case), message)
    except HarnessError as error:
        stats['error'] = str(error)
    except BaseException as exception:
        if state['last'] is not None:
            # Flaky or similar: the failure was seen against the real code.
            case, message = state['last']
            stats['violation'] = (repr(case), f'{message} (seen once while searching; {type(exception).__name__})')
        else:
            stats['error'] = ''.join(traceback.format_exception(exception))
    stats['keys'] = sorted(stats['keys'])
    stats['wall'] = _monotonic() - started
    return stats


def load_known_findings():
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as file:
        return json.load(file)['findings']


def write_replay(property_id, sub_name, case_repr, message):
    directory = os.path.join(VERIF, 'replays')
    os.makedirs(directory, exist_ok = True)
    digest = hashlib.blake2b(case_repr.encode('utf-8', 'surrogatepass'), digest_size = 5).hexdigest()
    path = os.path.join(directory, f'{property_id}-{sub_name}-{digest}.json')
    with open(path, 'w') as file:
        json.dump({'property': property_id, 'sub': sub_name, 'case': case_repr, 'message': message}, file, indent = 1)
        file.write('\n')
    return path


def _limit():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def _worker_main(property_, args):
    """args: sub, seed, count, budget, shard, output"""
    sub_name, seed, count, budget, shard, output = args
    _limit()
    signal.signal(signal.SIGPROF, _on_hang)
    signal.signal(signal.SIGALRM, _on_hang)
    if sub_name.startswith('known:'):
        finding_id = sub_name[len('known:'):]
        stats = {'sub': sub_name, 'shard': 0, 'known': None, 'error': None}
        for id_, runner in property_.knowns:
            if id_ == finding_id:
                sub = Sub(sub_name, None, (lambda case, ctx: runner()), 0, 0, '', [], 1)
                try:
                    run_case(sub, None, Ctx())
                except Violation as violation:
                    stats['known'] = str(violation)
                except CaseHang:
                    stats['known'] = 'did not end'
                except BaseException as exception:
                    stats['error'] = ''.join(traceback.format_exception(exception))
    else:
        stats = worker(property_, property_.subs[sub_name], int(seed), int(count), float(budget), int(shard))
    with open(output + '.tmp', 'w') as file:
        json.dump(stats, file)
    os.rename(output + '.tmp', output)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


# ---------------------------------------------------------------------------------------------------------------------
# Driver
# ---------------------------------------------------------------------------------------------------------------------

def _drive(property_, module_name, tier, seed):
    import tempfile, shutil
    started = _monotonic()
    # whole-check limits; a check has 900 s.
    budget = float(os.environ.get('VERIF_BUDGET', '240' if tier == 'quick' else '540'))
    hard_limit = budget + 240.0
    jobs = []
    cores = max(1, min(8, os.cpu_count() or 1))
    for sub in property_.subs.values():
        count = sub.quick if tier == 'quick' else sub.thorough
        shards = sub.shards if tier == 'quick' else max(sub.shards, min(cores, 8 // max(1, len(property_.subs)) or 1))
        per_shard = -(-count // shards)
        for shard in range(shards):
            jobs.append((sub.name, per_shard, shard))
    for finding_id, runner in property_.knowns:
        jobs.append((f'known:{finding_id}', 0, 0))

    only = os.environ.get('VERIF_SUB')
    if only:
        jobs = [job for job in jobs if job[0] in only.split(',')]

    scratch = tempfile.mkdtemp(prefix = f'verif-{property_.id}-')
    environment = dict(os.environ)
    environment['PYTHONHASHSEED'] = '0'
    environment['TMPDIR'] = scratch
    environment['HYPOTHESIS_STORAGE_DIRECTORY'] = os.path.join(scratch, 'hypothesis')
    results = []
    errors = []
    try:
        running = []
        pending = list(jobs)
        index = 0
        violated = False
        while pending or running:
            while pending and len(running) < cores and not violated:
                sub_name, count, shard = pending.pop(0)
                index += 1
                output = os.path.join(scratch, f'{index}.json')
                log = open(os.path.join(scratch, f'{index}.log'), 'wb')
                remaining = max(10.0, budget - (_monotonic() - started))
                process = subprocess.Popen(
                    [
                        sys.executable, '-B', os.path.join(VERIF, 'lib', 'vmain.py'), property_.id, '--worker',
                        sub_name, str(seed), str(count), str(remaining), str(shard), output,
                    ],
                    stdin = subprocess.DEVNULL, stdout = log, stderr = log, env = environment, cwd = scratch,
                    start_new_session = True,
                )
                running.append((process, sub_name, output, log))
            if violated:
                pending.clear()
            still = []
            for item in running:
                process, sub_name, output, log = item
                if process.poll() is None:
                    if _monotonic() - started > hard_limit or violated == 'kill':
                        _kill(process)
                        process.wait()
                        if not violated:
                            errors.append(f'{sub_name}: worker ran out of its {hard_limit} s')
                    else:
                        still.append(item)
                        continue
                log.close()
                _kill(process)
                if os.path.exists(output):
                    with open(output) as file:
                        stats = json.load(file)
                    results.append(stats)
                    if stats.get('violation'):
                        violated = 'kill'
                    if stats.get('error'):
                        errors.append(f'{sub_name}: {stats["error"]}')
                elif not violated:
                    with open(log.name, 'rb') as file:
                        tail = file.read()[-3000:].decode('utf-8', 'replace')
                    errors.append(f'{sub_name}: worker died with {process.returncode}: {tail}')
            running = still
            if running:
                time.sleep(0.02)
    finally:
        for process, *_ in running:
            _kill(process)
        shutil.rmtree(scratch, ignore_errors = True)
    return results, errors, _monotonic() - started


def _kill(process):
    try:
        os.killpg(process.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def _drive_and_report(property_, module_name):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    results, errors, wall = _drive(property_, module_name, tier, seed)
    violations = []
    evaluations = 0
    keys = set()
    per_sub = {}
    samples = []
    known_state = {}
    for stats in results:
        if 'known' in stats:
            known_state[stats['sub'][len('known:'):]] = stats['known']
            continue
        evaluations += stats['evaluations']
        keys.update(stats['sub'] + ':' + key for key in stats['keys'])
        entry = per_sub.setdefault(
            stats['sub'], {'evaluations': 0, 'distinct_nontrivial': 0, 'labels': {}, 'not_run_time_budget': 0, 'rule': property_.subs[stats['sub']].rule}
        )
        entry['evaluations'] += stats['evaluations']
        entry['distinct_nontrivial'] += len(stats['keys'])
        entry['not_run_time_budget'] += stats['skipped_budget']
        for label, count in stats['labels'].items():
            entry['labels'][label] = entry['labels'].get(label, 0) + count
        if stats['shard'] == 0:
            samples.extend(stats['samples'][:3])
        if stats['violation']:
            violations.append((stats['sub'], *stats['violation']))

    listed = {(item['property'], item['id']): item for item in load_known_findings() if item.get('status') == 'known'}
    output = []
    known_violations = 0
    for finding_id, message in known_state.items():
        item = listed.get((property_.id, finding_id))
        if message is None:
            continue
        if item is not None:
            known_violations += 1
            output.append(f'KNOWN-FINDING: property={property_.id} {finding_id}: {item["what"]}')
        else:
            violations.append((f'known:{finding_id}', 'None', message))

    exit_code = 0
    for sub_name, case_repr, message in violations[:1]:
        path = write_replay(property_.id, sub_name, case_repr, message)
        output.append(f'# {property_.id}/{sub_name}: {message}'.replace('\n', '\\n')[:2000])
        output.append(f'# case: {case_repr[:1500]}')
        output.append(f'VIOLATION property={property_.id} replay={path}')
        exit_code = 1

    if not violations and errors:
        exit_code = 2

    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok = True)
    evidence = {
        'property': property_.id,
        'tier': tier,
        'seed': seed,
        'level': property_.level,
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(keys),
            'rule': property_.rule,
            'samples': samples[:12] or ['(none)'],
            'per_sub_check': per_sub,
            'known_findings_reproduced': known_violations,
        },
        'assumptions': property_.assumptions,
        'wall_s': round(wall, 3),
        'violations': len(violations),
    }
    with open(os.path.join(VERIF, 'evidence', f'{property_.id}.json'), 'w') as file:
        json.dump(evidence, file, indent = 1)
        file.write('\n')

    for line in output:
        print(line.encode('utf-8', 'backslashreplace').decode('utf-8'))
    print(
        f'{property_.id}: {tier} seed={seed} evaluations={evaluations} distinct_nontrivial={len(keys)} '
        f'violations={len(violations)} errors={len(errors)} wall={wall:.1f}s'
    )
    if os.environ.get('VERIF_VERBOSE'):
        print(json.dumps(per_sub, indent = 1))
    if errors:
        for error in errors:
            print('ERROR', error[-3000:], file = sys.stderr)
    return exit_code


def replay(property_, path):
    with open(path) as file:
        data = json.load(file)
    signal.signal(signal.SIGPROF, _on_hang)
    signal.signal(signal.SIGALRM, _on_hang)
    sub_name = data['sub']
    try:
        if sub_name.startswith('known:'):
            dict(property_.knowns)[sub_name[len('known:'):]]()
        else:
            case = ast.literal_eval(data['case'])
            run_case(property_.subs[sub_name], case, Ctx())
    except (Violation, CaseHang) as violation:
        traceback.print_exc()
        print(f'VIOLATION property={property_.id} replay={path}')
        return 1
    print(f'{property_.id}: the replay does not fail')
    return 0
