"""The runner: generated-input search over the checks of one property."""
import hashlib
import importlib
import json
import os
import pathlib
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import zlib

from . import boot

NSHARDS = 8
CASE_CPU_SECONDS = 30
SOFT_WALL = {'quick': 420, 'thorough': 5400}
GRACE = 40          # seconds given to shrinking after the first failure


class Violation(AssertionError):
    """The property does not hold for this case."""


class CaseTimeout(Violation):
    pass


class Note:
    """What a check says about one case: labels, and whether it was non-trivial."""
    __slots__ = ('labels', 'hard', 'soft')

    def __init__(self):
        self.labels = []
        self.hard = False

    def label(self, *names):
        self.labels.extend(names)

    def nontrivial(self, cond=True):
        if cond:
            self.hard = True


class Check:
    def __init__(self, name, strategy, fn, quick, thorough=None, rule='', corpus=()):
        """strategy: a callable returning a Hypothesis strategy for JSON-able
        cases; fn(case, note): runs the real code against the oracle and
        raises on disagreement; quick/thorough: total number of cases."""
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough or quick * 20
        self.rule = rule
        self.corpus = list(corpus)


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def canon(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def load_property(pid):
    return importlib.import_module(f'pbt.props.{pid.lower()}')


def _alarm(signum, frame):
    raise CaseTimeout(f'no answer within {CASE_CPU_SECONDS} s of CPU time')


def run_case(check, case, note=None):
    """Runs one case.  Returns None, or the exception that shows a violation."""
    note = note or Note()
    case = json.loads(canon_keep(case))
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_SECONDS)
    try:
        check.fn(case, note)
        return None
    except (KeyboardInterrupt, SystemExit):
        raise
    except Exception as e:          # noqa: any exception is a disagreement
        return e
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def canon_keep(case):
    # member order is significant in some cases: no sort_keys here
    return json.dumps(case, ensure_ascii=True)


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    frames = [f'{pathlib.Path(f.filename).name}:{f.lineno}({f.name})' for f in tb[-4:]]
    return f'{type(exc).__name__}: {exc} [{" > ".join(frames)}]'


# ------------------------------------------------------------------ shards

def shard_main(pid, shard, outpath):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, seed as hseed, settings, Verbosity

    tier = os.environ['PBT_TIER']
    base_seed = int(os.environ['PBT_SEED'])
    started = time.time()
    soft_deadline = started + SOFT_WALL[tier]
    module = load_property(pid)
    known = known_cases(pid)
    only = os.environ.get('PBT_ONLY')
    scale = float(os.environ.get('PBT_SCALE', '1'))
    out = {'checks': {}, 'failure': None, 'error': None,
           'rules': {c.name: c.rule for c in module.CHECKS},
           'assumptions': getattr(module, 'ASSUMPTIONS', [])}
    outfile = pathlib.Path(outpath)

    def flush():
        tmp = outfile.with_suffix('.tmp')
        tmp.write_text(json.dumps(out, ensure_ascii=True))
        os.replace(tmp, outfile)

    for check in module.CHECKS:
        if only and only != check.name:
            continue
        stats = out['checks'][check.name] = {
            'evaluations': 0, 'hashes': [], 'labels': {}, 'samples': [], 'skipped_for_time': 0}
        hashes = set()
        best = {'case': None, 'exc': None}
        rnd = random.Random(zlib.crc32(f'{base_seed}/{shard}/{check.name}'.encode()))

        def record(case, exc):
            text = canon_keep(case)
            if best['case'] is None or len(text) <= len(canon_keep(best['case'])):
                best['case'], best['exc'] = json.loads(text), exc
                out['failure'] = {'check': check.name, 'case': best['case'], 'message': describe(exc),
                                  'env': shard_env(base_seed, shard)}
                flush()

        def one(case, generated=True):
            if time.time() > soft_deadline:
                stats['skipped_for_time'] += 1
                return
            note = Note()
            exc = run_case(check, case, note)
            stats['evaluations'] += 1
            for lab in note.labels:
                stats['labels'][lab] = stats['labels'].get(lab, 0) + 1
            if note.hard:
                h = hashlib.blake2b(canon(case).encode(), digest_size=8).hexdigest()
                if h not in hashes:
                    hashes.add(h)
                    n = len(hashes)
                    if len(stats['samples']) < 3:
                        stats['samples'].append(json.loads(canon_keep(case)))
                    elif rnd.random() < 3 / n:
                        stats['samples'][rnd.randrange(3)] = json.loads(canon_keep(case))
            if exc is not None:
                if (check.name, canon(case)) in known:
                    stats['labels']['known finding'] = stats['labels'].get('known finding', 0) + 1
                    return
                record(case, exc)
                raise exc

        try:
            # saved cases first, spread over the shards
            saved = list(check.corpus) + load_corpus(pid, check.name)
            for i, case in enumerate(saved):
                if i % NSHARDS == shard:
                    one(case)
            total = check.quick if tier == 'quick' else check.thorough
            n = max(1, int(total * scale) // NSHARDS)
            strategy = check.strategy()

            @hseed(zlib.crc32(f'{base_seed}:{shard}:{pid}:{check.name}'.encode()))
            @settings(max_examples=n, database=None, deadline=None, print_blob=False,
                      suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                      phases=[Phase.generate, Phase.shrink], verbosity=Verbosity.quiet)
            @given(strategy)
            def search(case):
                one(case)

            search()
        except BaseException as e:      # noqa
            if best['case'] is None:
                out['error'] = f'{check.name}: ' + ''.join(traceback.format_exception(e))[-4000:]
                stats['hashes'] = sorted(hashes)
                flush()
                return 2
            stats['hashes'] = sorted(hashes)
            flush()
            return 1
        stats['hashes'] = sorted(hashes)
    out['wall'] = time.time() - started
    flush()
    return 0


# ------------------------------------------------------- saved cases, findings

def load_corpus(pid, name):
    p = boot.VERIF / 'corpus' / f'{pid}.json'
    if not p.exists():
        return []
    return [e['case'] for e in json.loads(p.read_text()) if e['check'] == name]


def findings():
    p = boot.VERIF / 'known_findings.json'
    return json.loads(p.read_text()) if p.exists() else {'known': [], 'fixed': []}


def known_cases(pid):
    return {(e['check'], canon(e['case'])) for e in findings().get('known', []) if e['property'] == pid}


# ------------------------------------------------------------------ parent

def scratch():
    d = tempfile.mkdtemp(prefix='jschon-pbt-')
    return d


def replay(pid, path):
    data = json.loads(pathlib.Path(path).read_text())
    if not os.environ.get('PBT_REPLAY_ENV'):
        # again in the locale and with the hash seed of the run that found it
        env = dict(os.environ, **data.get('env', {}), PBT_REPLAY_ENV='1')
        return subprocess.call([sys.executable, '-W', 'ignore', str(boot.VERIF / 'pbt' / 'main.py'), pid, '--replay', str(path)], env=env)
    tmp = scratch()
    try:
        boot.activate(boot.build(tmp))
        boot.check_loaded(tmp)
        module = load_property(pid)
        check = next(c for c in module.CHECKS if c.name == data['check'])
        exc = run_case(check, data['case'])
        if exc is None:
            print(f'OK property={pid} check={check.name}: the replayed case holds')
            return 0
        traceback.print_exception(exc)
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def shard_env(seed, i):
    """Half of the shards run in a UTF-8 process, half in the C locale; hash seeds differ."""
    env = {'PYTHONHASHSEED': str((seed * NSHARDS + i) % 4294967295)}
    if i % 2:
        env.update(LC_ALL='C', LANG='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
    else:
        env.update(PYTHONUTF8='1')
    return env


def run_property(pid, tier, seed):
    started = time.time()
    tmp = scratch()
    procs = []
    try:
        farm = boot.build(os.path.join(tmp, 'farm'))
        outs = [os.path.join(tmp, f'shard{i}.json') for i in range(NSHARDS)]
        for i in range(NSHARDS):
            env = dict(os.environ, **shard_env(seed, i), PBT_TIER=tier, PBT_SEED=str(seed), PBT_FARM=farm,
                       PYTHONDONTWRITEBYTECODE='1',
                       PYTHONPYCACHEPREFIX=os.path.join(tmp, 'pyc'), HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(tmp, 'hyp'),
                       TMPDIR=tmp)
            procs.append(subprocess.Popen(
                [sys.executable, '-W', 'ignore', str(boot.VERIF / 'pbt' / 'main.py'), '--shard', pid, str(i), outs[i]],
                env=env, cwd=tmp, stdout=subprocess.DEVNULL, stderr=open(os.path.join(tmp, f'err{i}'), 'w')))
        hard_deadline = started + SOFT_WALL[tier] + 240
        first_failure = None
        while True:
            alive = [p for p in procs if p.poll() is None]
            if first_failure is None:
                for i, o in enumerate(outs):
                    r = read(o)
                    if r and r.get('failure'):
                        first_failure = time.time()
                        for j, p in enumerate(procs):
                            rj = read(outs[j])
                            if j != i and p.poll() is None and not (rj and rj.get('failure')):
                                p.kill()
                        break
            if not alive:
                break
            now = time.time()
            if (first_failure and now > first_failure + GRACE) or now > hard_deadline:
                for p in alive:
                    p.kill()
                for p in alive:
                    p.wait()
                break
            time.sleep(0.05)
        results = [read(o) for o in outs]
        failures = [r['failure'] for r in results if r and r.get('failure')]
        errors = [r['error'] for r in results if r and r.get('error')]
        if not failures:
            for i, p in enumerate(procs):
                if p.returncode != 0 and not (results[i] and results[i].get('error')):
                    errors.append(f'shard {i} exit {p.returncode}: ' + open(os.path.join(tmp, f'err{i}')).read()[-2000:])
        write_evidence(pid, tier, seed, results, failures, time.time() - started)
        for e in findings().get('known', []):
            if e['property'] == pid:
                print(f'KNOWN-FINDING: property={pid} {e["what"]}')
        if failures:
            f = min(failures, key=lambda f: len(canon(f['case'])))
            d = boot.VERIF / 'replays'
            d.mkdir(exist_ok=True)
            h = hashlib.blake2b(canon(f).encode(), digest_size=5).hexdigest()
            path = d / f'{pid}-{f["check"]}-{h}.json'
            path.write_text(json.dumps(f, indent=1, ensure_ascii=True) + '\n')
            print(f'check: {f["check"]}')
            print(f'case: {canon_keep(f["case"])[:3000]}')
            print(f'what: {f["message"][:3000]}')
            print(f'VIOLATION property={pid} replay={path}')
            return 1
        if errors:
            print('\n'.join(errors), file=sys.stderr)
            print(f'ERROR property={pid}: the check itself failed', file=sys.stderr)
            return 2
        print(f'OK property={pid}')
        return 0
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(tmp, ignore_errors=True)


def read(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def write_evidence(pid, tier, seed, results, failures, wall):
    evaluations, distinct, samples, per, rules, skipped = 0, 0, [], {}, [], 0
    names = []
    for r in results:
        for name in (r or {}).get('checks', {}):
            if name not in names:
                names.append(name)
    for name in names:
        ev, hs, labels, smp = 0, set(), {}, []
        for r in results:
            c = (r or {}).get('checks', {}).get(name)
            if not c:
                continue
            ev += c['evaluations']
            skipped += c['skipped_for_time']
            hs |= set(c['hashes'])
            smp += c['samples']
            for k, v in c['labels'].items():
                labels[k] = labels.get(k, 0) + v
        evaluations += ev
        distinct += len(hs)
        per[name] = {'evaluations': ev, 'distinct_nontrivial': len(hs), 'labels': dict(sorted(labels.items()))}
        smp.sort(key=lambda c: len(canon(c)))
        samples += [{'check': name, 'case': c} for c in smp[len(smp) // 2: len(smp) // 2 + 2]]
    for r in results:
        for name, rule in (r or {}).get('rules', {}).items():
            if name in names and f'{name}: {rule}' not in rules:
                rules.append(f'{name}: {rule}')
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {'evaluations': evaluations, 'distinct_nontrivial': distinct,
                     'rule': 'Hypothesis-generated cases. ' + ' | '.join(rules),
                     'samples': samples, 'per_check': per, 'cases_skipped_for_time': skipped},
        'wall_s': round(wall, 2),
        'violations': [{'check': f['check'], 'case': f['case'], 'what': f['message']} for f in failures],
        'assumptions': next((r['assumptions'] for r in results if r), []),
    }
    d = boot.VERIF / 'evidence'
    d.mkdir(exist_ok=True)
    (d / f'{pid}.json').write_text(json.dumps(ev, indent=1, ensure_ascii=True) + '\n')

