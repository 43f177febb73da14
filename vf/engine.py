"""Property-based testing engine: facets, workers, evidence, replay files.

A *facet* is one executable statement of a property: a Hypothesis strategy that
generates plain JSON data (the case) and a function that runs the case against
the real code and an oracle.  The engine runs the facets of a property in
parallel processes, shrinks failures, replays them and writes the evidence.
"""
from __future__ import annotations

import dataclasses
import hashlib
import importlib
import json
import math
import os
import pathlib
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from typing import Any, Callable

VERIF = pathlib.Path(__file__).resolve().parent.parent
KNOWN = VERIF / 'known_findings.json'


class Violation(Exception):
    """The property does not hold on a case."""

    def __init__(self, message: str, key: str | None = None):
        super().__init__(message)
        self.key = key


class TimeUp(KeyboardInterrupt):
    """Leaves Hypothesis when the time is over."""


def require(condition, message, key=None):
    if not condition:
        raise Violation(message() if callable(message) else message, key)


@dataclasses.dataclass
class Facet:
    """One executable statement."""
    name: str
    strategy: Any
    run: Callable[[Any], Any]
    #: Examples generated per shard by the quick check.
    quick: int = 300
    #: Number of parallel shards (different seeds) of the quick check.
    shards: int = 1
    #: What the facet states.
    doc: str = ''
    #: Examples per shard for the thorough check (default: 30 x quick).
    thorough: int | None = None


def load_check(prop: str):
    """Loads the module checks/<prop>.py; pyinterp is imported by it."""
    return importlib.import_module(f'checks.{prop}')


def canonical(case) -> str:
    return json.dumps(case, sort_keys=True)


def digest(case) -> str:
    return hashlib.blake2b(canonical(case).encode(), digest_size=8).hexdigest()


def facet_seed(base: int, prop: str, facet: str, shard: int) -> int:
    text = f'{base}/{prop}/{facet}/{shard}'
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], 'little')


def known_entries(prop: str) -> list[dict]:
    if not KNOWN.exists():
        return []
    data = json.loads(KNOWN.read_text())
    return [item for item in data['findings'] if item['property'] == prop]


def execute(facet: Facet, case):
    """Runs one case: returns its label, raises Violation otherwise."""
    try:
        return facet.run(case)
    except Violation:
        raise
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as exc:  # noqa: BLE001
        tb = traceback.extract_tb(exc.__traceback__)
        where = '; '.join(f'{pathlib.Path(f.filename).name}:{f.lineno}'
                          for f in tb[-4:])
        raise Violation(
            f'unexpected {type(exc).__name__}: {str(exc)[:500]} at {where}',
            None) from exc


def execute_forked(facet: Facet, case, timeout=30.0):
    """Runs a case in a child process so that a crash is a violation."""
    read, write = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(read)
            execute(facet, case)
        except Violation as exc:
            os.write(write,
                     json.dumps([str(exc)[:1500], exc.key]).encode()[:4000])
            code = 3
        except BaseException:  # noqa: BLE001
            code = 0
        os._exit(code)
    os.close(write)
    end = time.monotonic() + timeout
    status = None
    while time.monotonic() < end:
        done, status = os.waitpid(pid, os.WNOHANG)
        if done:
            break
        time.sleep(0.002)
    else:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        os.close(read)
        raise Violation(f'no answer within {timeout} s')
    data = b''
    while True:
        chunk = os.read(read, 65536)
        if not chunk:
            break
        data += chunk
    os.close(read)
    if os.WIFSIGNALED(status):
        raise Violation(f'process killed by signal {os.WTERMSIG(status)}')
    if os.WEXITSTATUS(status) == 3:
        message, key = json.loads(data.decode())
        raise Violation(message, key)


# --------------------------------------------------------------------- worker
def worker_main(argv) -> int:
    """Runs one facet with one seed (own process)."""
    spec = json.loads(argv[0])
    from hypothesis import HealthCheck, Phase, given, seed, settings
    from hypothesis.errors import Flaky, Unsatisfiable

    from . import loader
    loader.load(spec['so'], spec['partial'])
    check = load_check(spec['property'])
    facet = next(f for f in check.FACETS if f.name == spec['facet'])
    known = {
        e['key']
        for e in known_entries(spec['property'])
        if e['facet'] == facet.name and e.get('key')
    }
    start = time.monotonic()
    deadline = start + spec['budget']
    shrink_deadline = [None]
    current = os.open(spec['current'], os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    fork = spec.get('fork', False)

    stats: dict[str, Any] = {
        'evaluations': 0, 'labels': {}, 'samples': [], 'known_hits': {},
        'violation': None, 'stopped': None
    }
    hashes: set[str] = set()
    best: dict[str, Any] = {}

    def prop(case):
        now = time.monotonic()
        if now > deadline and not best:
            raise TimeUp
        if best and now > shrink_deadline[0]:
            raise TimeUp
        text = canonical(case)
        if not fork:
            raw = text.encode()
            os.pwrite(current, len(raw).to_bytes(8, 'little') + raw, 0)
        if not best:
            stats['evaluations'] += 1
        try:
            if fork:
                execute_forked(facet, case)
                label = True
            else:
                label = execute(facet, case)
        except Violation as exc:
            if exc.key is not None and exc.key in known:
                stats['known_hits'][exc.key] = stats['known_hits'].get(
                    exc.key, 0) + 1
                return
            if not best:
                shrink_deadline[0] = time.monotonic() + spec['shrink']
            if not best or len(text) <= len(best['text']):
                best.update(text=text, message=str(exc), key=exc.key)
            raise
        if not best and label:
            key = hashlib.blake2b(text.encode(), digest_size=8).hexdigest()
            if key not in hashes:
                hashes.add(key)
                if len(stats['samples']) < 3 and len(text) < 4000 and (
                        len(hashes) % 17 == 1):
                    stats['samples'].append(json.loads(text))
            for item in (label if isinstance(label, (list, tuple, set)) else
                         [label]):
                item = str(item)
                stats['labels'][item] = stats['labels'].get(item, 0) + 1

    strategy = facet.strategy() if callable(
        facet.strategy) else facet.strategy
    test = seed(spec['seed'])(settings(
        max_examples=spec['examples'],
        database=None,
        deadline=None,
        print_blob=False,
        derandomize=False,
        report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck),
        phases=[Phase.generate, Phase.shrink],
    )(given(strategy)(prop)))
    try:
        test()
    except TimeUp:
        stats['stopped'] = 'time'
    except Unsatisfiable:
        stats['stopped'] = 'unsatisfiable'
    except (Violation, Flaky):
        pass
    except BaseExceptionGroup:
        pass
    if best:
        stats['violation'] = {
            'facet': facet.name,
            'case': json.loads(best['text']),
            'message': best['message'],
            'key': best['key']
        }
    stats['hashes'] = sorted(hashes)
    stats['wall_s'] = time.monotonic() - start
    pathlib.Path(spec['out']).write_text(json.dumps(stats))
    return 0


# --------------------------------------------------------------------- replay
def replay_case(prop: str, facet_name: str, case) -> tuple[str | None, Any]:
    """Runs a case in this process (pyinterp must be loaded)."""
    check = load_check(prop)
    facet = next(f for f in check.FACETS if f.name == facet_name)
    try:
        execute(facet, case)
    except Violation as exc:
        return str(exc), exc.key
    return None, None


def replay_main(argv) -> int:
    """python -m vf replay-one <spec>: exit 3 when the case fails."""
    spec = json.loads(pathlib.Path(argv[0]).read_text())
    from . import loader
    loader.load(spec['so'], spec['partial'])
    message, key = replay_case(spec['property'], spec['facet'], spec['case'])
    print(json.dumps({'message': message, 'key': key}))
    return 3 if message is not None else 0


class Runner:
    """Runs every facet of a property."""

    def __init__(self, prop: str, tier: str, base_seed: int, only=None,
                 budget=None):
        from . import build
        self.prop, self.tier, self.seed = prop, tier, base_seed
        self.start = time.monotonic()
        self.check = load_meta(prop)
        self.parts = self.check['parts']
        self.so = build.build(self.parts)
        self.build_s = time.monotonic() - self.start
        self.partial = self.parts is not None
        self.tmp = pathlib.Path(tempfile.mkdtemp(prefix=f'vf-{prop}-'))
        self.only = only
        self.budget = budget

    def spawn(self, mode, payload):
        env = dict(os.environ)
        env.update(PYTHONPATH=str(VERIF), OPENBLAS_NUM_THREADS='1',
                   PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        return subprocess.Popen(
            [sys.executable, '-X', 'faulthandler', '-m', 'vf', mode, payload],
            cwd=str(VERIF), env=env, stdout=subprocess.PIPE,
            stderr=subprocess.PIPE)

    def replay(self, facet, case, timeout=60):
        """Returns (failed, message, key) of one run in a fresh process."""
        path = self.tmp / f'replay-{time.monotonic_ns()}.json'
        path.write_text(json.dumps({
            'so': str(self.so), 'partial': self.partial,
            'property': self.prop, 'facet': facet, 'case': case
        }))
        proc = self.spawn('replay-one', str(path))
        try:
            out, err = proc.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            proc.kill()
            proc.communicate()
            return True, f'no answer within {timeout} s', None
        if proc.returncode in (0, 3):
            data = json.loads(out.decode().strip().splitlines()[-1])
            return proc.returncode == 3, data['message'], data['key']
        if proc.returncode < 0:
            return True, (f'process killed by signal {-proc.returncode}: ' +
                          err.decode(errors='replace')[-600:]), None
        raise RuntimeError('replay error: ' + err.decode()[-2000:])

    def run(self) -> int:
        known = known_entries(self.prop)
        for item in known:
            failed, message, key = self.replay(item['facet'], item['case'])
            if failed and key == item['key']:
                print(f'KNOWN-FINDING: property={self.prop} {item["text"]}')
        jobs = []
        quick = self.tier == 'quick'
        facets = [
            f for f in self.check['facets']
            if not self.only or f['name'] in self.only
        ]
        for facet in facets:
            shards = facet['shards'] if quick else max(
                facet['shards'], 1) * (2 if len(facets) > 4 else 4)
            for shard in range(shards):
                jobs.append({
                    'so': str(self.so), 'partial': self.partial,
                    'property': self.prop, 'facet': facet['name'],
                    'shard': shard,
                    'seed': facet_seed(self.seed, self.prop, facet['name'],
                                       shard),
                    'examples': facet['quick'] if quick else
                    facet['thorough'],
                    'budget': self.budget or (120 if quick else 900),
                    'shrink': 25 if quick else 120,
                    'out': str(self.tmp / f'{facet["name"]}-{shard}.json'),
                    'current': str(self.tmp / f'{facet["name"]}-{shard}.cur'),
                })
        results, violations, errors = [], [], []
        workers = int(os.environ.get('VF_JOBS', os.cpu_count() or 2))
        running: list[tuple] = []
        queue = list(jobs)
        while queue or running:
            while queue and len(running) < workers:
                job = queue.pop(0)
                err = open(job['out'] + '.err', 'wb')
                proc = subprocess.Popen(
                    [sys.executable, '-X', 'faulthandler', '-m', 'vf',
                     'worker', json.dumps(job)],
                    cwd=str(VERIF), stdout=err, stderr=err,
                    env=dict(os.environ, PYTHONPATH=str(VERIF),
                             OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0',
                             PYTHONDONTWRITEBYTECODE='1'))
                running.append((job, proc, time.monotonic()))
            time.sleep(0.02)
            still = []
            for job, proc, began in running:
                code = proc.poll()
                limit = job['budget'] + job['shrink'] + 60
                if code is None:
                    if time.monotonic() - began > limit:
                        proc.kill()
                        proc.wait()
                        self.crashed(job, 'no answer', violations, errors)
                    else:
                        still.append((job, proc, began))
                    continue
                if code == 0:
                    stats = json.loads(pathlib.Path(job['out']).read_text())
                    stats['facet'] = job['facet']
                    results.append(stats)
                    if stats['violation']:
                        violations.append(stats['violation'])
                elif code < 0:
                    self.crashed(job, f'signal {-code}', violations, errors)
                else:
                    text = pathlib.Path(job['out'] + '.err').read_text(
                        errors='replace')
                    errors.append(f'{job["facet"]}: {text[-3000:]}')
            running = still
        confirmed = self.confirm(violations)
        self.evidence(results, confirmed)
        if errors:
            for item in errors:
                print('ERROR ' + item, file=sys.stderr)
        for path, message in confirmed:
            print(f'  {message[:1200]}')
            print(f'VIOLATION property={self.prop} replay={path}')
        import shutil
        shutil.rmtree(self.tmp, ignore_errors=True)
        if confirmed:
            return 1
        return 2 if errors else 0

    def crashed(self, job, why, violations, errors):
        """A worker died: find a small case that reproduces it."""
        raw = b''
        try:
            raw = pathlib.Path(job['current']).read_bytes()
            size = int.from_bytes(raw[:8], 'little')
            case = json.loads(raw[8:8 + size].decode())
        except (OSError, ValueError):
            errors.append(f'{job["facet"]}: worker died ({why}), no case')
            return
        # Shrink with one child process per case.
        again = dict(job, fork=True, out=job['out'] + '.fork', budget=60,
                     shrink=30)
        proc = self.spawn('worker', json.dumps(again))
        try:
            proc.communicate(timeout=200)
            stats = json.loads(pathlib.Path(again['out']).read_text())
            if stats['violation']:
                violations.append(stats['violation'])
                return
        except (subprocess.TimeoutExpired, OSError, ValueError):
            proc.kill()
        violations.append({
            'facet': job['facet'], 'case': case, 'message': why, 'key': None
        })

    def confirm(self, violations):
        """Replays each failure three times in fresh processes."""
        confirmed = []
        seen = set()
        for item in violations:
            if item['facet'] in seen:
                continue
            outcomes = [
                self.replay(item['facet'], item['case']) for _ in range(3)
            ]
            fails = [o for o in outcomes if o[0]]
            if len(fails) < 2:
                print(f'# not reproduced: {item["facet"]} {item["message"]}',
                      file=sys.stderr)
                continue
            seen.add(item['facet'])
            folder = VERIF / 'replays'
            folder.mkdir(exist_ok=True)
            path = folder / (f'{self.prop}-{item["facet"]}-'
                             f'{digest(item["case"])}.json')
            path.write_text(json.dumps({
                'property': self.prop, 'facet': item['facet'],
                'message': fails[0][1], 'case': item['case'],
            }, indent=1))
            confirmed.append((path, f'{item["facet"]}: {fails[0][1]}'))
        return confirmed

    def evidence(self, results, confirmed):
        facets: dict[str, dict] = {}
        samples = []
        for item in results:
            entry = facets.setdefault(item['facet'], {
                'evaluations': 0, 'hashes': set(), 'labels': {},
                'known_hits': {}, 'stopped_by_time': 0
            })
            entry['evaluations'] += item['evaluations']
            entry['hashes'].update(item['hashes'])
            entry['stopped_by_time'] += item['stopped'] == 'time'
            for name in ('labels', 'known_hits'):
                for key, value in item[name].items():
                    entry[name][key] = entry[name].get(key, 0) + value
            for sample in item['samples'][:2]:
                if sum(s['facet'] == item['facet'] for s in samples) < 2:
                    samples.append({'facet': item['facet'], 'case': sample})
        docs = {f['name']: f['doc'] for f in self.check['facets']}
        data = {
            'property': self.prop,
            'tier': self.tier,
            'seed': self.seed,
            'level': 'exploration',
            'coverage': {
                'evaluations': sum(f['evaluations'] for f in facets.values()),
                'distinct_nontrivial':
                sum(len(f['hashes']) for f in facets.values()),
                'rule': self.check['rule'],
                'samples': samples,
                'facets': {
                    name: {
                        'states': docs.get(name, ''),
                        'evaluations': f['evaluations'],
                        'distinct_nontrivial': len(f['hashes']),
                        'labels': f['labels'],
                        'known_finding_hits': f['known_hits'],
                        'shards_stopped_by_time': f['stopped_by_time'],
                    }
                    for name, f in sorted(facets.items())
                },
                'build_s': round(self.build_s, 1),
            },
            'assumptions': self.check['assumptions'],
            'wall_s': round(time.monotonic() - self.start, 2),
            'violations': len(confirmed),
        }
        folder = VERIF / 'evidence'
        folder.mkdir(exist_ok=True)
        (folder / f'{self.prop}.json').write_text(
            json.dumps(data, indent=1) + '\n')
        total = data['coverage']
        print(f'{self.prop} {self.tier}: {total["evaluations"]} cases, '
              f'{total["distinct_nontrivial"]} distinct non-trivial, '
              f'{data["wall_s"]} s (build {self.build_s:.0f} s), '
              f'{len(confirmed)} violation(s)')


def load_meta(prop: str) -> dict:
    """Describes a check without importing pyinterp in this process."""
    code = ('import json,sys\n'
            'import vf.nocore\n'
            'from vf.engine import load_check\n'
            f'c=load_check({prop!r})\n'
            'print(json.dumps({"parts":c.PARTS,"rule":" ".join(c.RULE.split())'
            ',"assumptions":c.ASSUMPTIONS,"facets":[{"name":f.name,"quick":'
            'f.quick,"shards":f.shards,"doc":" ".join(f.doc.split()),'
            '"thorough":f.thorough or 30*f.quick} for f in c.FACETS]}))')
    out = subprocess.run([sys.executable, '-c', code], cwd=str(VERIF),
                         env=dict(os.environ, PYTHONPATH=str(VERIF),
                                  PYTHONDONTWRITEBYTECODE='1'),
                         capture_output=True, text=True)
    if out.returncode != 0:
        raise RuntimeError(out.stderr)
    return json.loads(out.stdout.strip().splitlines()[-1])


def finite(value) -> bool:
    return not (math.isnan(value) or math.isinf(value))
