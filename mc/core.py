"""Bounded exhaustive exploration harness.

A check is a list of Components.  A component enumerates *every* case of a
bounded space (cases(tier)) and, for each, drives the real BELLA code
(check(case, ctx)) and compares what it did with an independent model.
Nothing is sampled: the deciding step is the enumeration.

Counters (all measured):
- states       distinct canonical states (inputs / intermediate search nodes /
               outputs of the real code) that were visited,
- transitions  executed operations of the real code,
- validated    real executions compared step by step with the model.
"""
import hashlib
import itertools
import json
import multiprocessing as mp
import os
import pickle
import resource
import signal
import sys
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BELLA_REPO', '/repo')
CASE_CPU_S = float(os.environ.get('MC_CASE_CPU_S', '60'))


def setup_paths():
    "makes the code of /repo importable, with the stand-in for src.CLA"
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    from mc import standin
    standin.install()


class CaseTimeout(BaseException):
    pass


class StopCase(BaseException):
    "raised after an unrecoverable failure inside a case"


def jsonable(obj):
    if isinstance(obj, dict):
        return {str(k): jsonable(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [jsonable(v) for v in obj]
    if isinstance(obj, np.ndarray):
        return jsonable(obj.tolist())
    if isinstance(obj, np.bool_):
        return bool(obj)
    if isinstance(obj, np.integer):
        return int(obj)
    if isinstance(obj, np.floating):
        return float(obj)
    if isinstance(obj, (set, frozenset)):
        return sorted(jsonable(v) for v in obj)
    if isinstance(obj, (str, int, float, bool)) or obj is None:
        return obj
    return repr(obj)


def digest(key):
    if not isinstance(key, bytes):
        key = repr(jsonable(key)).encode()
    return hashlib.blake2b(key, digest_size=8).digest()


class Ctx:
    "what a component reports during the check of one case"

    def __init__(self, comp_name):
        self.comp = comp_name
        self.states = set()
        self.transitions = 0
        self.validated = 0
        self.outcomes = {}
        self.failures = []
        self.samples = []
        self.case = None

    def state(self, *key):
        self.states.add(digest((self.comp,) + key))

    def step(self, n=1):
        self.transitions += n

    def ok(self, n=1):
        self.validated += n

    def outcome(self, label, n=1):
        self.outcomes[label] = self.outcomes.get(label, 0) + n

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(jsonable(obj))

    def fail(self, rule, msg, key=None):
        """records a violation; rule names the broken clause, key (optional)
        the specific input / call site it happens at (for known findings)"""
        self.failures.append({
            'component': self.comp, 'rule': rule, 'key': key or rule,
            'msg': str(msg)[:2000], 'case': jsonable(self.case)})

    def require(self, cond, rule, msg, key=None):
        if not cond:
            self.fail(rule, msg() if callable(msg) else msg, key)
            return False
        return True

    def call(self, rule, func, *args, **kwargs):
        "runs an operation of the real code; an exception is a violation"
        self.transitions += 1
        try:
            return func(*args, **kwargs)
        except Exception as exc:
            tb = traceback.extract_tb(exc.__traceback__)
            where = ''
            for frame in reversed(tb):
                if frame.filename.startswith(REPO):
                    where = (os.path.relpath(frame.filename, REPO)
                             + ':' + frame.name)
                    break
            self.fail(rule, f'{type(exc).__name__}: {exc} at {where}',
                      key=f'{rule}|{type(exc).__name__}|{where}')
            raise StopCase()

    def attempt(self, func, *args, **kwargs):
        "runs an operation of the real code; returns (result, exception)"
        self.transitions += 1
        try:
            return func(*args, **kwargs), None
        except Exception as exc:
            return None, exc


class Component:
    name = 'component'

    def cases(self, tier):
        raise NotImplementedError

    def setup(self):
        "imports of the real code, in the worker"

    def check(self, case, ctx):
        raise NotImplementedError


class FnComponent(Component):
    def __init__(self, name, cases, check, setup=None):
        self.name = name
        self._cases = cases
        self._check = check
        self._setup = setup

    def cases(self, tier):
        return self._cases(tier)

    def setup(self):
        if self._setup:
            self._setup()

    def check(self, case, ctx):
        return self._check(case, ctx)


def _on_timer(signum, frame):
    raise CaseTimeout()


def run_case(comp, case, ctx):
    ctx.case = case
    n_before = len(ctx.failures)
    signal.signal(signal.SIGPROF, _on_timer)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        comp.check(case, ctx)
    except StopCase:
        pass
    except CaseTimeout:
        ctx.fail('terminates',
                 f'no answer after {CASE_CPU_S:g} s of CPU time')
    except Exception as exc:
        ctx.fail('no-error', 'unexpected ' + ''.join(
            traceback.format_exception_only(type(exc), exc)).strip()
                 + ' / ' + '; '.join(
                     f'{os.path.basename(f.filename)}:{f.lineno}:{f.name}'
                     for f in traceback.extract_tb(exc.__traceback__)[-4:]))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return len(ctx.failures) > n_before


def _worker(comps, tier, counter, stop, path, known):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    sys.stdout = open(os.devnull, 'w')
    sys.stderr = open(os.devnull, 'w')
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    import warnings
    warnings.simplefilter('ignore')
    out = {}
    try:
        for ci, comp in enumerate(comps):
            ctx = Ctx(comp.name)
            out[ci] = ctx
            try:
                comp.setup()
            except Exception as exc:
                ctx.case = 'import'
                ctx.fail('imports', 'the code under test cannot be loaded: '
                         + repr(exc))
                continue
            ctx.n_cases = 0
            ctx.t0 = time.process_time()
            it = enumerate(comp.cases(tier))
            block = getattr(comp, 'block', 8)
            while True:
                with counter[ci].get_lock():
                    start = counter[ci].value
                    counter[ci].value += block
                end = False
                took = 0
                for idx, case in it:
                    if idx < start:
                        continue
                    ctx.n_cases += 1
                    bad = run_case(comp, case, ctx)
                    if bad:
                        for f in ctx.failures:
                            f.setdefault('index', idx)
                        new = [f for f in ctx.failures
                               if (f['component'], f['key']) not in known]
                        if len(ctx.failures) > 2000:
                            seen = {}
                            for f in ctx.failures:
                                seen.setdefault((f['rule'], f['key']), []
                                                ).append(f)
                            ctx.failures = [f for v in seen.values()
                                            for f in v[:20]]
                        if len(new) >= 20:
                            stop[ci].value = 1
                    took += 1
                    if took >= block or stop[ci].value:
                        break
                else:
                    end = True
                if end or stop[ci].value:
                    break
            ctx.cpu = time.process_time() - ctx.t0
        res = {ci: dict(states=c.states, transitions=c.transitions,
                        validated=c.validated, outcomes=c.outcomes,
                        failures=c.failures[:200], samples=c.samples,
                        n_cases=getattr(c, 'n_cases', 0),
                        cpu=getattr(c, 'cpu', 0.))
               for ci, c in out.items()}
    except BaseException:
        res = {'error': traceback.format_exc()}
    with open(path, 'wb') as fh:
        pickle.dump(res, fh)
    os._exit(0)


def load_known():
    entries = []
    path = os.path.join(VERIF, 'known-findings.jsonl')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('{'):
                entries.append(json.loads(line))
    return entries


def run_check(prop, comps, tier, seed, assumptions, level='model_checking',
              only=None):
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    known = [k for k in load_known()
             if k['property'] == prop and k.get('status') == 'known']
    knownkeys = {(k['component'], k['key']) for k in known}
    if only:
        comps = [c for c in comps if c.name in only]
    nproc = int(os.environ.get('MC_PROCS', '0')) or \
        max(1, len(os.sched_getaffinity(0)))
    counter = [mp.Value('q', 0) for _ in comps]
    stop = [mp.Value('i', 0) for _ in comps]
    tmp = os.path.join(VERIF, 'evidence', f'.tmp-{prop}-{os.getpid()}')
    os.makedirs(tmp, exist_ok=True)
    sys.stdout.flush()
    sys.stderr.flush()
    pids = []
    for w in range(nproc):
        path = os.path.join(tmp, f'{w}.pkl')
        pid = os.fork()
        if pid == 0:
            _worker(comps, tier, counter, stop, path, knownkeys)
        pids.append((pid, path))
    results, crashed = [], []
    for pid, path in pids:
        _, status = os.waitpid(pid, 0)
        if os.path.exists(path):
            with open(path, 'rb') as fh:
                results.append(pickle.load(fh))
            os.unlink(path)
        else:
            crashed.append(status)
    os.rmdir(tmp)
    err = [r['error'] for r in results if 'error' in r]
    if err:
        print('harness error:', err[0], file=sys.stderr)
        return 2
    failures = []
    if crashed:
        failures.append({
            'component': comps[0].name, 'rule': 'no-crash', 'key': 'no-crash',
            'msg': f'a worker process died (status {crashed[0]}) while the '
                   'code under test ran', 'case': None, 'index': 0})
    states, transitions, validated = set(), 0, 0
    per_comp, samples = {}, []
    for ci, comp in enumerate(comps):
        agg = dict(cases=0, states=0, transitions=0, validated=0,
                   outcomes={}, cpu_s=0.)
        cstates = set()
        csamples = []
        for r in results:
            if ci not in r:
                continue
            c = r[ci]
            cstates |= c['states']
            agg['cases'] += c['n_cases']
            agg['transitions'] += c['transitions']
            agg['validated'] += c['validated']
            agg['cpu_s'] = round(agg['cpu_s'] + c['cpu'], 2)
            for k, v in c['outcomes'].items():
                agg['outcomes'][k] = agg['outcomes'].get(k, 0) + v
            failures.extend(c['failures'])
            csamples.extend(c['samples'])
        agg['states'] = len(cstates)
        csamples.sort(key=lambda s: json.dumps(s, sort_keys=True))
        samples.extend({'component': comp.name, 'case': s}
                       for s in csamples[:3])
        states |= cstates
        transitions += agg['transitions']
        validated += agg['validated']
        per_comp[comp.name] = agg
        need = getattr(comp, 'expect_outcomes', ())
        missing = [o for o in need if not agg['outcomes'].get(o)]
        if missing and not stop[ci].value:
            failures.append({
                'component': comp.name, 'rule': 'reachable',
                'key': 'reachable',
                'msg': f'outcomes {missing} are no longer reached by any '
                       f'case (reached: {agg["outcomes"]})',
                'case': None, 'index': 0})
    if only is None or failures:
        pass
    failures.sort(key=lambda f: (f['component'], f.get('index', 0)))
    new, old = [], {}
    for f in failures:
        k = (f['component'], f['key'])
        if k in knownkeys:
            old.setdefault(k, f)
        else:
            new.append(f)
    for k in known:
        if (k['component'], k['key']) in old:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    seen = set()
    n_rep = 0
    for f in new:
        k = (f['component'], f['rule'])
        if k in seen:
            continue
        seen.add(k)
        rep = os.path.join(VERIF, 'evidence', 'replay',
                           f'{prop}-{n_rep}.json')
        n_rep += 1
        with open(rep, 'w') as fh:
            json.dump(dict(property=prop, tier=tier, **f), fh, indent=1)
        print(f"  {f['component']}: {f['rule']}: {f['msg'][:400]}")
        print(f'  case: {json.dumps(f["case"])[:600]}')
        print(f'VIOLATION property={prop} replay={rep}')
        if n_rep >= 10:
            break
    evidence = dict(
        property=prop, tier=tier, seed=seed, level=level,
        coverage=dict(
            states=len(states), transitions=transitions,
            traces_validated_against_impl=validated,
            exhaustive=not any(v.value for v in stop), samples=samples[:30],
            components=per_comp),
        assumptions=assumptions, wall_s=round(time.time() - t0, 2),
        violations=len(new))
    if only is None:
        with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as fh:
            json.dump(evidence, fh, indent=1)
    print(f'{prop} [{tier}]: {len(states)} states, {transitions} '
          f'transitions, {validated} validated, {len(new)} violations, '
          f'{time.time() - t0:.1f} s')
    if os.environ.get('MC_VERBOSE'):
        for name, agg in per_comp.items():
            print('   ', name, agg)
    return 1 if new else 0


def replay(path):
    "re-runs the single case of a replay file"
    import importlib
    with open(path) as fh:
        rep = json.load(fh)
    module = importlib.import_module('mc.checks.' + rep['property'].lower())
    for comp in module.components(rep.get('tier', 'quick')):
        if comp.name == rep['component']:
            comp.setup()
            ctx = Ctx(comp.name)
            run_case(comp, rep['case'], ctx)
            for f in ctx.failures:
                print(json.dumps(f, indent=1))
            if ctx.failures:
                print(f"VIOLATION property={rep['property']} replay={path}")
                return 1
            print('the case passes')
            return 0
    print('unknown component')
    return 2
