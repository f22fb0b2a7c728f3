"""Run-time verdict machinery: contexts, counters, violations, sharded execution, evidence."""
import hashlib
import importlib
import json
import os
import re
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VSM_REPO', '/repo')
PY = os.environ.get('VSM_PYTHON', '/opt/venv/bin/python')
EVID = os.environ.get('VSM_EVID', os.path.join(ROOT, 'evidence'))
KNOWN_FILE = os.path.join(ROOT, 'known_findings.txt')
CASE_LIMIT = 240      # s, for one case
MAX_FAIL = 3          # violations kept per shard


class Violation(Exception):
    """An observed execution refutes the property."""

    def __init__(self, msg, detail=None):
        super().__init__(msg)
        self.detail = detail or {}


class Inconclusive(Exception):
    """The monitor could not decide (never a verdict)."""


def jsonable(x, depth=0):
    """Best-effort conversion of anything a monitor saw into JSON."""
    import numpy as np
    if depth > 6:
        return str(x)[:200]
    if isinstance(x, (bool, int, str)) or x is None:
        return x
    if isinstance(x, float):
        return x if x == x and abs(x) != float('inf') else str(x)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth+1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth+1) for v in list(x)[:60]]
    if hasattr(x, 'unit') and hasattr(x, 'value'):
        return str(x)[:200]
    if isinstance(x, np.generic):
        return jsonable(x.item(), depth+1)
    if isinstance(x, np.ndarray):
        return {'shape': list(x.shape), 'head': jsonable(x.ravel()[:8].tolist(), depth+1)}
    return str(x)[:200]


class Ctx:
    """What one property's monitors observe in one process."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.events = Counter()       # monitor observations, by kind
        self.cases = Counter()        # executed cases, by workload
        self.distinct = set()         # hashes of distinct non-trivial cases
        self.samples = []
        self.violations = []
        self.known = Counter()        # known finding key -> observations
        self.inconclusive = []
        self.stats = {}               # name -> [n, min, max] of measured margins
        self.current = None
        self.thorough = tier == 'thorough'

    # -- observation
    def event(self, name, n=1):
        self.events[name] += n

    def margin(self, name, value):
        value = float(value)
        s = self.stats.setdefault(name, [0, value, value])
        s[0] += 1
        s[1] = min(s[1], value)
        s[2] = max(s[2], value)

    def key(self, *parts):
        """Register the current case as distinct and non-trivial."""
        h = hashlib.blake2b(repr(parts).encode(), digest_size=8).hexdigest()
        self.distinct.add(h)

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(jsonable(obj))

    # -- judgement
    def fail(self, msg, **detail):
        raise Violation(msg, detail)

    def ok(self, cond, msg, **detail):
        if not cond:
            raise Violation(msg, detail)

    def close(self, got, want, msg, rtol=1e-9, atol=None, **detail):
        import numpy as np
        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float)
        if atol is None:   # relative to the largest expected value, whatever its unit
            a = np.abs(want[np.isfinite(want)])
            atol = 1e-12*(a.max() if a.size and a.max() > 0 else 1)
        if got.shape != want.shape:
            raise Violation(f'{msg}: shape {got.shape} instead of {want.shape}', detail)
        bad = ~(np.abs(got-want) <= atol + rtol*np.abs(want))
        same_inf = (got == want)
        bad &= ~same_inf
        if np.any(bad):
            i = np.argwhere(np.atleast_1d(bad))[0]
            g, w = np.atleast_1d(got)[tuple(i)], np.atleast_1d(want)[tuple(i)]
            raise Violation(f'{msg}: observed {g!r}, expected {w!r} (element {i.tolist()}, '
                            f'{int(bad.sum())} of {bad.size} differ)', detail)

    def known_finding(self, key, text):
        """A violation whose mechanism is `key`: known if listed, else a violation."""
        if key in known_keys(self.prop):
            self.known[key] += 1
            return
        raise Violation(text, {'finding': key})


def known_keys(prop):
    out = {}
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def load(prop):
    return importlib.import_module(f'vsm.props.{prop.lower()}')


def case_rng(seed, prop, workload, index):
    import numpy as np
    h = int(hashlib.blake2b(f'{prop}/{workload}'.encode(), digest_size=4).hexdigest(), 16)
    return np.random.default_rng([seed, h, index])


def too_long(*_):
    raise Violation(f'a request was still running after {CASE_LIMIT} s (a case takes a few seconds)')


def run_case(ctx, prop, workload, fn, index):
    """One execution under the monitors. True if it held."""
    import warnings
    import numpy as np
    ctx.current = (workload, index)
    ctx.cases[workload] += 1
    rng = case_rng(ctx.seed, prop, workload, index)
    try:
        signal.signal(signal.SIGALRM, too_long)
        signal.alarm(CASE_LIMIT)
        try:
            with warnings.catch_warnings(), np.errstate(all='ignore'):
                warnings.simplefilter('ignore')
                fn(ctx, rng)
        finally:
            signal.alarm(0)
        return True
    except Inconclusive as e:
        ctx.inconclusive.append(f'{workload}[{index}]: {e}')
        return True
    except (MemoryError, KeyboardInterrupt):
        raise
    except Violation as e:
        ctx.violations.append(dict(workload=workload, index=index, message=str(e),
                                   detail=jsonable(e.detail),
                                   trace=traceback.format_exc()[-3000:]))
    except Exception as e:   # the workload stays inside the documented domain
        ctx.violations.append(dict(workload=workload, index=index,
                                   message=f'in-domain request raised {type(e).__name__}: {e}',
                                   detail={}, trace=traceback.format_exc()[-3000:]))
    return False


def cases_of(mod, tier, seed):
    """(workload, fn, index) round robin over workloads, deterministic."""
    plan = []
    for name, fn, nq, nt in mod.WORKLOADS:
        n = nq*getattr(mod, 'SCALE', 1) if tier == 'quick' else nt
        plan += [((i+0.5)/n, name, fn, i) for i in range(n)]
    plan.sort(key=lambda t: (t[0], t[1]))
    return [(n, f, i) for _, n, f, i in plan]


def worker(prop, tier, seed, shard, nshards, out, deadline):
    if REPO != '/repo':
        sys.path.insert(0, REPO)
    import vspec_vsm
    assert os.path.abspath(vspec_vsm.__file__).startswith(os.path.abspath(REPO)+os.sep), \
        vspec_vsm.__file__
    mod = load(prop)
    ctx = Ctx(prop, tier, seed)
    if hasattr(mod, 'setup'):
        mod.setup(ctx)
    t0 = time.time()
    skipped = 0
    # the seed of a run also shifts which worker gets which case; a case depends on its index alone
    for k, (name, fn, index) in enumerate(cases_of(mod, tier, seed)):
        if k % nshards != shard:
            continue
        if time.time()-t0 > deadline:
            skipped += 1
            continue
        run_case(ctx, prop, name, fn, index)
        if len(ctx.violations) >= MAX_FAIL:
            break
    json.dump(dict(events=ctx.events, cases=ctx.cases, distinct=sorted(ctx.distinct),
                   samples=ctx.samples, violations=ctx.violations, known=ctx.known,
                   inconclusive=ctx.inconclusive, stats=ctx.stats, skipped=skipped),
              open(out, 'w'))


def env_for_workers():
    env = dict(os.environ)
    env.update(JAX_PLATFORMS='cpu', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
               XLA_FLAGS='--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1',
               PYTHONPATH=ROOT, PYTHONHASHSEED='0')
    return env


def run(prop, tier, seed, shards=None):
    t0 = time.time()
    mod_meta = subprocess.run(
        [PY, '-c', f'import sys,json; sys.path.insert(0,{ROOT!r})\n'
         f'from vsm import core\nm=core.load({prop!r})\n'
         'print(json.dumps(dict(rule=m.RULE, need=getattr(m,"NEED",{}), '
         'assumptions=getattr(m,"ASSUMPTIONS",[]), shards=getattr(m,"SHARDS",8), '
         'n=len(core.cases_of(m,%r,0)))))' % tier],
        env=env_for_workers(), capture_output=True, text=True, cwd=ROOT)
    if mod_meta.returncode:
        # importing the package itself fails: nothing can be observed
        print(mod_meta.stderr[-3000:])
        return 2
    meta = json.loads(mod_meta.stdout.strip().splitlines()[-1])
    nsh = shards or (meta['shards'] if tier == 'quick' else 8)
    nsh = max(1, min(nsh, meta['n']))
    deadline = 420 if tier == 'quick' else 3000
    tmp = tempfile.mkdtemp(prefix=f'vsm_{prop}_')
    procs = []
    for s in range(nsh):
        out = os.path.join(tmp, f'{s}.json')
        log = open(os.path.join(tmp, f'{s}.log'), 'w')
        procs.append((out, log, subprocess.Popen(
            [PY, os.path.join(ROOT, 'run.py'), '--worker', prop, tier, str(seed), str(s), str(nsh),
             out, str(deadline)], env=env_for_workers(), stdout=log, stderr=log, cwd=tmp)))
    watchdog = deadline + 300
    res, errors = [], []
    for out, log, p in procs:
        try:
            p.wait(timeout=max(1, watchdog-(time.time()-t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            errors.append('watchdog: a worker did not finish')
        log.close()
        if os.path.exists(out):
            res.append(json.load(open(out)))
        else:
            errors.append(f'worker rc={p.returncode}: ' + open(log.name).read()[-1500:])
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)

    events, cases, known = Counter(), Counter(), Counter()
    distinct, samples, violations, inconc, stats, skipped = set(), [], [], [], {}, 0
    for r in res:
        events.update(r['events'])
        cases.update(r['cases'])
        known.update(r['known'])
        distinct |= set(r['distinct'])
        samples += r['samples']
        violations += r['violations']
        inconc += r['inconclusive']
        skipped += r['skipped']
        for k, (n, lo, hi) in r['stats'].items():
            s = stats.setdefault(k, [0, lo, hi])
            stats[k] = [s[0]+n, min(s[1], lo), max(s[2], hi)]
    missing = {k: (events.get(k, 0), v) for k, v in meta['need'].items()
               if events.get(k, 0) < v}
    code = 0
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    for f in os.listdir(os.path.join(EVID, 'replay')):
        if f.startswith(prop+'-'):
            os.remove(os.path.join(EVID, 'replay', f))
    replay = None
    if violations:
        violations.sort(key=lambda v: (v['workload'], v['index']))
        for i, v in enumerate(violations[:8]):
            path = os.path.join(EVID, 'replay', f'{prop}-{i}.json')
            json.dump(dict(property=prop, tier=tier, seed=seed, **v), open(path, 'w'), indent=1)
            replay = replay or path
        code = 1
    elif errors or missing or inconc or not res or skipped > 0.8*meta['n']:
        code = 2
    findings = known_keys(prop)
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=int(sum(cases.values())), distinct_nontrivial=len(distinct),
                            rule=meta['rule'], samples=samples[:5],
                            cases_by_workload=dict(cases), monitor_events=dict(events),
                            measured_margins={k: dict(n=v[0], min=v[1], max=v[2])
                                              for k, v in stats.items()},
                            skipped_by_time_cap=skipped, workers=len(res),
                            known_findings_seen=dict(known), inconclusive=inconc[:5]),
              assumptions=meta['assumptions'], wall_s=round(time.time()-t0, 2),
              violations=len(violations))
    json.dump(ev, open(os.path.join(EVID, f'{prop}.json'), 'w'), indent=1)
    for k in known:
        print(f'KNOWN-FINDING: property={prop} {findings.get(k, k)} [key={k}, seen {known[k]}x]')
    for v in violations[:5]:
        print(f"  {v['workload']}[{v['index']}]: {v['message'][:400]}")
    if code == 1:
        print(f'VIOLATION property={prop} replay={replay}')
    elif code == 2:
        print(f'INCONCLUSIVE property={prop} errors={errors[:2]} missing={missing} '
              f'inconclusive={inconc[:2]} skipped={skipped}')
    else:
        print(f'HELD property={prop} tier={tier} seed={seed} executions={sum(cases.values())} '
              f'distinct={len(distinct)} events={sum(events.values())} wall={ev["wall_s"]}s')
    return code


def replay(path):
    if REPO != '/repo':
        sys.path.insert(0, REPO)
    r = json.load(open(path))
    mod = load(r['property'])
    ctx = Ctx(r['property'], r['tier'], r['seed'])
    if hasattr(mod, 'setup'):
        mod.setup(ctx)
    fn = {w[0]: w[1] for w in mod.WORKLOADS}[r['workload']]
    if run_case(ctx, r['property'], r['workload'], fn, r['index']):
        print('replay: held')
        return 0
    v = ctx.violations[0]
    print(v['trace'])
    print('replay: violated:', v['message'])
    return 1
