"""Harness: facets (one generated check each), workers, replay, evidence.

A property module defines

    ID, TITLE, RULE, ASSUMPTIONS, warm()
    @facet(name, strategy, quick=N, thorough=M)
    def check(case): ...

``case`` is a plain JSON-able value drawn from ``strategy`` - all randomness
lives in the strategy - and ``check`` is a pure function of it.  It raises
``Violation`` if the property is broken on that case, and returns either
``None``/``False`` (trivial case) or a truthy value: a label (str), a list of
labels or True, which counts the case as non-trivial.
"""
import concurrent.futures as cf
import contextlib
import hashlib
import importlib
import io
import json
import math
import multiprocessing as mp
import os
import sys
import time
import traceback
import warnings
import zlib

from vf.main import ROOT, REPO

EMPY = os.path.join(os.path.realpath(REPO), 'empymod') + os.sep


class Violation(Exception):
    """The property does not hold on this case."""


class StopShrink(BaseException):
    """Shrinking took long enough."""


FACETS = {}
_CURRENT = None


class Facet:
    def __init__(self, name, strategy, fn, quick, thorough, shards):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough, self.shards = quick, thorough, shards


def facet(name, strategy, quick=100, thorough=None, shards=1):
    """Register a generated check; `shards` splits it over that many workers"""
    def deco(fn):
        key = fn.__module__
        FACETS.setdefault(key, []).append(
            Facet(name, strategy, fn, quick, thorough or quick*20, shards))
        return fn
    return deco


def jdump(case, **kw):
    return json.dumps(case, sort_keys=True, default=_jdef, **kw)


def _jdef(o):
    import numpy as np
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    raise TypeError(type(o))


def from_repo(tb):
    """True if the exception was raised by (or below) code of empymod."""
    files = [f.filename for f in traceback.extract_tb(tb)]
    last_vf = max([i for i, f in enumerate(files)
                   if os.path.realpath(f).startswith(ROOT + os.sep)] or [-1])
    return any(os.path.realpath(f).startswith(EMPY)
               for f in files[last_vf+1:])


def R(fn, *args, **kwargs):
    """Call (compiled) code of empymod: any exception is the code's."""
    try:
        return fn(*args, **kwargs)
    except Violation:
        raise
    except Exception as e:
        raise Violation(f'{getattr(fn, "__name__", fn)} raised '
                        f'{type(e).__name__}: {str(e)[:300]}') from e


def run_case(fct, case):
    """Run one case; normalise outcome."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return fct.fn(case)
    except Violation:
        raise
    except Exception as e:
        if type(e).__module__.startswith('hypothesis'):
            raise
        if from_repo(e.__traceback__):
            tail = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation(
                f'unexpected {type(e).__name__} from empymod: {str(e)[:300]} '
                f'[{os.path.basename(tail.filename)}:{tail.name}]') from e
        raise


def run_facet(modname, index, shard, tier, seed, deadline, shrink_s):
    """Worker: drive one facet (shard) with hypothesis."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    import numpy as np
    np.seterr(all='ignore')
    warnings.simplefilter('ignore')

    fct = FACETS[modname][index]
    nmax = fct.quick if tier == 'quick' else fct.thorough
    nmax = max(1, int(math.ceil(nmax/fct.shards)))

    st = {'facet': fct.name, 'evaluations': 0, 'seen': {}, 'labels': {},
          'samples': [], 'skipped': 0, 'fail': None, 'error': None,
          'wall_s': 0.0}
    t0 = time.monotonic()
    first_fail = [None]
    best = [None]

    def test(case):
        now = time.monotonic()
        if first_fail[0] is None and now > deadline:
            st['skipped'] += 1
            return
        if first_fail[0] is not None and now - first_fail[0] > shrink_s:
            raise StopShrink
        js = jdump(case)
        st['evaluations'] += 1
        try:
            lab = run_case(fct, json.loads(js))
        except Violation as e:
            if first_fail[0] is None:
                first_fail[0] = time.monotonic()
            if best[0] is None or len(js) <= len(best[0][0]):
                best[0] = (js, str(e))
            raise
        if lab:
            h = hashlib.blake2b(js.encode(), digest_size=8).hexdigest()
            if h not in st['seen']:
                st['seen'][h] = 1
                labs = [lab] if isinstance(lab, str) else (
                        lab if isinstance(lab, (list, tuple)) else [])
                for x in labs:
                    st['labels'][x] = st['labels'].get(x, 0) + 1
                n = len(st['seen'])
                if n in (2, 7) and len(js) < 1500:
                    st['samples'].append(json.loads(js))

    hseed = (seed*1000003 + zlib.crc32(
             f'{modname}/{fct.name}/{shard}'.encode())) % 2**32
    wrapped = hypothesis.given(fct.strategy)(test)
    wrapped = settings(
        max_examples=nmax, deadline=None, database=None, derandomize=False,
        report_multiple_bugs=False, print_blob=False,
        phases=[Phase.generate, Phase.shrink],
        suppress_health_check=list(HealthCheck))(wrapped)
    wrapped = hypothesis.seed(hseed)(wrapped)
    sink = io.StringIO()
    try:
        with contextlib.redirect_stdout(sink):
            wrapped()
    except Violation as e:
        if best[0] is None:
            st['error'] = 'violation without case: ' + str(e)
    except StopShrink:
        pass
    except BaseException as e:  # harness error (or flaky)
        if best[0] is None or isinstance(e, KeyboardInterrupt):
            st['error'] = ''.join(traceback.format_exception(e))[-4000:]
    if best[0] is not None:
        # Confirm in this process, outside of hypothesis.
        case = json.loads(best[0][0])
        try:
            with contextlib.redirect_stdout(sink):
                run_case(fct, case)
            st['error'] = ('failure does not reproduce: ' + best[0][1] +
                           ' ' + best[0][0][:1500])
        except Violation as e:
            st['fail'] = {'case': case, 'message': str(e)}
    st['wall_s'] = round(time.monotonic() - t0, 2)
    st['nontrivial'] = len(st['seen'])
    st['seen'] = list(st['seen'])
    return st


def load_known(pid):
    """Known findings: lines ``{"property":…, "facet":…, "match":…, …}``."""
    out = []
    path = os.path.join(ROOT, 'known_findings.jsonl')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith('#') and line[0] == '{':
                d = json.loads(line)
                if d.get('property') == pid:
                    out.append(d)
    return out


def get_module(pid):
    sys.path[:0] = []
    return importlib.import_module('vf.props.' + pid.lower())


def check(pid, tier):
    t0 = time.monotonic()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = get_module(pid)
    import empymod
    here = os.path.realpath(empymod.__file__)
    if not here.startswith(EMPY):
        print(f'ERROR: empymod imported from {here}, not {EMPY}')
        return 2
    facets = FACETS.get(mod.__name__, [])
    only = os.environ.get('VF_FACET')
    budget = float(os.environ.get('VF_BUDGET', 420 if tier == 'quick'
                                  else 3000))
    shrink_s = 45 if tier == 'quick' else 240

    # Known findings are replayed first: reported, and they must still fail.
    for k in load_known(pid):
        if k.get('status') == 'fixed':
            continue
        fct = [f for f in facets if f.name == k['facet']][0]
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                run_case(fct, k['case'])
        except Violation as e:
            print(f"KNOWN-FINDING: property={pid} {k['what']} ({e})")

    if hasattr(mod, 'warm'):
        with contextlib.redirect_stdout(io.StringIO()), \
                warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                mod.warm()
            except Exception:
                # The facets will show whether it is the code or not.
                pass
    twarm = time.monotonic() - t0
    deadline = t0 + budget

    tasks = [(i, s) for i, f in enumerate(facets) for s in range(f.shards)
             if only is None or f.name == only]
    # Largest share first.
    tasks.sort(key=lambda t: -(getattr(facets[t[0]], 'cost', 0)))
    ctx = mp.get_context('fork')
    results = []
    nw = min(int(os.environ.get('VF_WORKERS', os.cpu_count() or 1)),
             len(tasks))
    with cf.ProcessPoolExecutor(nw, mp_context=ctx) as ex:
        futs = [ex.submit(run_facet, mod.__name__, i, s, tier, seed,
                          deadline, shrink_s) for i, s in tasks]
        for f in futs:
            results.append(f.result())

    # Collect
    errors, fails = [], []
    per, samples = {}, []
    for r in results:
        d = per.setdefault(r['facet'], {
            'evaluations': 0, 'distinct_nontrivial': set(), 'labels': {},
            'skipped_budget': 0, 'wall_s': 0})
        d['evaluations'] += r['evaluations']
        d['distinct_nontrivial'] |= set(r['seen'])
        d['skipped_budget'] += r['skipped']
        d['wall_s'] = round(d['wall_s'] + r['wall_s'], 1)
        for k, v in r['labels'].items():
            d['labels'][k] = d['labels'].get(k, 0) + v
        for s in r['samples'][:2]:
            samples.append({'facet': r['facet'], 'case': s})
        if r['error']:
            errors.append((r['facet'], r['error']))
        if r['fail']:
            fails.append((r['facet'], r['fail']))
    for d in per.values():
        d['distinct_nontrivial'] = len(d['distinct_nontrivial'])
        d['labels'] = dict(sorted(d['labels'].items(),
                                  key=lambda kv: -kv[1])[:40])
    evaluations = sum(d['evaluations'] for d in per.values())
    nontriv = sum(d['distinct_nontrivial'] for d in per.values())

    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': nontriv,
            'rule': mod.RULE,
            'samples': samples[:12],
            'facets': per,
            'warm_up_s': round(twarm, 1),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': len(fails),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        f.write(jdump(ev, indent=1))

    for name, d in per.items():
        print(f"  {name:28s} eval {d['evaluations']:6d}  nontrivial "
              f"{d['distinct_nontrivial']:6d}  {d['wall_s']:7.1f}s"
              + (f"  skipped {d['skipped_budget']}" if d['skipped_budget']
                 else ''))
    rc = 0
    if fails:
        rdir = os.path.join(ROOT, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for name, fl in fails:
            if name in seen:
                continue
            seen.add(name)
            path = os.path.join(rdir, f'{pid}-{name}.json')
            with open(path, 'w') as f:
                f.write(jdump({'property': pid, 'facet': name, **fl},
                              indent=1))
            print(f"{name}: {fl['message'][:1500]}")
            print(f'VIOLATION property={pid} replay={path}')
        rc = 1
    for name, e in errors:
        print(f'ERROR in facet {name}:\n{e}')
    if errors and rc == 0:
        rc = 2
    if rc == 0 and (evaluations == 0 or nontriv == 0):
        print('ERROR: nothing was explored.')
        rc = 2
    print(f'{pid} {tier} seed={seed}: {evaluations} cases, {nontriv} distinct '
          f'non-trivial, {len(fails)} violations, {ev["wall_s"]} s '
          f'(warm-up {twarm:.1f} s)')
    return rc


def replay(path):
    d = json.load(open(path))
    mod = get_module(d['property'])
    fct = [f for f in FACETS[mod.__name__] if f.name == d['facet']][0]
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            run_case(fct, d['case'])
    except Violation as e:
        print(e)
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print('the case passes')
    return 0


def setup():
    """Nothing has to be built; show that everything needed is importable."""
    import hypothesis
    import numba
    import numpy
    import scipy
    import empymod
    print('hypothesis', hypothesis.__version__, 'numpy', numpy.__version__,
          'scipy', scipy.__version__, 'numba', numba.__version__,
          'empymod', empymod.__file__)
    return 0


def main(argv):
    if argv[:1] == ['setup']:
        return setup()
    if argv[:1] == ['replay'] and len(argv) == 2:
        return replay(argv[1])
    if argv[:1] == ['check'] and len(argv) in (2, 3):
        tier = argv[2] if len(argv) == 3 else os.environ.get(
                'VERIF_TIER', 'quick')
        return check(argv[1], tier)
    print(__doc__)
    return 3
