"""Runs the harnesses of one property, replays counterexamples, writes evidence."""
import json
import math
import os
import sys
import time
import traceback
import random

from . import core
from .core import Abort, ConT, Engine, Stats, Steer, SymT
from .nplike import Patch

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Harness:
    """One symbolic experiment.

    body(t, **params): drives the real code.  params: list of dicts, one job each.
    patch(t): extra (object, attribute, stub) replacements for symbolic and concrete runs.
    functions: real functions executed symbolically.  covers: labels that must be reached (vacuity guard).
    """

    def __init__(self, name, body, params=None, functions=(), bounds='', stubs=(), covers=(), symbolic_only=(), max_paths=40000,
                 time_limit=240, validate=3, tol=2e-7, query_ms=20000, np_proxy=True, builtins=(), thorough_params=None, env=None, py_div=False, exact_strings=False):
        self.name, self.body = name, body
        self.params = params or [{}]
        self.thorough_params = thorough_params
        self.functions, self.bounds, self.stubs, self.covers = list(functions), bounds, list(stubs), list(covers)
        self.max_paths, self.time_limit, self.validate, self.tol = max_paths, time_limit, validate, tol
        self.query_ms, self.np_proxy, self.builtins, self.env = query_ms, np_proxy, builtins, env
        self.py_div, self.exact_strings = py_div, exact_strings

    def jobs(self, tier):
        ps = self.thorough_params if tier == 'thorough' and self.thorough_params else self.params
        return ps() if callable(ps) else ps


def _quiet():
    class Sink:
        def write(self, *_): return 0
        def flush(self): pass
        def isatty(self): return False
        encoding = 'utf-8'
    return Sink()


class Silence:
    def __enter__(self):
        self.o = sys.stdout
        self.e = sys.stderr
        sys.stdout = _quiet()
        sys.stderr = _quiet()
        import warnings
        self.w = warnings.catch_warnings()
        self.w.__enter__()
        warnings.simplefilter('ignore')
        import pyg2p.main.interpolation.grib_interpolation_lib as g, pyg2p.main.interpolation.scipy_interpolation_lib as s
        import pyg2p.util.generics as u
        self.saved = []
        for m in (g, s, u):
            if hasattr(m, 'stdout'):
                self.saved.append((m, m.stdout))
                m.stdout = sys.stdout

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.o, self.e
        for m, v in self.saved:
            m.stdout = v
        self.w.__exit__(None, None, None)


def run_concrete(h, params, inputs):
    """The body on the real, unpatched libraries.  Returns (fails, obs, t)."""
    t = ConT(dict(inputs), h.tol)
    try:
        with Silence():
            import numpy as np
            with np.errstate(all='ignore'):
                h.body(t, **params)
    except Abort:
        return None, t
    except Steer as s:
        t.fails.append(('engine', repr(s)))
        return None, t
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        where = ' <- '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in reversed(tb[-4:]))
        t.fails.append(('unexpected exception', f'{type(ex).__name__}: {ex} @ {where}'))
    return t.fails, t


def run_job(args):
    prop, hname, pi, tier, seed = args
    mod = load_check(prop)
    h = next(x for x in mod.HARNESSES if x.name == hname)
    params = h.jobs(tier)[pi]
    eng = Engine(max_paths=h.max_paths, time_limit=h.time_limit * (3 if tier == 'thorough' else 1), query_ms=h.query_ms)
    eng.py_div = h.py_div
    eng.tol = h.tol * 5
    eng.exact_strings = h.exact_strings
    rnd = random.Random(f'{seed}-{hname}-{pi}')
    todo = []
    nval = h.validate * (3 if tier == 'thorough' else 1)

    def on_path(e, t):
        # reservoir of path witnesses to run concretely
        n = e.st.paths
        if len(todo) < nval:
            slot = len(todo)
            todo.append(None)
        else:
            slot = rnd.randrange(n)
            if slot >= nval:
                return
        try:
            m = e._nice_model(t) or e._model()
        except Steer:
            m = None
        if m is None:
            if todo and todo[slot] is None:
                todo.pop(slot)
            return
        todo[slot] = (t.inputs_of(m), {k: core.model_value(m, v) for k, v in t.obs.items()}, set(t.covers))

    t0 = time.time()
    cands = []
    crash = None
    try:
        with Silence():
            with Patch(np_proxy=h.np_proxy, builtins=h.builtins):
                cands = eng.explore(lambda t: h.body(t, **params), on_path)
    except Exception:
        crash = traceback.format_exc()
    st = eng.st
    viol, notes = [], []
    if crash:
        notes.append(crash)
    seen = set()
    for c in cands:
        fails, ct = run_concrete(h, params, c['inputs'])
        if fails:
            key = fails[0][0]
            if key in seen and len(viol) > 4:
                continue
            seen.add(key)
            viol.append({'harness': hname, 'params': params, 'inputs': jsonable(c['inputs']), 'label': fails[0][0],
                         'fails': [list(f) for f in fails[:5]], 'symbolic_label': c['label'], 'symbolic_detail': c['detail']})
        elif c.get('soft'):
            pass
        else:
            st.inconclusive += 1
            notes.append(f"{hname}{params}: counterexample does not reproduce: {c['label']} {c['detail']} inputs={c['inputs']}")
    # path witnesses on the real code: validates the encoding
    for w in todo:
        if not w:
            continue
        inputs, obs, cov = w
        fails, ct = run_concrete(h, params, inputs)
        if fails is None:
            continue
        st.validated += 1
        if fails:
            viol.append({'harness': hname, 'params': params, 'inputs': jsonable(inputs), 'label': fails[0][0],
                         'fails': [list(f) for f in fails[:5]], 'symbolic_label': 'path witness', 'symbolic_detail': ''})
            continue
        bad = [(k, obs[k], ct.obs[k]) for k in obs if k in ct.obs and not core.same(obs[k], ct.obs[k], 1e-4)]
        if bad:
            st.mismatch += 1
            notes.append(f'{hname}{params}: encoding and real code differ on {inputs}: {bad[:3]}')
        if len(st.samples) < 2:
            st.samples.append({'harness': hname, 'params': str(params), 'inputs': jsonable(inputs), 'observed': jsonable({k: ct.obs[k] for k in list(ct.obs)[:6]})})
    if not eng.complete and not cands:
        notes.append(f'{hname}{params}: exploration incomplete (paths={st.paths}, {time.time() - t0:.0f}s)')
    return {'harness': hname, 'params': pi, 'stats': st, 'viol': viol, 'notes': notes, 'complete': eng.complete or bool(viol),
            'wall': time.time() - t0, 'crash': bool(crash), 'params': params}


def jsonable(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(x) for x in o]
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        o = float(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, float) and (o != o or math.isinf(o)):
        return repr(o)
    if isinstance(o, (int, float, str, bool)) or o is None:
        return o
    return repr(o)


def unjson(o):
    return {k: (float(v) if v in ('nan', 'inf', '-inf') else v) for k, v in o.items()}


_MODS = {}


def load_check(prop):
    if prop in _MODS:
        return _MODS[prop]
    import importlib
    import glob
    f = glob.glob(os.path.join(ROOT, 'checks', prop.lower() + '_*.py'))
    name = 'checks.' + os.path.basename(f[0])[:-3]
    _MODS[prop] = importlib.import_module(name)
    return _MODS[prop]


def known_findings(prop):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == prop]


def _child(conn, job):
    try:
        r = run_job(job)
    except BaseException:
        r = stopped(job, traceback.format_exc())
    conn.send(r)
    conn.close()
    os._exit(0)


def stopped(job, why):
    return {'harness': job[1], 'params': job[2], 'stats': Stats(), 'viol': [], 'notes': [f'{job[1]} job {job[2]}: {why}'], 'complete': False, 'wall': 0.0, 'crash': False}


def run_jobs(mod, jobs, nproc, tier, t0):
    """One process per job.  A job that does not end (a solver that ignores its time limit) is stopped and reported as
    not explored; after a violation the other jobs have one more minute."""
    import multiprocessing as mp
    from multiprocessing.connection import wait
    ctx = mp.get_context('fork')
    limits = {h.name: (h.time_limit * 1.5 + 60 if tier == 'quick' else h.time_limit * 3 + 600) for h in mod.HARNESSES}
    deadline = t0 + (780 if tier == 'quick' else 6 * 3600)
    known = known_findings(jobs[0][0])
    todo, running, results = list(jobs)[::-1], {}, []
    while todo or running:
        while todo and len(running) < nproc and time.time() < deadline:
            job = todo.pop()
            here, there = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(there, job), daemon=True)
            p.start()
            there.close()
            running[here] = p, job, time.time()
        if not running:
            break
        for c in wait(list(running), timeout=1):
            p, job, t = running.pop(c)
            try:
                r = c.recv()
            except (EOFError, OSError):
                r = stopped(job, 'ended without a result')
            results.append(r)
            c.close()
            p.join()
            if any(not any(mod.matches_finding(k, v) for k in known) if known and hasattr(mod, 'matches_finding') else True for v in r['viol']):
                deadline = min(deadline, time.time() + 60)
        now = time.time()
        for c, (p, job, t) in list(running.items()):
            if now > deadline or now - t > limits[job[1]]:
                p.kill()
                p.join()
                c.close()
                running.pop(c)
                results.append(stopped(job, f'stopped after {now - t:.0f} s'))
    results += [stopped(job, 'not run: out of time') for job in todo]
    return results


def main(prop, tier, seed, only=None, verbose=False):
    t0 = time.time()
    mod = load_check(prop)
    jobs = []
    for h in mod.HARNESSES:
        if only and h.name not in only:
            continue
        for pi in range(len(h.jobs(tier))):
            jobs.append((prop, h.name, pi, tier, seed))
    nproc = min(8, os.cpu_count() or 4, len(jobs))
    if nproc > 1 and not os.environ.get('VERIF_SERIAL'):
        results = run_jobs(mod, jobs, nproc, tier, t0)
    else:
        results = [run_job(j) for j in jobs]
    total = Stats()
    per = {}
    viol, notes = [], []
    complete = True
    crash = False
    for r in results:
        total.merge(r['stats'])
        hs = per.setdefault(r['harness'], Stats())
        hs.merge(r['stats'])
        hs.wall = getattr(hs, 'wall', 0) + r['wall']
        viol += r['viol']
        notes += r['notes']
        complete &= r['complete']
        crash |= r['crash']
    if verbose:
        for r in sorted(results, key=lambda r: -r['wall'])[:25]:
            print(f"  {r['wall']:6.1f} s {r['stats'].paths:6d} paths  {r['harness']} {r.get('params', '')}")
    problems = []
    for h in mod.HARNESSES:
        if only and h.name not in only:
            continue
        for c in h.covers:
            if not per[h.name].covered.get(c) and not viol and not per[h.name].inconclusive and complete:
                problems.append(f'{h.name}: reachability witness "{c}" never reached (vacuous)')
    # known findings
    kf = known_findings(prop)
    new, known = [], {}
    for v in viol:
        k = next((k for k in kf if mod.matches_finding(k, v)), None) if kf and hasattr(mod, 'matches_finding') else None
        if k:
            known.setdefault(k['id'], (k, v))
        else:
            new.append(v)
    for kid, (k, v) in known.items():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for k in kf:
        if k['id'] not in known:
            print(f"note: known finding {k['id']} was not met in this run")
    wall = time.time() - t0
    rc = 0
    if new:
        rdir = os.path.join(ROOT, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(new[:5]):
            path = os.path.join(rdir, f'{prop}-{i}.json')
            json.dump({'property': prop, **v, 'tier': tier}, open(path, 'w'), indent=1, default=repr)
            if i == 0:
                print(f'VIOLATION property={prop} replay={path}')
            print(f"  {v['harness']} {v['params']}: {v['label']} {v['fails'][0][1]}\n  inputs: {json.dumps(v['inputs'], default=repr)[:600]}")
        rc = 1
    elif problems or total.discharged == 0:
        rc = 2
        for p in problems:
            print('ERROR:', p)
    if not new and (not complete or crash):
        print('INCOMPLETE: some executions were not explored (see the notes and the evidence); the result covers the rest')
    if total.inconclusive:
        print(f'INCONCLUSIVE: {total.inconclusive} paths/queries were not decided: {dict(list(total.reasons.items())[:5])}')
    for n in notes[:8 if not verbose else 100]:
        print('note:', n)
    fn = sorted({f for h in mod.HARNESSES for f in h.functions})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': total.paths, 'transitions': total.branches, 'traces_validated_against_impl': total.validated,
            'samples': total.samples[:6] or [{'note': 'no completed path'}],
            'obligations': total.obligations, 'discharged': total.discharged, 'inconclusive': total.inconclusive,
            'solver_queries': total.queries, 'solver_s': round(total.solver_s, 2), 'infeasible_or_assumed_away_paths': total.aborted,
            'encoding_mismatches': total.mismatch, 'exhaustive': bool(complete and not total.inconclusive),
            'functions_encoded': fn,
            'harnesses': {h.name: {'bounds': h.bounds, 'stubs': h.stubs, 'jobs': len(h.jobs(tier)),
                                   'paths': per[h.name].paths, 'obligations': per[h.name].obligations, 'discharged': per[h.name].discharged,
                                   'queries': per[h.name].queries, 'solver_s': round(per[h.name].solver_s, 2), 'job_s': round(per[h.name].wall, 1),
                                   'witnesses': per[h.name].covered}
                          for h in mod.HARNESSES if h.name in per},
            'explanation': 'states = symbolically executed feasible paths of the real functions; transitions = symbolic branch decisions; '
                           'obligations are decided by z3 for all values of each path; traces_validated = path witnesses re-run on the unpatched code',
            'solver': 'z3 ' + __import__('z3').get_version_string(),
            'known_findings_met': sorted(known),
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON_ASSUMPTIONS,
        'wall_s': round(wall, 2), 'violations': len(new)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1, default=repr)
    print(f'{prop} [{tier}]: paths={total.paths} obligations={total.obligations} discharged={total.discharged} inconclusive={total.inconclusive} '
          f'validated={total.validated} mismatch={total.mismatch} queries={total.queries} solver={total.solver_s:.1f}s wall={wall:.1f}s -> exit {rc}')
    return rc


COMMON_ASSUMPTIONS = [
    'floating point numbers are modelled as mathematical reals (no rounding, overflow or NaN inputs unless stated); counterexamples are replayed in floating point',
    'numpy and numpy.ma are the real libraries on object arrays; numexpr is replaced by an interpreter of its expressions (masks ignored, true division, no exceptions)',
    'the bounds are those listed per harness; nothing is claimed outside them',
]
