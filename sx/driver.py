"""Runs one property check: explores every case, replays counterexamples, writes the evidence file."""
import hashlib
import importlib.util
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

import z3

from . import core, explore, harness, loader
from .explore import Explorer, Limits, Stats
from .harness import SymH, concretize, run_concrete, same_note

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('SX_EVIDENCE') or os.path.join(VERIF, 'evidence')  # (other places only for tools/mut.py)


def check_path(prop):
    d = os.path.join(VERIF, 'checks')
    for f in sorted(os.listdir(d)):
        if f.lower().startswith(prop.lower() + '_') or f.lower() == prop.lower() + '.py':
            return os.path.join(d, f)
    raise SystemExit("no check for " + prop)


_mods = {}


def plain_module(path):
    if path not in _mods:
        lib = os.path.join(VERIF, 'checks')
        if lib not in sys.path:
            sys.path.insert(0, lib)
        spec = importlib.util.spec_from_file_location('chk_' + os.path.basename(path)[:-3], path)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _mods[path] = m
    return _mods[path]


class SymModules:
    "instrumented copies of the harness modules for one path"

    def __init__(self, h, path):
        w = h.world
        lib = os.path.join(VERIF, 'checks')
        orig = w.builtins['__import__']

        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            if level == 0 and '.' not in name and name != 'dashlivesim' and name in w.modules:
                return w.modules[name]
            if level == 0 and '.' not in name:
                p = os.path.join(lib, name + '.py')
                if os.path.isfile(p):
                    return w.exec_file(p, name)
            return orig(name, globals, locals, fromlist, level)
        w.builtins['__import__'] = imp
        self.mod = w.exec_file(path, 'chk')


def _second_opinion(solver, ne, st):
    return _cvc5(solver, ne, 60)


def _cvc5(solver, ne, tmo):
    s = z3.Solver()
    s.add(solver.assertions())
    s.add(ne)
    text = "(set-logic ALL)\n" + s.to_smt2()
    try:
        r = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % (tmo * 1000), '-'], input=text,
                           capture_output=True, text=True, timeout=tmo + 20)
    except (subprocess.TimeoutExpired, OSError):
        return 'unknown'
    out = r.stdout.strip().splitlines()
    if '(error' in r.stdout or not out:
        return 'unknown'
    return out[-1]


def _quiet():
    "the code under test prints tracebacks of the requests it refuses"
    if not os.environ.get('SX_DEBUG'):
        sys.stderr = open(os.devnull, 'w')


def run_case(args):
    path, idx, tier, seed, deadline, opts = args
    t0 = time.time()
    harness.install()
    sys.setrecursionlimit(6000)
    pm = plain_module(path)
    case = pm.cases(tier)[idx]
    lim = dict(getattr(pm, 'LIMITS', {}).get(tier, {}))
    lim.update(case.get('limits', {}))
    if deadline is not None:
        lim['wall_s'] = min(lim.get('wall_s', 600), max(5, deadline - time.time()))
    ncross = [0, 0.0]

    def cross(solver, ne, st):
        if ncross[0] >= opts.get('cross', 0) or ncross[1] > 12:
            return
        ncross[0] += 1
        tc = time.time()
        r = _cvc5(solver, ne, 5)
        ncross[1] += time.time() - tc
        if r in ('sat', 'unsat'):
            st.cvc5 += 1
            if r == 'sat':
                st.cvc5_disagree += 1
    ex = Explorer(Limits(**lim), crosscheck=cross if opts.get('cross') else None, second_opinion=_second_opinion)
    st = ex.stats
    res = {'violation': None, 'samples': [], 'reach': {}, 'cuts': {}, 'unrepro': []}
    holder = {}

    def fn(p):
        h = SymH(p, tier)
        holder['h'] = h
        harness._CUR[0] = h
        loader.time_shim.clock = None
        try:
            mod = SymModules(h, path).mod
            mod.run(h, case)
        finally:
            harness._CUR[0] = None
            loader.time_shim.clock = None

    def concrete(inputs):
        return run_concrete(pm.run, case, inputs, tier, limit=opts.get('climit', 20))

    def report(inputs, label, h=None):
        res['violation'] = {'case': case, 'index': idx, 'inputs': inputs, 'label': label}

    def on_path(p, outcome, exc):
        h = holder.get('h')
        for k, v in h.reached.items():
            res['reach'][k] = res['reach'].get(k, 0) + v
        bad = list(p.cex)
        for label, inputs in bad:
            s, d, ch = concrete(inputs)
            if s in ('violation', 'hang'):
                report(inputs, d)
                return True
            st.unreproduced += 1
            if len(res['unrepro']) < 5:
                res['unrepro'].append({'label': label, 'inputs': inputs, 'concrete': s + ' ' + d})
        if outcome == 'infeasible':
            st.infeasible += 1
            return False
        if outcome == 'exc':
            st.cut += 1
            try:
                m = p.cur_model()
            except core.SxControl:
                return False
            inputs = p.input_values(m)
            s, d, ch = concrete(inputs)
            if s in ('violation', 'hang'):
                report(inputs, d)
                return True
            why = 'exception only in the symbolic run: %s: %s' % (type(exc).__name__, exc)
            if os.environ.get('SX_DEBUG'):
                traceback.print_exception(exc)
            res['cuts'][why[:160]] = res['cuts'].get(why[:160], 0) + 1
            st.unreproduced += 1
            return fallback(p, inputs)
        if outcome == 'cut':
            st.cut += 1
            why = str(p.aborted)[:160]
            res['cuts'][why] = res['cuts'].get(why, 0) + 1
            p.aborted = None
            return fallback(p, None)
        # a complete path: its model replayed on the unmodified code must agree
        try:
            m = p.cur_model()
        except core.SxControl:
            return False
        inputs = p.input_values(m)
        core.CTX = p
        try:
            sym = [(k, concretize(v, m)) for k, v in h.notes]
        except Exception as e:
            sym = None
        s, d, ch = concrete(inputs)
        if s in ('violation', 'hang'):
            report(inputs, d)
            return True
        if s == 'ok':
            con = [(k, v) for k, v in ch.notes]
            if sym is not None and len(sym) == len(con) and all(
                    a[0] == b[0] and same_note(a[1], b[1]) for a, b in zip(sym, con)):
                st.validated += 1
            else:
                st.mismatch += 1
                if os.environ.get('SX_DEBUG'):
                    for a, b in zip(sym or [], con):
                        if not (a[0] == b[0] and same_note(a[1], b[1])):
                            print('MISMATCH', case, inputs, a, b)
                    if sym is None or len(sym) != len(con):
                        print('MISMATCH len', case, inputs)
        else:
            st.mismatch += 1
            if os.environ.get('SX_DEBUG'):
                print('MISMATCH infeasible', case, inputs, d)
        if not res['samples'] or len(p.decisions) > res['samples'][0]['decisions']:
            res['samples'] = [{'case': case.get('name', idx), 'inputs': dict(list(inputs.items())[:40]),
                               'decisions': len(p.decisions), 'observed': repr(ch.notes)[:300]}]
        return False

    def fallback(p, first):
        "the path left the executor's reach: run models of its condition on the real code"
        n = 0
        seen = []
        try:
            p.solver.set('timeout', 3000)
            while n < opts.get('fallback', 6):
                if p.solver.check() != z3.sat:
                    break
                m = p.solver.model()
                inputs = p.input_values(m)
                st.fallback_runs += 1
                n += 1
                s, d, ch = concrete(inputs)
                if s in ('violation', 'hang'):
                    report(inputs, d)
                    return True
                vs = [v for v, lo, hi, den in p.inputs.values()]
                if not vs:
                    break
                p.solver.add(z3.Or([v != m.eval(v, model_completion=True) for v in vs[:40]]))
        except z3.Z3Exception:
            pass
        return False

    try:
        ok = ex.run(fn, on_path)
    except Exception as e:
        res['error'] = traceback.format_exc()
        ok = False
    st.reach = res['reach']
    res['stats'] = st
    res['complete'] = bool(ok) and not st.cut and not st.unreproduced and ex.complete
    res['inconclusive'] = ex.inconclusive[:10]
    res['cut_reasons'] = dict(st.cut_reasons)
    res['name'] = case.get('name', str(idx))
    res['wall'] = time.time() - t0
    res['index'] = idx
    return res


def replay_subprocess(path, file):
    env = dict(os.environ)
    r = subprocess.run([sys.executable, os.path.join(VERIF, 'run.py'), '--replay', file], env=env,
                       capture_output=True, text=True, timeout=120)
    return r.returncode == 1, r.stdout + r.stderr


def do_replay(file):
    "stand-alone replay: ordinary imports of the code in the repository, concrete inputs"
    harness.install()
    data = json.load(open(file))
    path = os.path.join(VERIF, data['check'])
    pm = plain_module(path)
    s, d, h = run_concrete(pm.run, data['case'], data['inputs'], data['tier'], world=harness.ImportWorld(), limit=60)
    print("replay of %s: %s %s" % (data['property'], s, d))
    print("case: %s" % json.dumps(data['case']))
    print("inputs: %s" % json.dumps(data['inputs']))
    return 1 if s in ('violation', 'hang') else 0


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get('findings', [])


def main(prop, tier, seed, budget, only=None, verbose=False, jobs=8):
    t0 = time.time()
    path = check_path(prop)
    pm = plain_module(path)
    cases = pm.cases(tier)
    idxs = [i for i, c in enumerate(cases) if only is None or only in c.get('name', '')]
    deadline = t0 + budget
    opts = {'cross': 25 if tier == 'thorough' else 0, 'fallback': 6 if tier == 'quick' else 20}
    order = sorted(idxs, key=lambda i: -cases[i].get('weight', 1))
    total = Stats()
    results = []
    violation = None
    errors = []
    ctx = mp.get_context('fork')
    with ctx.Pool(jobs, initializer=_quiet, maxtasksperchild=40) as pool:
        it = pool.imap_unordered(run_case, [(path, i, tier, seed, deadline, opts) for i in order], chunksize=1)
        for r in it:
            results.append(r)
            total.merge(r['stats'])
            if verbose:
                s = r['stats']
                print("  %-40s paths=%d obl=%d/%d q=%d solver=%.1fs val=%d mism=%d cut=%d unrep=%d %s %.1fs" % (
                    r['name'], s.paths, s.discharged, s.obligations, s.queries, s.solver_s, s.validated, s.mismatch,
                    s.cut, s.unreproduced, 'complete' if r['complete'] else 'INCOMPLETE', r['wall']))
                for k, v in r['cuts'].items():
                    print("      cut x%d: %s" % (v, k))
                for u in r['unrepro']:
                    print("      unreproduced:", u)
                if r['inconclusive']:
                    print("      inconclusive:", r['inconclusive'])
                if r.get('error'):
                    print(r['error'])
            if r.get('error'):
                errors.append(r['error'])
            if r['violation'] and violation is None:
                v = r['violation']
                data = {'property': prop, 'check': os.path.relpath(path, VERIF), 'tier': tier, 'case': v['case'],
                        'inputs': v['inputs'], 'label': v['label']}
                blob = json.dumps(data, indent=1, sort_keys=True)
                fdir = os.path.join(EVIDENCE, 'replay')
                os.makedirs(fdir, exist_ok=True)
                f = os.path.join(fdir, '%s_%s.json' % (prop, hashlib.sha1(blob.encode()).hexdigest()[:10]))
                open(f, 'w').write(blob)
                ok, text = replay_subprocess(path, f)
                if ok:
                    violation = (f, v)
                    pool.terminate()
                    break
                errors.append("violation seen in-process but not in the stand-alone replay: " + text)
    wall = time.time() - t0
    expected = pm.reach(tier) if hasattr(pm, 'reach') else []
    reach = total.reach
    missing = [r for r in expected if not reach.get(r)] if only is None else []
    reasons = {}
    for r in results:
        for k, v in r['cuts'].items():
            reasons[k] = reasons.get(k, 0) + v
    complete = all(r['complete'] for r in results) and not errors and violation is None
    samples = []
    for r in results:
        samples.extend(r['samples'][:1])
    cov = {
        'states': total.paths,
        'transitions': total.decisions + total.paths,
        'traces_validated_against_impl': total.validated,
        'samples': samples[::max(1, len(samples) // 12)][:12],
        'functions_encoded': sorted(total.functions),
        'functions_encoded_count': len(total.functions),
        'bounds': pm.BOUNDS if isinstance(pm.BOUNDS, str) else pm.BOUNDS[tier],
        'outside': getattr(pm, 'OUTSIDE', ''),
        'cases': len(results),
        'cases_complete': sum(1 for r in results if r['complete']),
        'obligations': total.obligations,
        'discharged': total.discharged,
        'discharged_without_solver': total.trivial,
        'solver_queries': total.queries,
        'solver_seconds': round(total.solver_s, 2),
        'solver_unknown': total.unknown,
        'solver': 'z3 %s' % z3.get_version_string(),
        'cvc5_rechecked': total.cvc5,
        'cvc5_disagreements': total.cvc5_disagree,
        'paths_infeasible': total.infeasible,
        'paths_cut': total.cut,
        'cut_reasons': dict(list(reasons.items())[:20]),
        'fallback_concrete_runs': total.fallback_runs,
        'counterexamples_not_reproduced': total.unreproduced,
        'unreproduced_samples': [u for r in results for u in r['unrepro']][:5],
        'engine_mismatches': total.mismatch,
        'inconclusive': [x for r in results for x in r['inconclusive']][:20],
        'reachability_witnesses': reach,
        'reachability_missing': missing,
        'exhaustive_within_bounds': complete,
        'explanation': 'Every feasible path of the harness over the real code was executed symbolically; at each '
                       'obligation the solver decided path-condition AND NOT obligation.',
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': list(getattr(pm, 'ASSUMPTIONS', [])) + [
              'the stubs are: clock, sleep, random, print, file system (virtual files)'],
          'wall_s': round(wall, 2), 'violations': 1 if violation else 0}
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    for kf in known_findings():
        if kf.get('property') == prop and kf.get('status') == 'open':
            print("KNOWN-FINDING: property=%s %s" % (prop, kf['what']))
    print("%s %s: cases=%d paths=%d obligations=%d/%d queries=%d solver=%.1fs validated=%d mismatch=%d cut=%d "
          "unreproduced=%d unknown=%d %s %.1fs" % (
              prop, tier, len(results), total.paths, total.discharged, total.obligations, total.queries, total.solver_s,
              total.validated, total.mismatch, total.cut, total.unreproduced, total.unknown,
              'complete' if complete else 'INCOMPLETE', wall))
    for k, v in list(reasons.items())[:6]:
        print("  cut x%d: %s" % (v, k))
    if violation:
        f, v = violation
        print("violated: %s" % v['label'])
        print("case: %s" % json.dumps(v['case']))
        print("inputs: %s" % json.dumps(v['inputs']))
        print("VIOLATION property=%s replay=%s" % (prop, f))
        return 1
    if errors:
        for e in errors[:3]:
            print("ERROR: " + e[-1500:])
    if missing:
        print("reachability witnesses missing: %s" % missing)
    if total.obligations == 0 and total.cut == 0:
        print("vacuous run")
        return 3
    if os.environ.get('SX_STRICT') and (errors or missing or not complete or total.mismatch):
        return 4
    return 0
