"""Depth-first exploration of all feasible paths of a harness by re-execution."""
import os
import time as _time

import z3

from . import core
from .core import SymBool, SymFloat, SymInt, Infeasible, PathLimit, SxControl, Unsupported

_pc = _time.perf_counter


class Limits:
    def __init__(self, max_paths=4000, query_ms=20000, max_realize=400, max_decisions=6000, wall_s=600,
                 unwind=4000):
        self.max_paths = max_paths
        self.query_ms = query_ms
        self.max_realize = max_realize
        self.max_decisions = max_decisions
        self.wall_s = wall_s
        self.unwind = unwind


class Stats:
    def __init__(self):
        self.paths = 0
        self.decisions = 0
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.obligations = 0
        self.discharged = 0
        self.trivial = 0
        self.validated = 0
        self.mismatch = 0
        self.cut = 0
        self.infeasible = 0
        self.fallback_runs = 0
        self.reach = {}
        self.functions = set()
        self.cut_reasons = {}
        self.unreproduced = 0
        self.cvc5 = 0
        self.cvc5_disagree = 0

    def merge(self, o):
        for k, v in o.__dict__.items():
            cur = getattr(self, k)
            if isinstance(v, set):
                cur |= v
            elif isinstance(v, dict):
                for a, b in v.items():
                    cur[a] = cur.get(a, 0) + b
            else:
                setattr(self, k, cur + v)


class Path:
    """One execution: replays `prefix` of decisions, then follows the model."""

    def __init__(self, expl, prefix, model):
        self.expl = expl
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.model = model
        self.solver = z3.Solver()
        self.solver.set('timeout', expl.limits.query_ms)
        self.tokens = []
        self.fties = {}
        self.tokmemo = {}
        self.sharp = False
        self.umemo = {}
        self.modmemo = {}
        self.divmemo = {}
        self.inputs = {}       # name -> (z3 var, lo, hi, den)
        self.order = []
        self.aborted = None
        self.nfresh = 0
        self.notes = []
        self.cex = []          # (label, model inputs)
        self.loops = {}
        self.pending = []      # obligations labels
        self.ndec = 0

    # -- solver
    def _check(self, *extra):
        st = self.expl.stats
        st.queries += 1
        t = _pc()
        r = self.solver.check(*extra)
        st.solver_s += _pc() - t
        if r == z3.unknown:
            st.unknown += 1
        return r

    def add(self, e):
        self.solver.add(e)

    def cur_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self.solver.model()
            elif r == z3.unsat:
                raise Infeasible()
            else:
                self.stop("solver: no model within the time limit")
        return self.model

    def stop(self, why):
        if self.aborted is None:
            self.aborted = why
        raise PathLimit(why)

    def guard(self):
        if self.aborted is not None:
            raise PathLimit(self.aborted)

    def eval_bool(self, e):
        v = self.cur_model().eval(e, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    # -- decisions
    def fork(self, e):
        self.guard()
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        self.ndec += 1
        if self.ndec > self.expl.limits.max_decisions:
            self.stop("bound: decisions on one path")
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
            self.add(e if d else z3.Not(e))
            if self.pos == len(self.prefix):
                self.model = self.expl.start_model
            return d
        side = self.eval_bool(e)
        if side is None:
            self.model = None
            side = self.eval_bool(e)
            if side is None:
                self.stop("solver: model evaluation")
        other = z3.Not(e) if side else e
        self.expl.stats.decisions += 1
        r = self._check(other)
        if r != z3.unsat:
            self.expl.push(self.decisions + [not side], self.solver.model() if r == z3.sat else None)
        self.decisions.append(side)
        self.add(e if side else z3.Not(e))
        return side

    def realize(self, x):
        self.guard()
        s = z3.simplify(x.e)
        if z3.is_int_value(s):
            return s.as_long()
        n = 0
        while True:
            if self.pos < len(self.prefix):
                # replay: decisions at realise sites carry the tried value
                d = self.prefix[self.pos]
                self.pos += 1
                self.decisions.append(d)
                val, hit = d
                self.add(x.e == val if hit else x.e != val)
                if self.pos == len(self.prefix):
                    self.model = self.expl.start_model
                if hit:
                    return val
                n += 1
                continue
            n += 1
            if n > self.expl.limits.max_realize:
                self.stop("bound: values enumerated at one point")
            v = self.cur_model().eval(x.e, model_completion=True)
            if not z3.is_int_value(v):
                self.stop("solver: model evaluation")
            val = v.as_long()
            self.expl.stats.decisions += 1
            r = self._check(x.e != val)
            if r != z3.unsat:
                self.expl.push(self.decisions + [(val, False)], self.solver.model() if r == z3.sat else None)
            self.decisions.append((val, True))
            self.add(x.e == val)
            return val

    def assume(self, c):
        self.guard()
        if isinstance(c, SymInt):
            c = c != 0
        if not isinstance(c, SymBool):
            if not c:
                raise Infeasible()
            return
        e = c.e
        self.add(e)
        if self.pos >= len(self.prefix):
            if self.model is None or self.eval_bool(e) is not True:
                self.model = None
                self.cur_model()

    # -- values
    def fresh_int(self, name, lo, hi):
        self.nfresh += 1
        v = z3.Int('%s!%d' % (name, self.nfresh))
        if lo is not None:
            self.add(v >= lo)
        if hi is not None:
            self.add(v <= hi)
        if self.pos >= len(self.prefix):
            self.model = None
        return SymInt(v, lo, hi)

    def fresh_bool(self, name):
        self.nfresh += 1
        return bool(SymBool(z3.Bool('%s!%d' % (name, self.nfresh))))

    def fresh_choice(self, name, n):
        k = self.fresh_int(name, 0, n - 1)
        return self.realize(k)

    def input(self, name, lo, hi, den=None):
        if name in self.inputs:
            raise RuntimeError("duplicate input " + name)
        v = z3.Int(name)
        if lo is not None:
            self.add(v >= lo)
        if hi is not None:
            self.add(v <= hi)
        self.inputs[name] = (v, lo, hi, den)
        if self.pos >= len(self.prefix):
            self.model = None
        if lo is not None and lo == hi:
            return lo
        return SymInt(v, lo, hi)

    def unique(self, e):
        "the only value e can have on this path, when the check asked for sharp text"
        if not self.sharp:
            return None
        key = ('u', e.get_id(), len(self.decisions), self.pos)
        if key in self.umemo:
            return self.umemo[key][1]
        m = None
        if self._check() == z3.sat:
            m = self.solver.model().eval(e, model_completion=True)
            m = m.as_long() if z3.is_int_value(m) and self._check(e != m) == z3.unsat else None
        self.umemo[key] = (e, m)
        return m

    def token(self, kind, val, spec):
        self.guard()
        key = None
        if isinstance(val, SymInt):
            key = (kind, val.e.get_id(), spec) if type(val) is not core.CalInt else \
                (kind, val.cal[0].e.get_id(), val.cal[1], spec)
        elif isinstance(val, core.SymFloat) and isinstance(val.num, SymInt):
            key = (kind, val.num.e.get_id(), val.den, val.off, val.err, val.nround, spec)
        if key is not None:
            t = self.tokmemo.get(key)
            if t is not None:
                return core.tok_text(t.id)
        if kind == 'd' and isinstance(val, int):
            return '%0*d' % (spec or 1, val)
        t = core.Token(kind, val, spec, len(self.tokens))
        if t.id >= 10 ** core.TOKW:
            self.stop("bound: text tokens")
        self.tokens.append(t)
        if key is not None:
            self.tokmemo[key] = t
        return core.tok_text(t.id)

    def loop(self, key):
        self.guard()
        n = self.loops.get(key, 0) + 1
        self.loops[key] = n
        if n > self.expl.limits.unwind:
            self.stop("bound: loop unwinding at %s" % (key,))

    # -- obligations
    def check(self, c, label):
        self.guard()
        st = self.expl.stats
        replaying = self.pos < len(self.prefix)
        if isinstance(c, (SymInt, SymFloat)):
            c = c != 0
        if not isinstance(c, SymBool):
            if c:
                if not replaying:
                    st.obligations += 1
                    st.discharged += 1
                    st.trivial += 1
                return True
            if replaying:
                # the failing obligation is met again below a later decision only if execution went on
                raise Infeasible()
            st.obligations += 1
            m = self.cur_model()
            self.cex.append((label, self.input_values(m)))
            raise Infeasible()
        if replaying:
            self.add(c.e)
            return True
        st.obligations += 1
        ne = z3.simplify(z3.Not(c.e))
        if z3.is_false(ne):
            st.discharged += 1
            st.trivial += 1
            return True
        r = self._check(ne)
        if r == z3.unsat:
            st.discharged += 1
            if self.expl.crosscheck is not None:
                self.expl.crosscheck(self.solver, ne, st)
        elif r == z3.sat:
            m = self.solver.model()
            self.cex.append((label, self.input_values(m)))
        else:
            v = self.expl.second_opinion(self.solver, ne, st) if self.expl.second_opinion else None
            if v == 'unsat':
                st.discharged += 1
            else:
                self.expl.inconclusive.append(label)
        self.add(c.e)
        if self.model is None or self.eval_bool(c.e) is not True:
            self.model = None
            self.cur_model()
        return True

    def input_values(self, m):
        out = {}
        for n, (v, lo, hi, den) in self.inputs.items():
            x = m.eval(v, model_completion=True)
            val = x.as_long() if z3.is_int_value(x) else 0
            if lo is not None and val < lo:
                val = lo
            if hi is not None and val > hi:
                val = hi
            out[n] = val
        return out


class Explorer:
    """run(path_fn): path_fn(path) executes the harness once on the given Path."""

    def __init__(self, limits=None, crosscheck=None, second_opinion=None):
        self.limits = limits or Limits()
        self.stats = Stats()
        self.work = []
        self.start_model = None
        self.inconclusive = []
        self.cut_inputs = []
        self.complete = True
        self.crosscheck = crosscheck
        self.second_opinion = second_opinion

    def push(self, prefix, model):
        self.work.append((prefix, model))

    def run(self, fn, on_path, deadline=None):
        """fn(path): execute. on_path(path, outcome) with outcome in ok|infeasible|cut|exc."""
        t0 = _pc()
        self.work = [([], None)]
        while self.work:
            if self.stats.paths >= self.limits.max_paths or _pc() - t0 > self.limits.wall_s:
                self.complete = False
                self.stats.cut_reasons["bound: paths or wall clock"] = len(self.work)
                break
            prefix, model = self.work.pop()
            self.start_model = model
            p = Path(self, prefix, None)
            self.stats.paths += 1
            core.CTX = p
            exc = None
            try:
                fn(p)
                outcome = 'ok'
            except Infeasible:
                outcome = 'infeasible'
            except (Unsupported, PathLimit) as e:
                outcome = 'cut'
                if p.aborted is None:
                    p.aborted = str(e)
            except SxControl:
                raise
            except RecursionError as e:
                outcome = 'cut'
                p.aborted = 'recursion'
            except Exception as e:
                outcome = 'exc'
                exc = e
            if p.aborted is not None:
                outcome = 'cut'
            try:
                stop = on_path(p, outcome, exc)
            finally:
                core.CTX = None
            if stop:
                return False
        return self.complete and not self.inconclusive
