"""Path exploration: re-execution based symbolic execution with Z3 deciding every branch.

A *path* is one deterministic execution of a harness.  Every choice that depends on a symbolic
value is a *decision*; a path is identified by the list of its decisions.  Unexplored, feasible
alternatives are kept on a work list and executed later by replaying the prefix.
"""
from __future__ import annotations

import random
import signal
import time

import z3

z3.set_param("model.completion", False)


class EngineControl(BaseException):
    """Base of everything the engine raises to steer paths (never caught by `except Exception`)."""


class PathEnd(EngineControl):
    """The path is over: assumption false, or nothing left to explore on it."""


class PathIncomplete(EngineControl):
    """The path was cut: a limit was hit, or something could not be encoded."""

    def __init__(self, why):
        super().__init__(why)
        self.why = why


class NonTermination(EngineControl):
    """A path exceeded its step or time budget."""


class CheckFailed(EngineControl):
    def __init__(self, message, model):
        super().__init__(message)
        self.message = message
        self.model = model


CUR = None  # the engine of the path being executed (None outside)


def engine():
    return CUR


class Stats:
    FIELDS = ("paths", "decisions", "forks", "queries", "obligations", "discharged", "trivial",
              "incomplete", "unknown", "concretised", "assumed_away")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.reasons = {}
        self.covers = {}

    def why(self, reason):
        self.reasons[reason] = self.reasons.get(reason, 0) + 1

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d["solver_s"] = self.solver_s
        d["reasons"] = self.reasons
        d["covers"] = self.covers
        return d


TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


class Engine:
    def __init__(self, deadline, max_steps=60000, max_decisions=3000, query_ms=20000, path_s=60.0,
                 max_paths=100000, seed=1):
        self.deadline = deadline
        self.max_steps = max_steps
        self.max_decisions = max_decisions
        self.query_ms = query_ms
        self.path_s = path_s
        self.max_paths = max_paths
        self.seed = seed
        self.stats = Stats()

    # -- per path state -------------------------------------------------------------------
    def _begin(self, prefix, model):
        self.prefix = prefix
        self.trace = []
        self.model = model
        self.solver = z3.Solver()
        self.solver.set("timeout", self.query_ms)
        self.solver.set("random_seed", self.seed)
        self.steps = 0
        self.path_incomplete = False
        self.inputs = {}      # name -> descriptor of the symbolic input
        self.choices = {}     # name -> option index
        self.observed = []
        self.known = {}       # see sym.denotes
        self.constraints = 0

    def step(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise NonTermination(f"more than {self.max_steps} calls on one path")

    # -- solving --------------------------------------------------------------------------
    def _check(self, *extra):
        self.stats.queries += 1
        t = time.perf_counter()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.perf_counter() - t
        return r

    def _get_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self.solver.model()
            elif r == z3.unsat:
                raise PathEnd()
            else:
                self.stats.unknown += 1
                raise PathIncomplete("solver unknown while looking for a path model")
        return self.model

    def eval(self, term):
        return self._get_model().eval(term, model_completion=True)

    def _record(self, entry):
        self.trace.append(entry)
        if len(self.trace) > self.max_decisions:
            raise NonTermination(f"more than {self.max_decisions} decisions on one path")

    def _next_recorded(self):
        i = len(self.trace)
        if i < len(self.prefix):
            return self.prefix[i]
        return None

    def _push(self, entry, model):
        self.stats.forks += 1
        self.work.append((self.trace + [entry], model))

    # A decision entry is (kind, taken, forced, payload)
    def decide(self, cond):
        """Branch on a z3 boolean; returns the side taken on this path."""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        rec = self._next_recorded()
        if rec is not None:
            _, taken, forced, _ = rec
            self._record(rec)
            if not forced:
                self.solver.add(cond if taken else z3.Not(cond))
            return taken
        self.stats.decisions += 1
        val = self.eval(cond)
        if z3.is_true(val) or z3.is_false(val):
            taken = z3.is_true(val)
        else:  # the model does not decide the condition: ask the solver
            r = self._check(cond)
            taken = r == z3.sat
            if taken:
                self.model = self.solver.model()
            elif r == z3.unknown:
                self.stats.unknown += 1
                raise PathIncomplete("solver unknown on a branch")
        mine, other = (cond, z3.Not(cond)) if taken else (z3.Not(cond), cond)
        r = self._check(other)
        if r == z3.sat:
            self._push(("b", not taken, False, None), self.solver.model())
            self._record(("b", taken, False, None))
            self.solver.add(mine)
        elif r == z3.unsat:
            self._record(("b", taken, True, None))
        else:
            self.stats.unknown += 1
            self.path_incomplete = True
            self.stats.why("solver unknown on a branch alternative")
            self._record(("b", taken, False, None))
            self.solver.add(mine)
        return taken

    def choose(self, n):
        """An unconstrained choice among n options (all are explored)."""
        rec = self._next_recorded()
        if rec is not None:
            self._record(rec)
            return rec[1]
        if n <= 0:
            raise PathEnd()
        self.stats.decisions += 1
        for k in range(n - 1, 0, -1):
            self._push(("c", k, False, None), self.model)
        self._record(("c", 0, False, None))
        return 0

    def pick_value(self, term, to_py, mk_eq, limit, what):
        """Make `term` concrete on this path, exploring every other feasible value elsewhere.

        Complete when there are at most `limit` feasible values; otherwise the rest is cut and
        the path is marked incomplete.
        """
        n = 0
        while True:
            rec = self._next_recorded()
            if rec is not None:
                _, taken, forced, v = rec
                self._record(rec)
                if not forced:
                    eq = mk_eq(v)
                    self.solver.add(eq if taken else z3.Not(eq))
                if taken:
                    return v
                n += 1
                continue
            self.stats.decisions += 1
            v = to_py(self.eval(term) if term is not None else self._get_model())
            eq = mk_eq(v)
            r = self._check(z3.Not(eq))
            if r == z3.unsat:
                self._record(("v", True, True, v))
                return v
            if r == z3.sat:
                if n + 1 < limit:
                    self._push(("v", False, False, v), self.solver.model())
                else:
                    self.note_incomplete(f"concretised {what}")
                    self.stats.concretised += 1
            else:
                self.stats.unknown += 1
                self.note_incomplete("solver unknown while concretising")
            self._record(("v", True, False, v))
            self.solver.add(eq)
            return v

    def note_incomplete(self, why):
        self.path_incomplete = True
        self.stats.why(why)

    def assume(self, cond):
        """Restrict the path; not retroactive."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathEnd()
        self.solver.add(cond)
        if len(self.trace) < len(self.prefix):
            return  # the stored model satisfies it already
        if self.model is not None and z3.is_true(self.model.eval(cond, model_completion=True)):
            return
        self.model = None
        r = self._check()
        if r == z3.sat:
            self.model = self.solver.model()
        elif r == z3.unsat:
            raise PathEnd()
        else:
            self.stats.unknown += 1
            raise PathIncomplete("solver unknown on an assumption")

    def check(self, cond, message):
        """Obligation: `cond` holds for every value on this path."""
        self.stats.obligations += 1
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            self.stats.discharged += 1
            self.stats.trivial += 1
            return
        if len(self.trace) < len(self.prefix):
            # Already decided by the run this prefix was forked from (same path condition so far
            # is weaker there, so the verdict covers this path too).
            self.stats.discharged += 1
            return
        r = self._check(z3.Not(cond))
        if r == z3.unsat:
            self.stats.discharged += 1
        elif r == z3.sat:
            raise CheckFailed(message, self.solver.model())
        else:
            self.stats.unknown += 1
            m = self._guess(cond)
            if m is not None:
                raise CheckFailed(message, m)
            self.note_incomplete("solver unknown on an obligation")

    def _guess(self, cond, seconds=4.0):
        """After `unknown`: a model of the path condition that falsifies cond, if one turns up.

        Assignments are tried at random and confirmed by the solver; nothing is concluded when
        none is found.
        """
        todo, seen, vs = [cond] + list(self.solver.assertions()), set(), {}
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                vs[x.decl().name()] = x
            todo.extend(x.children())
        bvs = [v for v in vs.values() if z3.is_bv(v)]
        if not bvs:
            return None
        base = self._get_model()
        pre = z3.And(*self.solver.assertions(), z3.Not(cond))
        rng = random.Random(self.seed)
        end = time.monotonic() + seconds
        while time.monotonic() < end:
            sub = []
            for v in bvs:
                w = v.size()
                if rng.random() < 0.5:
                    x = rng.getrandbits(rng.randint(1, w))
                    if rng.random() < 0.3:
                        x = -x
                    sub.append((v, z3.BitVecVal(x, w)))
                else:
                    sub.append((v, base.eval(v, model_completion=True)))
            for v in vs.values():
                if z3.is_bool(v):
                    sub.append((v, base.eval(v, model_completion=True)))
            if z3.is_true(z3.simplify(z3.substitute(pre, *sub))):
                if self._check(z3.Not(cond), *[v == x for v, x in sub]) == z3.sat:
                    return self.solver.model()
        return None

    # -- exploration ----------------------------------------------------------------------
    def explore(self, fn, on_path):
        """Run `fn()` on every path; `on_path(engine, outcome, payload)` after each.

        outcome: 'ok' | 'violation' | 'exception' | 'hang'.  Returns True if the exploration
        was complete.
        """
        global CUR
        self.work = [([], None)]
        complete = True
        while self.work:
            now = time.monotonic()
            if now > self.deadline or self.stats.paths >= self.max_paths:
                complete = False
                self.stats.why("time or path budget exhausted")
                break
            prefix, model = self.work.pop()
            self._begin(prefix, model)
            CUR = self
            outcome, payload = "ok", None
            limit = min(self.path_s, max(1.0, self.deadline - now + 5))
            timer = _PathTimer(limit)
            try:
                timer.start()
                try:
                    fn()
                finally:
                    timer.stop()
            except PathEnd:
                outcome = "end"
                self.stats.assumed_away += 1
            except CheckFailed as e:
                outcome, payload = "violation", e
            except NonTermination as e:
                outcome, payload = "hang", e
            except PathIncomplete as e:
                outcome = "cut"
                self.note_incomplete(e.why)
            except z3.Z3Exception as e:
                outcome = "cut"
                self.note_incomplete("z3 error: %s" % str(e)[:80])
            except RecursionError as e:
                outcome, payload = "exception", e
            except Exception as e:  # noqa: BLE001 -- unexpected exception out of the harness
                outcome, payload = "exception", e
            finally:
                CUR = None
            if outcome != "end":
                self.stats.paths += 1
            if self.path_incomplete:
                self.stats.incomplete += 1
                complete = False
            if outcome in ("ok", "violation", "exception", "hang", "cut"):
                CUR = self
                try:
                    stop = on_path(self, outcome, payload)
                except EngineControl:
                    stop = False
                finally:
                    CUR = None
                if stop:
                    return False
        return complete and not self.work

    def input_values(self, model=None):
        """Concrete values of the inputs (JSON-able) under a model of the path condition."""
        m = model if model is not None else self._get_model()
        return {name: d.concrete(m) for name, d in self.inputs.items()}


class _PathTimer:
    def __init__(self, seconds):
        self.seconds = seconds

    def start(self):
        def handler(_s, _f):
            raise NonTermination(f"path ran longer than {self.seconds:.0f} s")
        try:
            self.old = signal.signal(signal.SIGALRM, handler)
            signal.setitimer(signal.ITIMER_REAL, self.seconds)
        except ValueError:
            self.old = None

    def stop(self):
        if self.old is not None:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, self.old)
