"""Path exploration: re-execution along a trail of decisions, one incremental z3 solver."""
import sys
import time

import z3


def _unlimited(f):
    """z3 exchanges numbers as decimal text; the interpreter's limit on that is for the code
    under test, not for the engine"""

    def g(*a, **k):
        lim = sys.get_int_max_str_digits()
        if not lim:
            return f(*a, **k)
        sys.set_int_max_str_digits(0)
        try:
            return f(*a, **k)
        finally:
            sys.set_int_max_str_digits(lim)

    return g


def _plain_str(val, real=z3.z3._to_int_str, slow=_unlimited(z3.z3._to_int_str)):
    return slow(val) if type(val) is int and val.bit_length() > 10000 else real(val)


z3.z3._to_int_str = _plain_str
z3.BitVecNumRef.as_long = (
    lambda self, real=z3.BitVecNumRef.as_long, slow=_unlimited(z3.BitVecNumRef.as_long):
    slow(self) if self.size() > 10000 else real(self))

class SxControl(BaseException):
    """Engine control flow; never caught by `except Exception` in the code under test."""


class PathCut(SxControl):
    """Path abandoned: outside the stated bound or not decidable by the engine."""

    def __init__(self, why):
        super().__init__(why)
        self.why = why


class PathInfeasible(SxControl):
    """An assumption is unsatisfiable on this path."""


class PathViolation(SxControl):
    """A check failed on this path (model recorded by the engine)."""


class Diverged(SxControl):
    """Re-execution did not follow the recorded trail (hidden state in the code under test)."""


class Budget(SxControl):
    """Time budget of the case exhausted."""


ENGINE = None


def engine():
    return ENGINE


def set_engine(e):
    global ENGINE
    ENGINE = e


_TRUE, _FALSE = "T", "F"


class _Entry:
    __slots__ = ("cond", "taken", "pending", "pushed", "value", "kind", "alt")

    def __init__(self, kind, cond, taken, pending, pushed, value=None):
        self.kind = kind
        self.cond = cond
        self.taken = taken
        self.pending = pending
        self.pushed = pushed
        self.value = value
        self.alt = None


class Engine:
    def __init__(self, query_timeout_ms=30000, max_paths=200000, deadline=None,
                 conc_limit=80, max_iter=5000):
        self.query_timeout_ms = query_timeout_ms
        self.solver = z3.Solver()
        self.solver.set("timeout", query_timeout_ms)
        self.trail = []
        self.idx = 0
        self.max_paths = max_paths
        self.deadline = deadline
        self.conc_limit = conc_limit
        self.max_iter = max_iter
        self.stats = dict(paths=0, completed=0, infeasible=0, cut=0, decisions=0, forks=0,
                          queries=0, sat=0, unsat=0, unknown=0, checks=0, checks_solver=0,
                          discharged=0, solver_s=0.0, concretised=0, validated=0)
        self.cuts = {}
        self.conc_sites = {}
        self.violations = []
        self.inconclusive = []
        self.covers = {}
        self.model = None
        self.inputs = {}
        self.known = {}
        self.bounds = {}
        self.cpset = {}
        self.bytecp = {}
        self.soft = []
        self.keep = []
        self.notes = {}
        self.in_path = False
        self.nfresh = 0

    # -- solver ---------------------------------------------------------------
    def _check(self, *assumptions):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget("time budget")
        t0 = time.time()
        if self.deadline is not None:
            left = max(100, int((self.deadline - t0) * 1000))
            self.solver.set("timeout", min(self.query_timeout_ms, left))
        r = self.solver.check(*assumptions)
        self.stats["solver_s"] += time.time() - t0
        self.stats["queries"] += 1
        self.stats[str(r)] += 1
        if r == z3.sat:
            self.model = self.solver.model()
        return r

    def feasible_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise PathInfeasible()
            if r != z3.sat:
                raise PathCut("solver unknown on path condition")
        return self.model

    def _holds_in_model(self, cond):
        if self.model is None:
            return None
        v = self.model.eval(cond, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    # -- trail ----------------------------------------------------------------
    def _record(self, entry, constraint=None):
        if constraint is not None:
            self.solver.push()
            self.solver.add(constraint)
            entry.pushed = True
        self.trail.append(entry)
        self.idx = len(self.trail)

    def _same(self, a, b):
        if a.eq(b):
            return True
        if a.sort() != b.sort():
            return False
        s = z3.Solver()
        s.set("timeout", 5000)
        s.add(a != b)
        return s.check() == z3.unsat

    def decide(self, cond):
        """Truth value of a z3 Bool on the current path; forks when both are feasible."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        cid = cond.get_id()
        k = self.known.get(cid)
        if k is not None:
            return k
        if z3.is_not(cond):
            k = self.known.get(cond.arg(0).get_id())
            if k is not None:
                return not k
        self.keep.append(cond)
        if self.idx < len(self.trail):
            e = self.trail[self.idx]
            if e.kind != "d" or not self._same(e.cond, cond):
                raise Diverged("decision differs from the recorded trail")
            self.idx += 1
            self.known[cid] = e.taken
            return e.taken
        self.stats["decisions"] += 1
        neg = z3.Not(cond)
        inm = self._holds_in_model(cond)
        can_t = can_f = None
        if inm is True:
            can_t = True
        elif inm is False:
            can_f = True
        saved = self.model
        if can_t is None:
            r = self._check(cond)
            can_t = r != z3.unsat
            model_t = self.model if r == z3.sat else None
        else:
            model_t = saved
        if can_f is None:
            if not can_t:
                can_f = True
                model_f = None
            else:
                r = self._check(neg)
                can_f = r != z3.unsat
                model_f = self.model if r == z3.sat else None
        else:
            model_f = saved
        if can_t and can_f:
            self.stats["forks"] += 1
            self.model = model_t
            e = _Entry("d", cond, True, True, False)
            e.alt = model_f
            self._record(e, cond)
            taken = True
        else:
            taken = bool(can_t)
            self.model = model_t if taken else model_f
            self._record(_Entry("d", cond, taken, False, False), None)
        self.known[cid] = taken
        return taken

    def entails(self, cond):
        """True if the path condition implies cond (recorded on the trail for re-execution)."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = self.known.get(cond.get_id())
        if k is not None:
            return k
        if self.idx < len(self.trail):
            e = self.trail[self.idx]
            if e.kind != "e" or not self._same(e.cond, cond):
                raise Diverged("entailment query differs from the recorded trail")
            self.idx += 1
            return e.taken
        saved = self.model
        if self._holds_in_model(cond) is False:
            ok = False
        else:
            ok = self._check(z3.Not(cond)) == z3.unsat
            self.model = saved
        self._record(_Entry("e", cond, ok, False, False), None)
        return ok

    def fresh(self, stem):
        self.nfresh += 1
        return "!%s%d" % (stem, self.nfresh)

    def assume(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathInfeasible()
        self.keep.append(cond)
        if self.idx < len(self.trail):
            e = self.trail[self.idx]
            if e.kind != "a" or not self._same(e.cond, cond):
                raise Diverged("assumption differs from the recorded trail")
            self.idx += 1
            if e.taken is False:
                raise PathInfeasible()
            self.known[cond.get_id()] = True
            return
        ok = self._holds_in_model(cond)
        e = _Entry("a", cond, True, False, False)
        self._record(e, cond)
        if ok is not True:
            self.model = None
            r = self._check()
            if r == z3.unsat:
                e.taken = False
                raise PathInfeasible()
        self.known[cond.get_id()] = True

    def pick(self, term, render):
        """A concrete value for `term`; the other values are explored on other paths."""
        tries = 0
        while True:
            if self.idx < len(self.trail):
                e = self.trail[self.idx]
                if e.kind != "p" or not self._same(e.cond, term):
                    raise Diverged("concretisation differs from the recorded trail")
                self.idx += 1
                if e.taken:
                    return e.value
                tries += 1
                continue
            m = self.feasible_model()
            zv = m.eval(term, model_completion=True)
            eq = term == zv
            r = self._check(z3.Not(eq))
            other = self.model if r == z3.sat else None
            self.model = m
            e = _Entry("p", term, True, r != z3.unsat, False, render(zv))
            e.alt = other
            self.stats["decisions"] += 1
            if r != z3.unsat:
                self.stats["forks"] += 1
                if tries >= self.conc_limit:
                    raise PathCut("concretisation limit")
                e.cond = term
                self._record(e, eq)
            else:
                self._record(e, None)
            return e.value

    def choose(self, name, n):
        """0..n-1, each on its own paths"""
        if n == 1:
            return 0
        t = z3.BitVec(name, 16)
        lo, hi = 0, n
        self.assume(z3.ULT(t, n))
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if self.decide(z3.ULT(t, mid)):
                hi = mid
            else:
                lo = mid
        return lo

    # -- properties -----------------------------------------------------------
    def check(self, cond, what, detail=None):
        """Assert `cond` (z3 Bool or bool) for all values on this path."""
        self.stats["checks"] += 1
        if isinstance(cond, bool):
            ok = cond
            if ok:
                self.stats["discharged"] += 1
                return
            self.model = None
            self.feasible_model()
            self._violation(what, detail)
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            self.stats["discharged"] += 1
            return
        self.stats["checks_solver"] += 1
        saved = self.model
        r = self._check(z3.Not(cond))
        if r == z3.unsat:
            self.stats["discharged"] += 1
            self.model = saved
            return
        if r == z3.sat:
            self._violation(what, detail, cond)
        self.model = saved
        self.inconclusive.append("check undecided: %s" % what)

    def sample(self):
        """like witness, but None when the soft constraints cannot be met"""
        if self.soft:
            saved = self.model
            r = self._check(*self.soft)
            m = self.model if r == z3.sat else None
            self.model = saved
            return m
        return self.feasible_model()

    def witness(self, *extra):
        """A model of the path condition (and extra) that also meets the soft constraints, which
        tie uninterpreted predicates to what the real code computes, when there is one."""
        if self.soft:
            saved = self.model
            if self._check(*(extra + tuple(self.soft))) == z3.sat:
                return self.model
            self.model = saved
        return self.feasible_model()

    def _violation(self, what, detail, cond=None):
        m = self.witness(*(() if cond is None else (z3.Not(cond),)))
        self.violations.append(dict(what=what, inputs=self.extract(m), detail=detail))
        raise PathViolation(what)

    def extract(self, m):
        return {k: f(m) for k, f in self.inputs.items()}

    def cover(self, name):
        self.covers[name] = self.covers.get(name, 0) + 1

    def note_conc(self, site):
        self.stats["concretised"] += 1
        self.conc_sites[site] = self.conc_sites.get(site, 0) + 1

    # -- exploration ----------------------------------------------------------
    def explore(self, fn, on_path=None, before=None, stop_on_violation=True):
        """Run fn() on every feasible path.  Returns True if exhausted."""
        resume = None
        while True:
            if self.stats["paths"] >= self.max_paths:
                self.inconclusive.append("path limit")
                return False
            self.stats["paths"] += 1
            self.idx = 0
            self.inputs = {}
            self.known = {}
            self.bounds = {}
            self.cpset = {}
            self.bytecp = {}
            self.soft = []
            self.keep = []
            self.nfresh = 0
            self.model = resume
            resume = None
            if before is not None:
                before()
            self.in_path = True
            try:
                fn()
                self.stats["completed"] += 1
                self.in_path = False
                if on_path is not None:
                    on_path()
            except PathInfeasible:
                self.stats["infeasible"] += 1
            except PathCut as e:
                self.stats["cut"] += 1
                self.cuts[e.why] = self.cuts.get(e.why, 0) + 1
            except PathViolation:
                if stop_on_violation:
                    return False
            except Budget:
                self.inconclusive.append("time budget")
                return False
            except Diverged as e:
                self.inconclusive.append("diverged: %s" % e)
                return False
            finally:
                self.in_path = False
            # backtrack
            while self.trail:
                e = self.trail[-1]
                if e.pushed:
                    self.solver.pop()
                    e.pushed = False
                if e.pending:
                    resume = e.alt
                    e.alt = None
                    e.pending = False
                    e.taken = False
                    if e.kind == "d":
                        c = z3.Not(e.cond)
                    else:
                        c = e.cond != _zv(e)
                    self.solver.push()
                    self.solver.add(c)
                    e.pushed = True
                    break
                self.trail.pop()
            if not self.trail:
                return True


def _zv(e):
    t = e.cond
    s = t.sort()
    if z3.is_bv_sort(s):
        return z3.BitVecVal(e.value, s.size())
    return z3.BoolVal(e.value)
