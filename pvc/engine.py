"""Path engine of the deductive verifier.

The REAL functions of /repo (loaded by pvc.loader from the current working
tree) are executed by CPython on symbolic proxies.  Every branch on a symbolic
condition forks the execution (by deterministic re-execution with a recorded
decision prefix); every `prove` call is a proof obligation under the path
condition of the current path, discharged by z3 (cvc5 as second prover).
"""
import contextlib, time, subprocess, sys
from fractions import Fraction
import z3
from . import lin as LN

ENG = None   # current engine


class PvcStop(BaseException):
    """base of engine-internal control flow; never caught by the code under test"""


class PathEnd(PvcStop):
    pass


class Unsupported(PvcStop):
    def __init__(self, msg):
        super().__init__(msg)
        self.msg = msg


class Obligation:
    __slots__ = ("name", "status", "backend", "time", "model", "detail", "path")

    def __init__(self, name, status, backend, t, model=None, detail="", path=None):
        self.name, self.status, self.backend, self.time = name, status, backend, t
        self.model, self.detail, self.path = model, detail, path

    def as_dict(self):
        return {"name": self.name, "status": self.status, "backend": self.backend,
                "time_s": round(self.time, 3), "model": self.model, "detail": self.detail}


class SplitUnderBinder(Unsupported):
    pass


class Local:
    """the decisions of one case of a case distinction made inside a term"""

    def __init__(self, prefix):
        self.prefix, self.taken, self.conds, self.open = prefix, [], [], []

    def branch(self, en, c):
        k = len(self.taken)
        if k < len(self.prefix):
            choice = self.prefix[k]
        else:
            choice = True
            self.open.append(self.taken + [False])
        self.taken.append(choice)
        c = c if choice else z3.Not(c)
        self.conds.append(c)
        en.assume(c)
        return choice


class Engine:
    def __init__(self, tier="quick", timeout_ms=10000, branch_timeout_ms=2000, max_paths=4000):
        self.tier = tier
        self.timeout_ms = timeout_ms
        self.branch_timeout_ms = branch_timeout_ms
        self.max_paths = max_paths
        self.obligations = []
        self.functions = set()        # functions of /repo executed under contract
        self.assumptions = set()      # textual trusted assumptions actually used
        self.covers = {}              # name -> bool (satisfiable?)
        self.paths = 0
        self.branch_checks = 0
        self.solver_time = 0.0
        self.binders = 0
        self.unsupported = []
        self.deadline = None
        self._ids = {}
        self.scale = 1
        self.base_limits = (timeout_ms, branch_timeout_ms)
        self.reset_path([])

    # ---------------------------------------------------------------- paths
    def reset_path(self, prefix):
        self.prefix = list(prefix)
        self.pos = 0
        self.decisions = []           # list of (choice, n_alternatives_remaining list)
        self.solver = z3.Solver()
        self.solver.set("timeout", self.branch_timeout_ms)
        self.facts = []
        self.tracked = {}
        self.counter = 0
        self.fact_keys = set()
        self.sum_atoms = {}
        self.sum_meta = {}
        self.index_vars = {}
        self.range_cache = {}
        self.loop_stack = []
        self.path_notes = []
        self.scratch = {}
        self.binders = 0
        self.local = None
        self.memo = {}

    def fresh_name(self, base):
        self.counter += 1
        return f"{base}!{self.counter}"

    def assume(self, c):
        """add a fact to the path condition"""
        if isinstance(c, bool):
            if not c:
                raise PathEnd()
            return
        if z3.is_true(c):
            return
        k = c.get_id()
        if k in self.fact_keys:
            return
        self.fact_keys.add(k)
        self.facts.append(c)
        self.solver.add(LN.lin(c))
        self.range_cache.clear()

    def _check(self, *extra):
        t = time.time()
        self.branch_checks += 1
        self.solver.push()
        lx = [LN.lin(x) for x in extra]
        for x in lx:
            self.solver.add(x)
        r = self.solver.check()
        self.solver.pop()
        if r != z3.unsat and self.full_branch and any(self._nonlinear(x) for x in lx):
            s = z3.Solver()
            s.set("timeout", self.full_branch)
            for f in self.facts:
                s.add(f)
            for x in extra:
                s.add(x)
            if s.check() == z3.unsat:
                r = z3.unsat
        self.solver_time += time.time() - t
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the check exhausted")
        return r

    full_branch = 400

    def scale_limits(self, k):
        """every solver limit k times its normal length"""
        self.scale = k
        self.timeout_ms, self.branch_timeout_ms = (x * k for x in self.base_limits)
        self.full_branch = 400 * k

    def _nonlinear(self, x, seen=None):
        seen = set() if seen is None else seen
        if x.get_id() in seen:
            return False
        seen.add(x.get_id())
        if x.num_args() == 0 and z3.is_const(x):
            n = x.decl().name()
            return n.startswith("mono#") or n.startswith("inv#")
        return any(self._nonlinear(c, seen) for c in x.children())

    def must(self, c):
        """is c entailed by the path condition?  (True only when proved)"""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = c.get_id()
        if k in self.range_cache:
            return self.range_cache[k][0]
        r = self._check(z3.Not(c)) == z3.unsat
        self.range_cache[k] = (r, c)
        return r

    def branch(self, c):
        """fork on a symbolic condition"""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.prefix) and not self.binders:
            choice = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append((choice, ()))
            self.assume(c if choice else z3.Not(c))
            return choice
        if self.binders:
            if self._check(z3.Not(c)) == z3.unsat:
                return True
            if self._check(c) == z3.unsat:
                return False
            if self.local is None:
                raise SplitUnderBinder("path split under a bound variable")
            return self.local.branch(self, c)
        rt = self._check(c)
        rf = self._check(z3.Not(c))
        if rt == z3.unsat and rf == z3.unsat:
            raise PathEnd()
        self.pos += 1
        if rt == z3.unsat:
            self.decisions.append((False, ()))
            self.assume(z3.Not(c))
            return False
        if rf == z3.unsat:
            self.decisions.append((True, ()))
            self.assume(c)
            return True
        self.decisions.append((True, (False,)))
        self.assume(c)
        return True

    def choose(self, n, label=""):
        """nondeterministic choice 0..n-1 (all explored)"""
        if n <= 0:
            raise PathEnd()
        if self.pos < len(self.prefix):
            choice = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append((choice, ()))
            return choice
        self.pos += 1
        self.decisions.append((0, tuple(range(1, n))))
        return 0

    def explore(self, harness, name):
        """run harness() on every path; returns when all paths are explored"""
        global ENG
        stack = [[]]
        n0 = self.paths
        ended = False
        while stack:
            prefix = stack.pop()
            self.reset_path(prefix)
            from . import loader
            loader.LOOP_SPECS[:] = []        # each path brings its own loop contracts
            self.current = name
            ENG = self
            self.paths += 1
            if self.paths - n0 > self.max_paths:
                self.unsupported.append(f"{name}: more than {self.max_paths} paths")
                return
            try:
                harness(self)
                if not ended:
                    # vacuity guard: some path reaches the end of the contract with consistent facts
                    s = z3.Solver()
                    s.set("timeout", 5000 * self.scale)
                    s.add(*self.facts)
                    ended = s.check() != z3.unsat
            except PathEnd:
                pass
            except Unsupported as u:
                self.unsupported.append(f"{name}: {u.msg}")
                return
            except z3.Z3Exception as ex:
                self.unsupported.append(f"{name}: solver interface: {str(ex)[:200]}")
                return
            except RecursionError as ex:
                self.unsupported.append(f"{name}: recursion limit")
                return
            except Exception as ex:
                # an exception escaped the code under contract: obligation
                # "this path is infeasible"
                import traceback
                tb = traceback.extract_tb(ex.__traceback__)
                where = "; ".join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in tb[-3:])
                self.prove(f"no exception escapes", z3.BoolVal(False),
                           detail=f"{type(ex).__name__}: {ex} at {where}")
            # schedule alternatives
            for i in range(len(self.decisions) - 1, len(prefix) - 1, -1):
                choice, alts = self.decisions[i]
                for a in alts:
                    stack.append([d[0] for d in self.decisions[:i]] + [a])
            if self.stop_early():
                return
        if not ended and all(o.status == "discharged" for o in self.obligations if o.name.startswith(name + ":")):
            self.unsupported.append(f"{name}: no path reaches the end of the contract (vacuous)")

    def stop_early(self):
        bad = [o for o in self.obligations if o.status != "discharged"]
        return len(bad) >= 12

    @contextlib.contextmanager
    def scope(self):
        """facts assumed inside are forgotten afterwards"""
        n, keys, memo = len(self.facts), set(self.fact_keys), dict(self.memo)
        self.solver.push()
        try:
            yield
        finally:
            self.memo = memo
            self.solver.pop()
            del self.facts[n:]
            self.fact_keys = keys
            self.range_cache.clear()

    # ---------------------------------------------------------------- proofs
    def prove(self, name, goal, detail="", timeout_ms=None, assume_after=True):
        full = f"{self.current}: {name}"
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if hasattr(goal, "e"):
            goal = goal.e
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the check exhausted")
        t = time.time()
        g = goal
        if z3.is_true(z3.simplify(LN.lin(goal))):
            self.obligations.append(Obligation(full, "discharged", "simplifier", time.time() - t, None, detail))
            return True
        status, backend, model = self._solve(g, goal, (timeout_ms or 0) * self.scale or self.timeout_ms)
        dt = time.time() - t
        self.solver_time += dt
        self.obligations.append(Obligation(full, status, backend, dt, model, detail))
        if status != "discharged":
            # the verdict is settled: what remains only names more obligations
            self.timeout_ms = min(self.timeout_ms, 5000)
            self.deadline = min(self.deadline or 1e18, time.time() + 60)
        if status == "discharged" and assume_after:
            self.assume(goal)
        return status == "discharged"

    def entails(self, goal, ms=2000):
        """quick: the current facts imply the goal (False: not established); adds it to the facts"""
        goal = goal.e if hasattr(goal, "e") else goal
        if z3.is_true(z3.simplify(LN.lin(goal))):
            return True
        self.solver.push()
        self.solver.set("timeout", ms * self.scale)
        self.solver.add(z3.Not(LN.lin(goal)))
        r = self.solver.check()
        self.solver.pop()
        self.solver.set("timeout", self.branch_timeout_ms)
        if r == z3.unsat:
            self.assume(goal)
        return r == z3.unsat

    def _solve(self, g, goal, timeout):
        # 1. linearised query on the incremental path solver
        self.solver.push()
        self.solver.set("timeout", min(timeout, 8000 * self.scale))
        self.solver.add(z3.Not(LN.lin(goal)))
        r = self.solver.check()
        m1 = self._model(self.solver.model()) if r == z3.sat else None
        self.solver.pop()
        self.solver.set("timeout", self.branch_timeout_ms)
        if r == z3.unsat:
            return "discharged", "z3", None
        # 2. full query
        s = z3.Solver()
        s.set("timeout", timeout)
        for f in self.facts:
            s.add(f)
        s.add(z3.Not(g))
        r = s.check()
        if r == z3.unsat:
            return "discharged", "z3", None
        if r == z3.sat:
            return "refuted", "z3", self._model(s.model())
        # 3. unsimplified goal, fresh solver, nonlinear tactic
        s2 = z3.SolverFor("QF_UFNIRA") if False else z3.Then("simplify", "solve-eqs", "smt").solver()
        s2.set("timeout", timeout)
        for f in self.facts:
            s2.add(f)
        s2.add(z3.Not(goal))
        r = s2.check()
        if r == z3.unsat:
            return "discharged", "z3", None
        if r == z3.sat:
            return "refuted", "z3", self._model(s2.model())
        # 4. cvc5
        r = self._cvc5(s, timeout)
        if r == "unsat":
            return "discharged", "cvc5", None
        if r == "sat":
            return "refuted", "cvc5", None
        return "unknown", "z3+cvc5", m1

    def _cvc5(self, s, timeout):
        txt = "(set-logic ALL)\n" + s.to_smt2()
        try:
            p = subprocess.run(["cvc5", "--lang", "smt2", f"--tlimit={timeout}", "-"],
                               input=txt, capture_output=True, text=True, timeout=timeout / 1000 + 5)
            return p.stdout.strip().split("\n")[0] if p.stdout.strip() else "unknown"
        except Exception:
            return "unknown"

    def _model(self, m):
        out = {}
        for k, e in self.tracked.items():
            try:
                v = m.eval(e, model_completion=True)
                out[k] = str(v)
            except Exception as ex:
                pass
        return out

    def track(self, name, sym):
        self.tracked[name] = sym.e if hasattr(sym, "e") else sym

    def cover(self, name, goal=None):
        """vacuity guard: the current path condition (and goal) is satisfiable"""
        full = f"{self.current}: {name}"
        if self.covers.get(full):
            return
        s = z3.Solver()
        s.set("timeout", 5000 * self.scale)
        for f in self.facts:
            s.add(f)
        if goal is not None:
            s.add(goal.e if hasattr(goal, "e") else goal)
        r = s.check()
        self.covers[full] = self.covers.get(full, False) or r != z3.unsat

    def trust(self, text):
        self.assumptions.add(text)


def eng():
    return ENG
