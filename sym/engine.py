"""Path exploration engine: depth-first re-execution of the instrumented code,
z3 decides which branches are feasible and whether an obligation can fail."""
import time
import z3


class Control(BaseException):
    """Base of every engine-internal exception (never seen by code under test)."""


class Infeasible(Control):
    """The current path's assumptions are unsatisfiable."""


class MustFork(Control):
    """A merged branch cannot be merged: explore that site by forking."""
    def __init__(self, site, why=""):
        super().__init__(site, why)
        self.site = site
        self.why = why


class LoopBudget(Control):
    """A path iterated more often than the harness's loop budget allows."""


class Unsupported(Control):
    """The encoding cannot represent an operation."""


class Budget(Control):
    """The job ran out of its time budget."""


class SolverUnknown(Control):
    """The solver answered unknown."""


CUR = None      # the engine of the running job


class Engine:
    def __init__(self, timeout_ms=60000, tick_budget=4000, deadline=None,
                 max_concretise=4096):
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.tick_budget = tick_budget
        self.deadline = deadline
        self.max_concretise = max_concretise
        self.decisions = []      # entries: [choice, both_feasible, expr]
        self.pos = 0
        self.asserted = 0        # number of decision entries on the solver stack
        self.mustfork = {}
        self.st = dict(paths=0, queries=0, solver_s=0.0, forks=0, merges=0,
                       obligations=0, discharged=0, infeasible=0, concretised=0,
                       restarts=0, max_ticks=0, assumptions=0)
        self.reset_path()

    # -- per path state
    def reset_path(self):
        self.pos = 0
        self.ticks = 0
        self.guards = []         # list of z3 Bool, conjunction = current guard
        self.region_sites = []   # branch sites of the merged regions we are in
        self.known = {}          # ast id -> bool, facts of this path
        self.known_refs = []
        self.path_assumes = []
        self.n_assume = 0
        self.outputs = []
        self.approx = False

    # -- solver access
    def check(self, *extra):
        t = time.time()
        if self.deadline is not None and t > self.deadline:
            raise Budget()
        r = self.solver.check(*extra)
        self.st['solver_s'] += time.time() - t
        self.st['queries'] += 1
        if r == z3.unknown:
            raise SolverUnknown(self.solver.reason_unknown())
        return r == z3.sat

    def guard(self):
        if not self.guards:
            return None
        if len(self.guards) == 1:
            return self.guards[0]
        return z3.And(*self.guards)

    def guard_key(self):
        return tuple(g.get_id() for g in self.guards)

    def _push(self, expr):
        """Put entry number self.pos on the solver stack (unless already there)."""
        if self.asserted <= self.pos:
            self.solver.push()
            if expr is not None:
                self.solver.add(expr)
            self.asserted += 1

    def learn(self, expr, val):
        self.known[expr.get_id()] = val
        self.known_refs.append(expr)

    def decide(self, cond):
        """Concrete truth value of a z3 Bool on this path, forking if needed."""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = self.known.get(cond.get_id())
        if k is not None:
            return k
        s = z3.simplify(cond)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        neg = False
        if z3.is_not(s):
            s = s.arg(0)
            neg = True
        k = self.known.get(s.get_id())
        if k is not None:
            return k != neg
        r = self._decide(s)
        if self.decisions[self.pos - 1][3]:
            self.learn(cond, r != neg)
        return r != neg

    def _decide(self, s):
        if self.pos < len(self.decisions):
            ent = self.decisions[self.pos]
            val = ent[0]
            self._push(ent[2])
            self.pos += 1
            if ent[2] is not None or ent[3]:
                self.learn(s, val)
            return val
        g = self.guard()
        ns = z3.Not(s)
        if g is None:
            t = self.check(s)
            f = self.check(ns) if t else True
            expr_t, expr_f = s, ns
            if t and not f:
                ent = [True, False, None, True]
            elif f and not t:
                ent = [False, False, None, True]
            else:
                ent = [True, True, s, True]
                self.st['forks'] += 1
        else:
            t = self.check(g, s)
            f = self.check(g, ns)
            if not t and not f:
                raise MustFork(self.region_sites[-1], "dead region")
            if t and f:
                ent = [True, True, s, True]
                self.st['forks'] += 1
            else:
                # forced inside the region only: nothing is learnt globally
                ent = [bool(t), False, None, False]
        self.decisions.append(ent)
        self._push(ent[2])
        self.pos += 1
        if ent[3]:
            self.learn(s, ent[0])
        return ent[0]

    def choose_value(self, expr):
        """A value of a bit-vector term possible on this path (recorded)."""
        if self.pos < len(self.decisions):
            ent = self.decisions[self.pos]
            self._push(None)
            self.pos += 1
            return ent[0]
        g = self.guard()
        if not (self.check(g) if g is not None else self.check()):
            if g is not None:
                raise MustFork(self.region_sites[-1], "dead region")
            raise Infeasible()
        v = self.solver.model().eval(expr, model_completion=True)
        v = v.as_signed_long() if z3.is_bv_value(v) else v.as_long()
        self.decisions.append([v, False, None, False])
        self._push(None)
        self.pos += 1
        return v

    def assume(self, cond):
        """Restrict the path (harness preconditions only)."""
        if cond is True:
            return
        if cond is False:
            raise Infeasible()
        s = z3.simplify(cond)
        if z3.is_true(s):
            return
        if z3.is_false(s):
            raise Infeasible()
        self.st['assumptions'] += 1
        if self.pos < len(self.decisions):
            ent = self.decisions[self.pos]
            self._push(ent[2])
            self.pos += 1
        else:
            if not self.check(s):
                raise Infeasible()
            self.decisions.append([True, False, s, True])
            self._push(s)
            self.pos += 1
        self.learn(s, True)

    def tick(self):
        self.ticks += 1
        if self.ticks > self.tick_budget:
            raise LoopBudget()

    # -- exploration
    def backtrack(self):
        """Advance to the next unexplored decision prefix; False when done."""
        while self.decisions:
            d = self.decisions
            if self.asserted >= len(d):
                self.solver.pop()
                self.asserted = len(d) - 1
            ent = d[-1]
            if ent[1] and ent[0] is True:
                ent[0] = False
                ent[1] = False
                ent[2] = z3.Not(ent[2])
                return True
            d.pop()
        return False

    def restart(self):
        while self.asserted:
            self.solver.pop()
            self.asserted -= 1
        self.decisions = []

    def explore(self, run_path, on_path, max_paths=None):
        """run_path() executes once; on_path(result, exc) inspects the end state
        and returns True to stop."""
        global CUR
        CUR = self
        complete = True
        self.restart()
        while True:
            self.reset_path()
            try:
                try:
                    res, exc = run_path(), None
                except Infeasible:
                    self.st['infeasible'] += 1
                    res, exc = None, 'infeasible'
                except MustFork as m:
                    if m.site in self.mustfork:
                        raise Unsupported("site %r cannot be merged nor forked: %s"
                                          % (m.site, m.why))
                    self.mustfork[m.site] = m.why
                    self.st['restarts'] += 1
                    self.restart()
                    continue
                self.guards = []
                self.st['max_ticks'] = max(self.st['max_ticks'], self.ticks)
                if exc is None:
                    self.st['paths'] += 1
                    if on_path(res):
                        return False
            except Budget:
                return False
            if max_paths and self.st['paths'] >= max_paths:
                complete = False
                break
            if self.pos < len(self.decisions):
                raise Unsupported("non-deterministic re-execution")
            if not self.backtrack():
                break
        return complete
