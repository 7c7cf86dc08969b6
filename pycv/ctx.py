"""Path engine: decisions, assumptions, obligations.

One run executes one path; alternatives are explored by re-execution with a
longer decision trace.  Everything a run does is deterministic given its trace."""

import z3

from . import terms as T
from .heap import Heap
from .terms import Unsupported, b_and, b_not, fold, is_z, r_le, r_lt, zb


class PyExc(Exception):
    """An exception of the interpreted program."""

    def __init__(self, name, value=None):
        super().__init__(name)
        self.name, self.value = name, value


class Infeasible(Exception):
    """The current path is contradictory."""


class PathDone(Exception):
    """The current path ends here with its obligations recorded (loop step)."""


class Obligation:
    __slots__ = ("name", "hyps", "goal", "opt", "status", "model", "secs", "backend", "smt", "post")

    def __init__(self, name, hyps, goal, opt):
        self.name, self.hyps, self.goal, self.opt = name, hyps, goal, opt
        self.status = self.model = self.backend = self.smt = None
        self.post = False  # an obligation nothing else assumes
        self.secs = 0.0


class Ctx:
    MAXPATHS = 4000

    def __init__(self, unit, opt=None):
        self.unit = unit
        self.opt = opt or T.AxiomOptions()
        self.obligations = []
        self._okeys = set()
        self.memo, self.keep = {}, {}
        self.assumed = {}  # name -> text of assumed contracts used
        self.notes = []
        self.paths = 0
        self.shallow = 0  # only the types of what a loop modifies are asked for
        self.discovered = {}  # loop and types -> locations it modifies
        self.kept = []  # values whose identity is part of such a key
        self.replay = None
        self.inlined = set()
        self.used_contracts = set()

    # -- runs
    def run_all(self, fn):
        """fn(ctx) per path; returns the list of results of completed paths."""
        todo, results = [[]], []
        while todo:
            trace = todo.pop()
            self.begin(trace)
            self.paths += 1
            if self.paths > self.MAXPATHS:
                raise Unsupported("too many paths")
            try:
                results.append(fn(self))
            except (Infeasible, PathDone):
                pass
            todo.extend(self.pending)
        return results

    def begin(self, trace):
        T.Fresh.reset()
        self.trace, self.pos, self.pending = list(trace), 0, []
        self.pc = []
        self.heap = Heap()
        self.solver = z3.Solver()
        self.solver.set("timeout", 400)
        self.dry = 0
        self.g = {}
        self.globals_done = {}
        self.scope = []

    # -- facts
    def assume(self, f):
        f = zb(f)
        if z3.is_true(f):
            return
        self.pc.append(f)
        self.solver.add(f)

    def _key(self, f):
        """The whole question: path condition and formula (kept alive, so identifiers stay unique)."""
        self.keep.update((h.get_id(), h) for h in self.pc)
        self.keep[f.get_id()] = f
        return (tuple(h.get_id() for h in self.pc), f.get_id())

    def _check(self, f):
        self.solver.push()
        self.solver.add(f)
        r = self.solver.check()
        self.solver.pop()
        return r

    def provable(self, f):
        """Quick proof under the path condition, without axioms."""
        if not is_z(f):
            return bool(f)
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        key = self._key(f)
        if key not in self.memo:
            self.memo[key] = self._check(z3.Not(f)) == z3.unsat
        return self.memo[key]

    def prove_now(self, f, opt=None, timeout=4000):
        """Full proof attempt under the path condition, with axioms."""
        if not is_z(f):
            return bool(f)
        key = ("full", self._key(f))
        if key not in self.memo:
            from .prove import try_prove

            self.memo[key] = try_prove(self.pc, f, opt or self.opt, timeout)
        return self.memo[key]

    def branch(self, cond):
        """Decide a condition, forking the path when both ways are possible."""
        if not is_z(cond):
            return bool(cond)
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.trace):
            choice = self.trace[self.pos]
        else:
            key = ("branch", self._key(cond))
            if key not in self.memo:
                t = self._check(cond)
                f = self._check(z3.Not(cond))
                self.memo[key] = (t != z3.unsat, f != z3.unsat)
            t, f = self.memo[key]
            if not t and not f:
                raise Infeasible()
            choice = t
            if t and f:
                self.pending.append(self.trace[: self.pos] + [False])
            self.trace.append(choice)
        self.pos += 1
        self.assume(cond if choice else z3.Not(cond))
        return choice

    def choose(self, n):
        """Nondeterministic choice among n continuations."""
        if self.pos < len(self.trace):
            c = self.trace[self.pos]
        else:
            c = 0
            for i in range(1, n):
                self.pending.append(self.trace[: self.pos] + [i])
            self.trace.append(0)
        self.pos += 1
        return c

    # -- obligations
    def oblige(self, name, f, opt=None, assume=True, post=False):
        if self.dry:
            if assume and is_z(f):
                self.assume(f)
            elif not is_z(f) and not f:
                raise Infeasible()
            return
        full = "/".join([self.unit] + self.scope + [name])
        if is_z(f):
            f = z3.simplify(f)
            if z3.is_true(f):
                f = True
            elif z3.is_false(f):
                f = False
        key = (full, tuple(h.get_id() for h in self.pc), f.get_id() if is_z(f) else bool(f))
        if key not in self._okeys:
            self._okeys.add(key)
            o = Obligation(full, list(self.pc), f, opt or self.opt)
            o.post = post
            if not is_z(f) and f:
                o.status, o.backend = "proved", "evaluation"
            self.obligations.append(o)
        if assume:
            if is_z(f):
                self.assume(f)
            elif not f:
                raise PathDone()

    # -- helpers with case knowledge
    def rmin(self, a, b):
        if not is_z(a) and not is_z(b):
            return min(a, b)
        if self.provable(r_le(a, b)):
            return a
        if self.provable(r_le(b, a)):
            return b
        return T.r_ite(r_le(a, b), a, b)

    def rmax(self, a, b):
        if not is_z(a) and not is_z(b):
            return max(a, b)
        if self.provable(r_le(a, b)):
            return b
        if self.provable(r_le(b, a)):
            return a
        return T.r_ite(r_le(a, b), b, a)

    def trust(self, name, text=""):
        self.assumed.setdefault(name, text)

    # -- nested exploration
    def explore(self, fn, env_snapshot):
        """Run fn on every path from the current state without recording
        obligations; the state is restored afterwards.  fn returns an outcome."""
        saved = (self.trace, self.pos, self.pending, self.pc, self.heap, list(self.scope))
        saved_fresh = T.Fresh.n
        outs = []
        todo = [[]]
        n = 0
        self.dry += 1
        try:
            while todo:
                self.trace, self.pos, self.pending = todo.pop(), 0, []
                self.pc = list(saved[3])
                self.heap = saved[4].copy()
                T.Fresh.n = saved_fresh
                self.solver.push()
                n += 1
                if n > 400:
                    raise Unsupported("too many paths in loop body")
                try:
                    outs.append((fn(env_snapshot()), self.pc[len(saved[3]) :], self.heap))
                except (Infeasible, PathDone):
                    pass
                finally:
                    self.solver.pop()
                todo.extend(self.pending)
        finally:
            self.dry -= 1
            self.trace, self.pos, self.pending, self.pc, self.heap, self.scope = saved
            T.Fresh.n = saved_fresh
        T.Fresh.n = saved_fresh + 1000
        return outs
