"""Discharging obligations with z3, and cvc5 as a second opinion."""

import itertools
import os
import subprocess
import tempfile
import time

import z3

from . import terms as T
from .terms import is_z, zb, zr


SCALE = [1.0]  # all time limits are multiplied by this


def query(hyps, goal, opt):
    fs = [zb(h) for h in hyps] + [z3.Not(zb(goal))]
    ax = T.axioms_for(fs, opt)
    return fs + ax


def _solve(fs, timeout, tactic=None):
    s = z3.Solver() if tactic is None else tactic.solver()
    s.set("timeout", int(timeout * SCALE[0]))
    s.add(*fs)
    return s.check(), s


def try_prove(hyps, goal, opt, timeout=4000):
    return prove1(hyps, goal, opt, timeout)[0] == "proved"


def relaxed(hyps, goal):
    """The same question with integer sequences that only occur as reals made real ones
    (what holds of all real sequences holds of the integer ones); None when there are none."""
    fs = [zb(h) for h in hyps] + [zb(goal)]
    seen, real, other = set(), {}, set()
    todo = list(fs)
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            todo.append(e.body())
            continue
        for c in e.children():
            todo.append(c)
            if z3.is_app(c) and c.num_args() and c.decl().kind() == z3.Z3_OP_UNINTERPRETED and c.sort() == T.INT:
                if e.decl().kind() == z3.Z3_OP_TO_REAL:
                    real[e.get_id()] = (e, c)
                else:
                    other.add(c.decl().name())
    fns = {}
    for e, c in real.values():
        d = c.decl()
        if d.name() not in other and d.name() not in T.SCHEMAS and d.name() not in T.RecFn.ALL:
            fns.setdefault(d.name(), z3.Function(d.name() + "!real", *[d.domain(i) for i in range(d.arity())], T.REAL))
    if not fns:
        return None
    memo = {}

    def go(e):
        i = e.get_id()
        if i not in memo:
            if z3.is_quantifier(e):
                raise T.Unsupported("quantifier")
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_REAL and e.arg(0).decl().name() in fns and e.arg(0).num_args():
                memo[i] = (e, fns[e.arg(0).decl().name()](*[go(a) for a in e.arg(0).children()]))
            elif z3.is_app(e) and e.num_args():
                ch = [go(a) for a in e.children()]
                memo[i] = (e, e if all(a.eq(b) for a, b in zip(ch, e.children())) else e.decl()(*ch))
            else:
                memo[i] = (e, e)
        return memo[i][1]

    try:
        out = [go(f) for f in fs]
    except (T.Unsupported, z3.Z3Exception):
        return None
    return out[:-1], out[-1]


def prove1(hyps, goal, opt, timeout=8000, relax=True):
    if not is_z(goal):
        if goal:
            return "proved", None, "evaluation"
        # proved only when the path is contradictory
        goal = z3.BoolVal(False)
    end = time.time() + SCALE[0] * timeout / 1000.0
    fs = query(hyps, goal, opt)
    r, s = _solve(fs, min(1500, timeout))
    if r == z3.unsat:
        return "proved", None, "z3"
    if relax:
        rest = relaxed(hyps, goal)
        if rest is not None and prove1(*rest, opt, timeout, False)[0] == "proved":
            return "proved", None, "z3"
    # a model only satisfies the axiom instances of this query: it may still be refuted
    model = s.model() if r == z3.sat else None
    P = Structured(opt, end if model is None else min(end, time.time() + 5 * SCALE[0]))
    try:
        if P.prove([zb(h) for h in hyps], zb(goal)):
            return "proved", None, "z3+structure"
    except (z3.Z3Exception, T.Unsupported):
        pass
    if model is not None:
        return "failed", model, "z3"
    left = max(500, int((end - time.time()) * 500 / SCALE[0]))
    try:
        t = z3.Then("simplify", "solve-eqs", "purify-arith", "smt")
        r, s = _solve(fs, left, t)
        if r == z3.unsat:
            return "proved", None, "z3"
    except z3.Z3Exception:
        pass
    r, s = _solve(fs, left)
    if r == z3.unsat:
        return "proved", None, "z3"
    if r == z3.sat:
        return "failed", s.model(), "z3"
    return "unknown", None, "z3"


def _integral(e):
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.sort() not in (T.INT, z3.BoolSort()) or not z3.is_app(x):
            return False
        todo.extend(x.children())
    return True


# ------------------------------------------------------------ case splitting
def _ites(e, out, seen):
    if e.get_id() in seen:
        return
    seen.add(e.get_id())
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        c = e.arg(0)
        out.setdefault(c.get_id(), c)
    for c in e.children():
        _ites(c, out, seen)


def _whole(hyps):
    """Whole parts known to be a constant."""
    out = []
    for h in hyps:
        if z3.is_eq(h) and h.arg(0).sort() == T.INT:
            for p, q in ((h.arg(0), h.arg(1)), (h.arg(1), h.arg(0))):
                if z3.is_const(p) and p.decl().kind() == z3.Z3_OP_UNINTERPRETED and q.decl().kind() == z3.Z3_OP_TO_INT and not T.occurs(p, q):
                    out.append((q, p))
    return out


def _named(c):
    """An equation that determines an integer constant."""
    if not z3.is_eq(c) or c.arg(0).sort() != T.INT:
        return False
    return any(z3.is_const(p) and p.decl().kind() == z3.Z3_OP_UNINTERPRETED and not T.occurs(p, q) for p, q in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))))


def _factors(e):
    if z3.is_mul(e):
        return [f for c in e.children() for f in _factors(c)]
    return [e]


_compat = {}


def compatible(s, t):
    """Could the elements of two sequences be equal?  A filter that only saves
    attempts: factors must share a function symbol pairwise."""
    key = (s.decl().name(), t.decl().name())
    if key not in _compat:
        _compat[key] = _compatible(s, t)
    return _compat[key]


def _compatible(s, t):
    t1, t2 = T.TEMPLATES[s.decl().name()], T.TEMPLATES[t.decl().name()]
    if len(t1.comps) != len(t2.comps):
        return False
    for x, y in zip(t1.comps, t2.comps):
        fx, fy = [[f for f in _factors(e) if not z3.is_rational_value(f)] for e in (x, y)]
        if len(fx) != len(fy):
            continue
        hx, hy = [[{n for n, l in T.apps([f]).items() if l[0].num_args() and l[0].sort() != T.SEQ} for f in fs] for fs in (fx, fy)]

        rec = lambda a: any(n in T.RecFn.ALL for n in a)  # noqa

        def cost(a, b):
            # a recursive function may equal something else where its definition ends
            if a & b or not a or not b:
                return 0
            return 1 if rec(a) != rec(b) else 99

        allow = abs(sum(map(rec, hx)) - sum(map(rec, hy)))
        if len(hx) <= 4 and not any(sum(cost(a, b) for a, b in zip(hx, p)) <= allow for p in itertools.permutations(hy)):
            return False
    return True


class Structured:
    """Goal directed proof search.

    Splits conjunctions, moves premises to the hypotheses, splits on the
    conditionals of an equality, proves sequences occurring on both sides equal
    element by element (or one an extension of the other by one element), and
    closes each leaf by polynomial identity or by the solver.  Every step is a
    sound reduction; failing to find a proof proves nothing."""

    def __init__(self, opt, end):
        self.opt, self.end = opt, end
        self.noext = T.AxiomOptions(split=False, unfold=opt.unfold, ext=False, rounds=opt.rounds)
        self.cache = {}
        self.n = 0

    def prove(self, hyps, goal, depth=0):
        if time.time() > self.end or depth > 7:
            return False
        todo = [(hyps, goal)]
        while todo:
            h, g = todo.pop()
            g = z3.simplify(g) if z3.is_bool(g) else g
            if z3.is_true(g):
                continue
            if z3.is_and(g):
                todo.extend((h, c) for c in g.children())
                continue
            if z3.is_or(g):
                ch = g.children()
                pos = [c for c in ch if z3.is_eq(c) or z3.is_and(c)]
                if len(pos) >= 1:
                    todo.append((h + [z3.Not(c) for c in ch if c is not pos[-1]], pos[-1]))
                    continue
            if z3.is_implies(g):
                todo.append((h + [g.arg(0)], g.arg(1)))
                continue
            if not self.cases(h, g, depth):
                return False
        return True

    def solver(self, hyps):
        s = z3.Solver()
        s.set("timeout", int(300 * SCALE[0]))
        s.add(*hyps)
        return s

    def integer_axioms(self, hyps, goal):
        """Instances about integer functions, which decide the conditions of cases."""
        fs = hyps + [goal]
        if not any(n in T.SCHEMAS and l[0].sort() == T.INT for n, l in T.apps(fs).items()):
            return []
        key = (tuple(f.get_id() for f in fs), "int")
        if key not in self.cache:
            self.cache[key] = [a for a in T.axioms_for(fs, T.AxiomOptions(split=False, unfold=0, ext=False, rounds=2)) if _integral(a)]
        return self.cache[key]

    def cases(self, hyps, goal, depth):
        s = self.solver(hyps)
        s.add(*self.integer_axioms(hyps, goal))
        extra = []
        whole = _whole(hyps)

        def go(e, d):
            if time.time() > self.end:
                return False
            e = z3.simplify(e)
            if z3.is_true(e):
                return True
            if z3.is_and(e) or z3.is_implies(e):
                return self.prove(hyps + extra, e, depth + 1)
            out = {}
            _ites(e, out, set())
            if out and d > 0:
                c = next((c for c in out.values() if _named(c)), next(iter(out.values())))
                for lit, val in ((c, z3.BoolVal(True)), (z3.Not(c), z3.BoolVal(False))):
                    s.push()
                    s.add(lit)
                    extra.append(lit)
                    try:
                        e1 = z3.substitute(e, (c, val))
                        if z3.is_true(val) and z3.is_eq(c) and c.arg(0).sort() == T.INT:
                            for p, q in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                                if z3.is_const(p) and p.decl().kind() == z3.Z3_OP_UNINTERPRETED and not T.occurs(p, q):
                                    e1 = z3.substitute(e1, (p, q))
                                    break
                        if whole:
                            e1 = z3.substitute(e1, *whole)
                        if s.check() != z3.unsat and not go(e1, d - 1):
                            return False
                    finally:
                        extra.pop()
                        s.pop()
                return True
            return self.leaf(hyps + extra, e, depth)

        return go(goal, 12)

    def rules(self, hyps, e):
        """Conditional rewriting by the registered rules, the condition proved."""
        pairs = []
        for name, lst in T.apps([e]).items():
            for rule in T.RULES.get(name, []):
                for a in lst:
                    for cond, to in rule(a):
                        fs = hyps + [z3.Not(cond)]
                        if _solve(fs + T.axioms_for(fs, self.noext), int(500 * SCALE[0]))[0] == z3.unsat:
                            pairs.append((a, to))
                            break
        return z3.substitute(e, *pairs) if pairs else e

    def leaf(self, hyps, e, depth):
        e = self.rules(hyps, e)
        if z3.is_eq(e) and e.arg(0).sort() != z3.BoolSort() and e.arg(0).sort() in (T.REAL, T.INT):
            try:
                if not T.poly_add(T.poly_of(e.arg(0)), T.poly_scale(T.poly_of(e.arg(1)), -1)):
                    return True
            except T.Unsupported:
                pass
        facts = self.seq_facts(hyps, e, depth)
        if facts:
            e2 = self.rewrite(e, facts)
            if z3.is_eq(e2) and e2.arg(0).sort() in (T.REAL, T.INT):
                try:
                    if not T.poly_add(T.poly_of(e2.arg(0)), T.poly_scale(T.poly_of(e2.arg(1)), -1)):
                        return True
                except T.Unsupported:
                    pass
            else:
                e2 = z3.simplify(e2)
                if z3.is_true(e2):
                    return True
            if len(facts) and depth < 6 and e2.get_id() != e.get_id() and any(f.arg(0).sort() == T.REAL for f in facts):
                # unfolded sums may leave new sequences to match
                if self.prove(hyps, e2, depth + 1):
                    return True
        if depth < 5:
            pairs = self.unfoldings(e)
            if pairs and self.prove(hyps, z3.substitute(e, *pairs), depth + 1):
                return True
        fs = hyps + facts + [z3.Not(e)]
        fs += T.axioms_for(fs, self.noext)
        left = int(min(1500 >> min(depth, 3), max(200, (self.end - time.time()) * 1000)))
        r, _ = _solve(fs, left)
        return r == z3.unsat

    def unfoldings(self, e):
        """Applications of recursive functions that occur on one side only."""
        if z3.is_eq(e):
            l, r = T.apps([e.arg(0)]), T.apps([e.arg(1)])
            recs = [n for n in {*l, *r} if n in T.RecFn.ALL and (n not in l or n not in r)]
            both = {T.RecFn.ALL[n][0] for n in l if n in T.RecFn.ALL} & {T.RecFn.ALL[n][0] for n in r if n in T.RecFn.ALL}
            recs = [n for n in recs if T.RecFn.ALL[n][0] not in both]
            ap = {n: l.get(n, []) + r.get(n, []) for n in recs}
            if not ap:
                ap = self.steps(l, r, both)
        else:
            ap = {n: v for n, v in T.apps([e]).items() if n in T.RecFn.ALL}
        pairs, refs = [], {}
        for n, lst in ap.items():
            rf, i = T.RecFn.ALL[n]
            for a in lst:
                d = zr(rf.defn(*a.children())[i])
                pairs.append((rf, a, d))
                refs.setdefault(rf.name, set()).update(T.RecFn.ALL[m][0].name for m in T.apps([d]) if m in T.RecFn.ALL)
        # a function defined through another one is unfolded before it
        low = {m for n, r in refs.items() for m in r if m != n and m in refs and n not in refs[m]}
        return [(a, d) for rf, a, d in pairs if rf.name not in low]

    def steps(self, l, r, both):
        """Applications that go beyond all those of the other side by a constant."""
        out = {}
        for p, q in ((l, r), (r, l)):
            for n in p:
                if n not in T.RecFn.ALL or T.RecFn.ALL[n][0] not in both:
                    continue
                rf = T.RecFn.ALL[n][0]
                others = [a for d in rf.decls for a in q.get(d.name(), [])]
                for a in p[n]:
                    ds = []
                    for b in others:
                        if all(x.eq(y) for x, y in zip(a.children()[:-1], b.children()[:-1])):
                            d = T.poly_add(T.poly_of(a.children()[-1]), T.poly_scale(T.poly_of(b.children()[-1]), -1))
                            ds.append(d.get((), 0) if not (set(d) - {()}) else None)
                    if ds and all(d is not None and d > 0 for d in ds):
                        out.setdefault(n, []).append(a)
        return out

    def rewrite(self, e, facts):
        pairs = [(f.arg(0), f.arg(1)) for f in facts]
        return z3.substitute(e, *pairs)

    def seq_facts(self, hyps, e, depth):
        ap = T.apps([e])
        groups, sums = {}, []
        for name, lst in ap.items():
            for a in lst:
                if name == "sum":
                    sums.append(a)
                for i in range(a.num_args()):
                    c = a.arg(i)
                    if c.sort() == T.SEQ and c.decl().name() in T.TEMPLATES:
                        groups.setdefault((name, i), {})[c.get_id()] = c
        facts, rep = [], {}
        hid = tuple(h.get_id() for h in hyps)
        for m in groups.values():
            classes = []
            for s in m.values():
                if s.get_id() in rep:
                    continue
                for t in classes:
                    if time.time() > self.end:
                        return facts
                    key = (hid, s.get_id(), t.get_id())
                    if not compatible(s, t):
                        continue
                    if key not in self.cache:
                        self.cache[key] = self.seq_equal(hyps, s, t, depth)
                    if self.cache[key]:
                        facts.append(s == t)
                        rep[s.get_id()] = t
                        break
                else:
                    classes.append(s)
        left = [a for a in sums if a.arg(0).get_id() not in rep]
        done = set()
        for p, q in itertools.combinations(left, 2):
            if p.get_id() in done or q.get_id() in done or time.time() > self.end or not compatible(p.arg(0), q.arg(0)):
                continue
            f = self.peel(hyps, p, q, depth)
            if f is not None:
                facts.append(p == f)
                done.add(p.get_id())
        if self.opt.split and sums:
            left = [a for a in sums if a.arg(0).get_id() not in rep]
            for p in left:
                for q in left:
                    if p is q or time.time() > self.end or not compatible(p.arg(0), q.arg(0)):
                        continue
                    f = self.extends(hyps, p, q, depth)
                    if f is not None:
                        facts.append(p == f)
                        break
        return facts

    def seq_equal(self, hyps, s, t, depth):
        t1, t2 = T.TEMPLATES[s.decl().name()], T.TEMPLATES[t.decl().name()]
        if len(t1.js) != len(t2.js) or len(t1.comps) != len(t2.comps):
            return False
        d1, e1 = T.seq_inst(s)
        d2, e2 = T.seq_inst(t)
        w = [z3.Int(f"q{depth}!{s.get_id()}!{t.get_id()}!{i}") for i in range(len(t1.js))]
        inb = [z3.And(0 <= i, i < d) for i, d in zip(w, d1)]
        s0 = self.solver(hyps)
        for a, b in zip(d1, d2):
            if s0.check(a != b) != z3.unsat:
                return False
        return all(self.prove(hyps + inb, x == y, depth + 1) for x, y in zip(e1(*w), e2(*w)))

    def peel(self, hyps, p, q, depth):
        """Two nonempty sums of equal length whose elements agree except the first."""
        d1, e1 = T.seq_inst(p.arg(0))
        d2, e2 = T.seq_inst(q.arg(0))
        s0 = self.solver(hyps)
        if s0.check(z3.Or(d1[0] != d2[0], d1[0] < 1)) != z3.unsat:
            return None
        w = z3.Int(f"q{depth}!{p.get_id()}!{q.get_id()}!p")
        key = (tuple(h.get_id() for h in hyps), p.get_id(), q.get_id(), "peel")
        if key not in self.cache:
            self.cache[key] = self.prove(hyps + [1 <= w, w < d1[0]], e1(w)[0] == e2(w)[0], depth + 1)
        if self.cache[key]:
            return q + e1(z3.IntVal(0))[0] - e2(z3.IntVal(0))[0]
        return None

    def extends(self, hyps, p, q, depth):
        """sum p = sum q + last element of p, as the right hand side."""
        d1, e1 = T.seq_inst(p.arg(0))
        d2, e2 = T.seq_inst(q.arg(0))
        s0 = self.solver(hyps)
        if s0.check(z3.Or(d1[0] != d2[0] + 1, d2[0] < 0)) != z3.unsat:
            return None
        w = z3.Int(f"q{depth}!{p.get_id()}!{q.get_id()}!s")
        if self.prove(hyps + [0 <= w, w < d2[0]], e1(w)[0] == e2(w)[0], depth + 1):
            return q + e1(d2[0])[0]
        return None


# ------------------------------------------------------------------- cvc5
CVC5 = "/usr/local/bin/cvc5"


def cvc5_check(fs, seconds=10):
    import shutil

    exe = shutil.which("cvc5")
    if not exe:
        return "absent"
    s = z3.Solver()
    s.add(*fs)
    text = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(text)
    try:
        r = subprocess.run([exe, f"--tlimit={seconds * 1000}", f.name], capture_output=True, text=True)
        out = r.stdout.strip().splitlines()
        return out[0] if out else "error"
    finally:
        os.unlink(f.name)


class TimeUp(BaseException):
    """Raised by the signal handler of a process out of time."""


def _work(job, send):
    obs, timeout, cross, count, limit = job
    for i, o in obs:
        t = time.time()
        if limit and sum(count[:]) >= limit:
            send((i, "skipped", None, "not attempted, others failed", 0.0, None))
            continue
        try:
            st, model, be = prove1(o.hyps, o.goal, o.opt, max(timeout, o.opt.timeout))
        except Exception as ex:
            st, model, be = "unknown", None, f"{type(ex).__name__} {ex}"
        m = None
        if model is not None:
            m = {str(d): str(model[d])[:200] for d in list(model.decls())[:60]}
        if st != "proved":
            count[os.getpid() % len(count)] = min(255, count[os.getpid() % len(count)] + 1)
        cx = None
        if cross and st == "proved" and be != "evaluation":
            cx = cvc5_check(query(o.hyps, o.goal if is_z(o.goal) else z3.BoolVal(False), o.opt), 10)
        send((i, st, m, be, time.time() - t, cx))


def discharge(obligations, timeout=8000, procs=None, cross=False, limit=0):
    """Prove all obligations, in forked workers; they get a status. After `limit` failures
    (if not 0) the rest is skipped. Returns False if it ran out of time (TimeUp): what has
    no answer then keeps the status None."""
    todo = [(i, o) for i, o in enumerate(obligations) if o.status is None]
    procs = procs or min(8, max(1, os.cpu_count() or 1))
    chunks = [todo[i::procs] for i in range(procs)]
    chunks = [c for c in chunks if c]
    live = {}
    import mmap
    import pickle
    import select
    import signal
    import struct

    count = mmap.mmap(-1, 256)  # failures, shared by the workers
    whole = True

    def take(buf):
        while len(buf) >= 4:
            n = struct.unpack("<I", buf[:4])[0]
            if len(buf) < 4 + n:
                return
            i, st, m, be, secs, cx = pickle.loads(bytes(buf[4:4 + n]))
            del buf[:4 + n]
            o = obligations[i]
            o.status, o.model, o.backend, o.secs, o.smt = st, m, be, secs, cx

    try:
        for c in chunks:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    signal.signal(signal.SIGTERM, signal.SIG_DFL)
                    os.close(r)

                    def send(x):
                        b = pickle.dumps(x)
                        b = struct.pack("<I", len(b)) + b
                        while b:
                            b = b[os.write(w, b):]

                    _work((c, timeout, cross, count, limit), send)
                finally:
                    os._exit(0)
            os.close(w)
            live[r] = (pid, c, bytearray())
        while live:
            for r in select.select(list(live), [], [])[0]:
                data = os.read(r, 1 << 20)
                pid, c, buf = live[r]
                buf += data
                take(buf)
                if not data:
                    os.close(r)
                    os.waitpid(pid, 0)
                    del live[r]
                    for i, _ in c:
                        if obligations[i].status is None:
                            obligations[i].status, obligations[i].backend, obligations[i].secs = "unknown", "worker died", 0.0
    except TimeUp:
        whole = False
        for r, (pid, _, _) in live.items():
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
    return whole
