"""Properties of sequences of calls, derived from the contracts: splitting a signal into
chunks, and the steady state after a reset.  Only specifications are used here; each is
proved of its function elsewhere."""

from contracts import exponential, fir_filter, goertzel, iir_filter, lms, simple_filters
from pycv.contract import Lemma
from pycv.ctx import PyExc
from pycv.std import *  # noqa
from pycv.std import T


class Hyps:
    """Assumptions made for the obligations inside a with block."""

    def __init__(self, I, *fs):
        self.I, self.fs = I, fs

    def __enter__(self):
        self.ctx = self.I.ctx
        self.n = len(self.ctx.pc)
        self.ctx.solver.push()
        for f in self.fs:
            self.ctx.assume(zb(f))

    def __exit__(self, *a):
        del self.ctx.pc[self.n:]
        self.ctx.solver.pop()


def same(x, y):
    k = T.kmax(x.k, y.k)
    x, y = x.to(k), y.to(k)
    return [r_eq(x.re, y.re)] + ([r_eq(x.im, y.im)] if k == "c" else [])


def equal(I, name, x, y, pairs=()):
    """Oblige x == y; pairs of equal parts are proved first and replaced by common names."""
    k = T.kmax(x.k, y.k)
    x, y = x.to(k), y.to(k)
    subs = []
    for i, (a, b) in enumerate(pairs or ()):
        for part in ("re", "im") if T.kmax(a.k, b.k) == "c" else ("re",):
            p, q = z3.simplify(zr(getattr(a, part))), z3.simplify(zr(getattr(b, part)))
            if p.eq(q) or z3.is_rational_value(p) or z3.is_rational_value(q):
                continue
            I.ctx.oblige(f"{name}: part {i}", p == q, assume=False)
            v = z3.Real(T.Fresh.name("part"))
            subs += [(p, v), (q, v)]
    for lab, f in ((name, r_eq(x.re, y.re)),) + (((name + ".imag", r_eq(x.im, y.im)),) if k == "c" else ()):
        if subs and is_z(f):
            f = z3.substitute(z3.simplify(f), *subs)
        I.ctx.oblige(lab, f, assume=False)


def induct(I, name, lo, hi, P, patterns=None, step=None):
    """Prove P(k) for lo <= k <= hi by induction and keep it as a quantified fact.  The
    hypothesis of the step covers every earlier index."""
    lo, hi = zi(lo), zi(hi)
    q = z3.Int(T.Fresh.name("q"))
    pats = lambda k: {"patterns": [p for p in patterns(k)]} if patterns else {}  # noqa
    k = T.fresh_int("k")
    with Hyps(I, lo <= hi):
        for i, f in enumerate(P(lo)):
            I.ctx.oblige(f"{name}: base {i}", f, assume=False)
    with Hyps(I, lo < k, k <= hi, z3.ForAll([q], z3.Implies(z3.And(lo <= q, q < k), z3.And(*[zb(f) for f in P(q)])), **pats(q)), *P(k - 1)):
        if step is not None:
            step(k)
        for i, f in enumerate(P(k) if step is None else []):
            I.ctx.oblige(f"{name}: step {i}", f, assume=False)
    I.ctx.assume(z3.ForAll([q], z3.Implies(z3.And(lo <= q, q <= hi), z3.And(*[zb(f) for f in P(q)])), **pats(q)))

    def at(i):
        for f in P(zi(i)):
            I.ctx.assume(z3.Implies(z3.And(lo <= zi(i), zi(i) <= hi), zb(f)))

    return at


def parts(x):
    return [x.re, x.im] if x.k == "c" else [x.re]


def every(I, name, lo, hi, P, patterns=None):
    """Prove P(k) for an arbitrary k and keep it as a quantified fact."""
    k, q = T.fresh_int("k"), z3.Int(T.Fresh.name("q"))
    lo, hi = zi(lo), zi(hi)
    with Hyps(I, lo <= k, k <= hi):
        for i, f in enumerate(P(k)):
            I.ctx.oblige(f"{name} {i}", f, assume=False)
    pats = {"patterns": patterns(q)} if patterns else {}
    I.ctx.assume(z3.ForAll([q], z3.Implies(z3.And(lo <= q, q <= hi), z3.And(*[zb(f) for f in P(q)])), **pats))


def by(I, name, goal, *facts):
    """Oblige the goal from these facts alone, and each of the facts."""
    ctx = I.ctx
    facts = [f for f in facts if f is not True]
    for f in facts:
        if not any(f.eq(h) for h in ctx.pc):
            ctx.oblige(name + ": premise", f, assume=False)
    saved = list(ctx.pc)
    ctx.pc[:] = facts
    ctx.oblige(name, goal, assume=False)
    ctx.pc[:] = saved
    ctx.assume(zb(goal))


class Chunks(Lemma):
    """One call on a signal against two calls on its parts: same output, same state.  Any
    split into more parts follows by repeating the argument on the last part."""

    name = "chunks"
    opt = AxiomOptions(unfold=2, rounds=4, timeout=30000, split=True)
    con = None
    only = None  # configurations

    @property
    def modules(self):
        return (self.con.modulename,)

    def arg(self, env):
        return "x"

    def configs(self):
        def make(setup):
            return lambda I: self.two(I, setup)

        return {n: make(s) for n, s in self.con().configs().items() if self.only is None or n in self.only}

    def facts(self, I, pre, mid, o, xs, n1, n2):
        """Facts about the recursions of the two runs, proved by induction."""

    def first(self, j):
        """Facts about sample j of the first part."""

    def second(self, j):
        """Facts about sample j of the second part."""

    def valid(self, I, n, xf):
        """What is assumed of the signal."""

    def two(self, I, setup):
        ctx, con = I.ctx, self.con()
        args, kw = setup(I)
        o, sig = args[0], args[1]
        name = self.arg(None)
        n, xf, k, _ = arg_seq(I, sig)
        for _, g in con.pre(I, {"self": o, name: sig}):
            ctx.assume(zb(g))
        n1, n2 = T.fresh_int("n1"), T.fresh_int("n2")
        ctx.assume(z3.And(n1 >= 1, n2 >= 1, zi(n) == n1 + n2))
        self.valid(I, n1 + n2, xf)
        whole = I.new((n1 + n2,), k, xf)
        one = I.new((n1,), k, xf)
        two = I.new((n2,), k, lambda i: xf(r_add(i, n1)))
        env = lambda x: {"self": o, name: x}  # noqa
        pre = ctx.heap.copy()
        try:
            W = con.spec(I, env(whole))
        except PyExc:
            return  # an invalid signal is rejected
        hW = ctx.heap
        ctx.heap = pre.copy()
        ctx.heap.n = hW.n + 1000
        try:
            A = con.spec(I, env(one))
            mid = ctx.heap.copy()
            B = con.spec(I, env(two))
        except PyExc:
            ctx.oblige("a part of a valid signal is valid", False, assume=False)
            return
        hB = ctx.heap
        self.facts(I, pre, mid, o, (whole, one, two), n1, n2)
        self.outputs(I, hW, W, hB, A, B, n1, n2)
        self.states(I, o, hW, hB)

    def run_of(self, I, heap, o, x):
        """What the contract's closed form says of a call on x from the state in heap."""
        saved = I.ctx.heap
        I.ctx.heap = heap.copy()
        I.ctx.heap.n = saved.n + 1000
        try:
            return self.con().closed(I, {"self": o, self.arg(None): x})
        finally:
            I.ctx.heap = saved

    def outputs(self, I, hW, W, hB, A, B, n1, n2):
        W, A, B = [v if isinstance(v, tuple) else (v,) for v in (W, A, B)]
        for c, (w, a, b) in enumerate(zip(W, A, B)):
            lab = f"output {c}" if len(W) > 1 else "output"
            cells = [h.cells[v.ref] for h, v in ((hW, w), (hB, a), (hB, b))]
            for p, q, what in ((cells[0].shape[0], r_add(cells[1].shape[0], cells[2].shape[0]), "length"),):
                I.ctx.oblige(f"{lab}: {what}", r_eq(p, q), assume=False)
            j = T.fresh_int("j")
            with Hyps(I, 0 <= j, j < zi(cells[1].shape[0])):
                equal(I, f"{lab}: first part", cells[0].fn(j), cells[1].fn(j), self.first(j))
            with Hyps(I, 0 <= j, j < zi(cells[2].shape[0])):
                equal(I, f"{lab}: second part", cells[0].fn(r_add(j, cells[1].shape[0])), cells[2].fn(j), self.second(j))

    def states(self, I, o, hW, hB, lab="state"):
        r1, r2 = hW.objs[o.oid].fields, hB.objs[o.oid].fields
        for n in r1:
            x, y = r1[n], r2[n]
            if isinstance(x, Arr):
                p, q = hW.cells[x.ref], hB.cells[y.ref]
                if p is q:
                    continue
                for a, b in zip(p.shape, q.shape):
                    I.ctx.oblige(f"{lab} {n}: length", r_eq(a, b), assume=False)
                if all(not is_z(d) and d <= 4 for d in p.shape) and len(p.shape) == 1:
                    for i in range(int(p.shape[0])):
                        equal(I, f"{lab} {n}[{i}]", p.fn(i), q.fn(i))
                    continue
                i = T.fresh_int("i")
                with Hyps(I, 0 <= i, i < zi(p.shape[0])):
                    equal(I, f"{lab} {n}", p.fn(i), q.fn(i))
            elif isinstance(x, Num):
                if not (x.inf or y.inf):
                    self.number(I, f"{lab} {n}", x, y)
            elif isinstance(x, Obj):
                self.states(I, x, hW, hB, f"{lab} {n}")

    def number(self, I, name, x, y):
        equal(I, name, x, y)


class Fir(Chunks):
    name = "chunks of FirFilter.filter"
    con = fir_filter.Filter


class Rank(Chunks):
    name = "chunks of RankFilter.filter"
    con = simple_filters.RankFilter


class Pid(Chunks):
    name = "chunks of PidFilter.filter"
    con = simple_filters.PidFilter

    def facts(self, I, pre, mid, o, xs, n1, n2):
        con = self.con()
        lim = get(I, o, "limit")
        rf = simple_filters.PI["inf" if lim.inf else "fin"]
        L = zr(0) if lim.inf else zr(lim.re)

        def acc(h, x):
            s = h.cells[get(I, o, "s").ref]
            n, xf, _, _ = arg_seq(I, x)
            a, b = reify(n, lambda i: xf(i).to("f"), "f"), reify(3, s.fn, "f")
            return lambda m: rf(a, b, L, m)

        w, a, b = acc(pre, xs[0]), acc(pre, xs[1]), acc(mid, xs[2])
        one = induct(I, "first part", 0, n1, lambda k: same(w(k), a(k)), lambda k: [w(k).re])
        one(n1)
        induct(I, "second part", 0, n2, lambda k: same(w(n1 + k), b(k)), lambda k: [b(k).re])


class Iir(Chunks):
    opt = AxiomOptions(unfold=1, rounds=2, timeout=30000, split=True)
    name = "chunks of IirFilter.filter"
    con = iir_filter.Filter

    def facts(self, I, pre, mid, o, xs, n1, n2):
        a = get(I, o, "a")
        N, k = length(I, a), I.kind(a)
        af = pre.cells[a.ref].fn

        def W(h, x):
            s = h.cells[get(I, o, "s").ref]
            n, xf, _, _ = arg_seq(I, x)
            aS, xS, sS = reify(N, af, k), reify(n, xf, k), reify(N, s.fn, k)
            return lambda m: iir_filter.WF[k](aS, xS, sS, m)

        w, a, b = W(pre, xs[0]), W(pre, xs[1]), W(mid, xs[2])
        # before the signal both are the retained state
        one = induct(I, "first part", -N, n1 - 1, lambda m: same(w(m), a(m)), lambda m: parts(w(m)))
        induct(I, "second part", -N, n2 - 1, lambda m: same(w(n1 + m), b(m)), lambda m: parts(b(m)))


class Exponential(Chunks):
    name = "chunks of ComplexExponentialFilter.filter"
    con = exponential.Filter

    def facts(self, I, pre, mid, o, xs, n1, n2):
        def P(x):
            n, xf, k, _ = arg_seq(I, x)
            S = reify(n, lambda i: Num("f", xf(i).to("c").re) if k == "c" else xf(i).to("f"), "f")
            return lambda m: exponential.PREFIX(S, m)

        w, a, b = P(xs[0]), P(xs[1]), P(xs[2])
        one = induct(I, "first part", 0, n1, lambda m: same(w(m), a(m)), lambda m: [w(m).re])
        one(n1)
        two = induct(I, "second part", 0, n2, lambda m: same(w(n1 + m), a(n1) + b(m)), lambda m: [b(m).re])
        two(n2)

    def valid(self, I, n, xf):
        from pycv.lib import forall_fact

        forall_fact(I, n, lambda i: r_le(T.num_abs(xf(i)).re, 1))

    def number(self, I, name, x, y):
        # whole turns in each run, in order: one call, first part, second part
        K = []
        for f in list(I.ctx.pc):
            if z3.is_app_of(f, z3.Z3_OP_IS_INT):
                K.append(T.fresh_int("turns"))
                I.ctx.assume(f.arg(0) == z3.ToReal(K[-1]))
        I.ctx.oblige(name, zr(x.re) - zr(y.re) == 2 * z3.ToReal(K[1] + K[2] - K[0]), assume=False)


class Split:
    """For a recursion F(signals, start, k): the run on a whole signal agrees with the run on its
    first part, and then with the run on the second part started from where the first ended.
    Proved by induction for arbitrary signals and start values; at() states instances.

    F(seqs, start, k) -> Num; after(signals, n, start, end) -> start values of the second part."""

    def __init__(self, I, name, F, signals, start, after, body=None):
        ctx = I.ctx
        self.I, self.F, self.signals, self.start, self.after = I, F, signals, start, after
        n1, n2 = z3.Int(T.Fresh.name("split1")), z3.Int(T.Fresh.name("split2"))
        u = [sym_fn(T.Fresh.name("u"), k, 1) for k in signals]
        p = [sym_num(T.Fresh.name("p"), k) for k in start]
        q = [sym_num(T.Fresh.name("q"), k) for k in start]
        before, facts = len(ctx.pc), []
        with Hyps(I, n1 >= 1, n2 >= 1):
            W, A, B = self.runs(u, n1, n2, p, q)
            one = induct(I, name + ", first part", 0, n1, lambda m: same(W(m), A(m)), lambda m: parts(W(m)))
            one(n1)
            for x, y in zip(q, after(u, n1, p, A(n1))):
                for f in same(x, y):
                    ctx.assume(zb(f))
            step = None
            if body is not None:
                # the step in two: unfold both sides, then compare the bodies part by part
                S = [[reify(n, (lambda i, f=f, d=d: f(r_add(i, d))), k) for k, f in zip(signals, u)] for n, d in ((n1 + n2, 0), (n2, n1))]

                def step(m):
                    x, xs = body(S[0], p, W, n1 + m)
                    y, ys = body(S[1], q, B, m)
                    equal(I, name + ", second part: whole", W(n1 + m), x)
                    equal(I, name + ", second part: part", B(m), y)
                    equal(I, name + ", second part: step", x, y, list(zip(xs, ys)))

            induct(I, name + ", second part", 0, n2, lambda m: same(W(n1 + m), B(m)), lambda m: parts(B(m)), step)

    def runs(self, u, n1, n2, p, q):
        S = [[reify(n, (lambda i, f=f, d=d: f(r_add(i, d))), k) for k, f in zip(self.signals, u)] for n, d in ((n1 + n2, 0), (n1, 0), (n2, n1))]
        return [lambda m, s=s, v=v: self.F(s, v, m) for s, v in zip(S, (p, p, q))]

    def instance(self, u, n1, n2, p, q):
        """Facts about these signals: first(k) and second(k) for 0 <= k <= n1, n2."""
        ctx = self.I.ctx
        W, A, B = self.runs(u, n1, n2, p, q)
        start = b_and(*[f for x, y in zip(q, self.after(u, n1, p, A(n1))) for f in same(x, y)])
        inside = lambda k, n: z3.And(n1 >= 1, n2 >= 1, 0 <= zi(k), zi(k) <= zi(n))  # noqa

        def first(k):
            ctx.assume(z3.Implies(inside(k, n1), zb(b_and(*same(W(k), A(k))))))

        def second(k):
            ctx.assume(z3.Implies(z3.And(inside(k, n2), zb(start)), zb(b_and(*same(W(r_add(k, n1)), B(k))))))

        return first, second


class Bandpass(Chunks):
    name = "chunks of ComplexBandpassFilter.filter"
    con = lms.Bandpass
    only = ["complex", "complex list"]
    opt = AxiomOptions(unfold=1, rounds=2, timeout=30000, split=True)

    def arg(self, env):
        return "d"

    def facts(self, I, pre, mid, o, xs, n1, n2):
        w, a, b = [self.run_of(I, h, o, x) for h, x in ((pre, xs[0]), (pre, xs[1]), (mid, xs[2]))]
        P = []
        for h, x in ((pre, xs[0]), (pre, xs[1]), (mid, xs[2])):
            n, xf, _, _ = arg_seq(I, x)
            fr = get(I, o, "frequency").to("f")
            S = reify(n, lambda i: lift(1).to("f") * fr, "f")
            P.append(lambda m, S=S: exponential.PREFIX(S, m))
        one = induct(I, "phase, first part", 0, n1, lambda m: same(P[0](m), P[1](m)), lambda m: [P[0](m).re])
        one(n1)
        two = induct(I, "phase, second part", 0, n2, lambda m: same(P[0](n1 + m), P[1](n1) + P[2](m)), lambda m: [P[2](m).re])
        two(n2)
        every(I, "exponential, first part", 0, n1 - 1, lambda m: same(w[3](m), a[3](m)), lambda m: [P[1](m).re])
        every(I, "exponential, second part", 0, n2 - 1, lambda m: same(w[3](n1 + m), b[3](m)), lambda m: [P[2](m).re])
        rate = get(I, o, "rate").to("f")
        F = lambda s, v, m: lms.COEFFICIENT(s[0], s[1], zr(v[0].re), zr(v[1].re), zr(v[1].im), m)  # noqa
        S = Split(I, "coefficient", F, "cc", "fc", lambda u, n, p, end: [p[0], end])
        c = get(I, o, "b")
        b0, b1 = pre.cells[c.ref].fn(0), mid.cells[c.ref].fn(0)
        self.first_at, self.second_at = S.instance([w[1], w[3]], n1, n2, [rate, b0], [rate, b1])
        self.first_at(n1)
        self.second_at(n2)
        self.runs, self.n1 = (w, a, b), n1

    def first(self, j):
        self.first_at(j)
        w, a, b = self.runs
        return [(w[3](j), a[3](j)), (w[4](j), a[4](j))]

    def second(self, j):
        self.second_at(j)
        w, a, b = self.runs
        i = r_add(j, self.n1)
        return [(w[3](i), b[3](j)), (w[4](i), b[4](j))]

    def number(self, I, name, x, y):
        (Exponential if name.endswith("_phase") else Chunks).number(self, I, name, x, y)


class Frequency(Chunks):
    name = "chunks of ComplexFrequencyFilter.filter"
    con = lms.Frequency
    only = ["complex", "complex list"]
    opt = AxiomOptions(unfold=1, rounds=2, timeout=30000, split=True)

    def arg(self, env):
        return "d"

    def facts(self, I, pre, mid, o, xs, n1, n2):
        w = self.run_of(I, pre, o, xs[0])
        rate = get(I, o, "rate").to("f")
        F = lambda s, v, m: lms.TURN(s[0], zr(v[0].re), zr(v[1].re), zr(v[1].im), zr(v[2].re), zr(v[2].im), m)  # noqa

        def body(seqs, v, C, m):
            x, i = seq_num(seqs[0]), r_sub(m, 1)
            s = num_ite(r_le(i, 0), v[2], x(r_sub(i, 1)))
            return C(i) + v[0] * (x(i) - C(i) * s) * T.num_conj(s), [C(i), s, x(i)]

        S = Split(I, "coefficient", F, "c", "fcc", lambda u, n, p, end: [p[0], end, u[0](r_sub(n, 1))], body)
        c, s = get(I, o, "b"), get(I, o, "s")
        at = lambda h: [rate, h.cells[c.ref].fn(0), h.cells[s.ref].fn(0)]  # noqa
        self.first_at, self.second_at = S.instance([w[1]], n1, n2, at(pre), at(mid))
        self.first_at(n1)
        self.second_at(n2)
        self.runs, self.n1 = [w] + [self.run_of(I, h, o, x) for h, x in ((pre, xs[1]), (mid, xs[2]))], n1

    def first(self, j):
        self.first_at(j)
        w, a, b = self.runs
        return [(w[2](j), a[2](j)), (w[3](j), a[3](j))]

    def second(self, j):
        self.second_at(j)
        w, a, b = self.runs
        i = r_add(j, self.n1)
        return [(w[2](i), b[2](j)), (w[3](i), b[3](j))]


class Goertzel(Chunks):
    name = "chunks of GoertzelFilter.filter"
    con = goertzel.Filter
    opt = AxiomOptions(unfold=1, rounds=3, timeout=30000, split=True)

    def run_of(self, I, heap, o, x):
        saved = I.ctx.heap
        I.ctx.heap = heap.copy()
        I.ctx.heap.n = saved.n + 1000
        con = self.con()
        f, n, M, R, Q, y, state, s = con.parts(I, {"self": o, "x": x})
        I.ctx.heap = saved
        con.R, con.Q, con.M, con.y = R, Q, M, y
        return con

    def facts(self, I, pre, mid, o, xs, n1, n2):
        ctx = I.ctx
        w, a, b = [self.run_of(I, h, o, x) for h, x in ((pre, xs[0]), (pre, xs[1]), (mid, xs[2]))]
        # positions
        R = [lambda k, c=c: Num("i", c.R(k)) for c in (w, a, b)]
        Q = [lambda k, c=c: Num("i", c.Q(k)) for c in (w, a, b)]
        at = induct(I, "position", 0, n2, lambda k: same(R[0](n1 + k), R[2](k)) + same(Q[0](n1 + k), Q[0](n1) + Q[2](k)))
        at(n2)
        names = ("S0", "S1", "S2")
        tri = lambda c, k: [c.rec.S0(k), c.rec.S1(k), c.rec.S2(k)]  # noqa

        def unfolded(c, k):
            """The state after k > 0 samples, from the state before the last."""
            z, r, p = lift(0).to("c"), c.rec, r_sub(k, 1)
            first = r.first(k)
            return [num_ite(first, z, r.v(p)), num_ite(first, z, r.newest(p)), num_ite(first, z, r.S1(p))]

        def agree(lab, c, d, shift, hi, positions):
            def step(k):
                for i in (k, k - 1):
                    positions(i)
                i, p = k + shift, k - 1 + shift
                x, y = unfolded(c, i), unfolded(d, k)
                for name, t, u in list(zip(names, tri(c, i), x)) + list(zip(names, tri(d, k), y)):
                    equal(I, f"state, {lab}: {name} unfolds", t, u)
                equal(I, f"state, {lab}: windowed sample", c.rec.v(p), d.rec.v(k - 1))
                ps = list(zip(tri(c, p), tri(d, k - 1))) + [(c.rec.v(p), d.rec.v(k - 1)), (c.rec.newest(p), d.rec.newest(k - 1))]
                equal(I, f"state, {lab}: newest", c.rec.newest(p), d.rec.newest(k - 1), ps[:3])
                for f in same(*ps[3]) + same(*ps[4]):
                    ctx.assume(zb(f))
                for name, u, v in zip(names, x, y):
                    equal(I, f"state, {lab}: {name}", u, v)

            P = lambda k: [f for u, v in zip(tri(c, k + shift), tri(d, k)) for f in same(u, v)]  # noqa
            return induct(I, f"state, {lab}", 0, hi, P, None, step)

        one = agree("first part", w, a, 0, n1, lambda i: None)
        one(n1)
        two = agree("second part", w, b, n1, n2, at)
        two(n2)
        self.hook = w, a, b, one, two, at, n1, n2, I
        self.coefficients = get(I, o, "b")

    def output(self, I, lab, c, d, shift, j, q, facts, n, positions):
        """Output j of d is output j + q of c: both are read at the same sample."""
        ctx, M = I.ctx, zi(d.M)
        with Hyps(I):
            i0, x = zi(d.args[4]), zi(r_add(j, q))
            for k in {j, x}:
                ctx.assume(goertzel.LAST(k, M) == M * k + M - 1)  # its definition
            N = zi(d.Q(n))
            ctx.oblige(f"{lab}: not negative", M * j >= 0)
            ctx.oblige(f"{lab}: within", M * j + M <= M * N)
            if shift is not None:
                ctx.oblige(f"{lab}: whole windows", M * x == M * j + M * zi(q))
            ctx.oblige(f"{lab}: whole windows end", z3.And(M * N <= i0 + n, 0 <= i0, i0 < M))
            m, i = zi(d.last(j)), zi(c.last(x))
            ends = [goertzel.LAST(q_, M) == M * q_ + M - 1 for q_ in (j, x)]
            by(I, f"{lab}: position", z3.And(0 <= m, m < n), ends[0], M * j >= 0, M * j + M <= M * N, M * N <= i0 + n, 0 <= i0, i0 < M)
            ctx.oblige(f"{lab}: same position", i == m + (0 if shift is None else shift))
            k = T.fresh_int("m")
            ctx.assume(k == m)
            kc = k + (0 if shift is None else shift)
            for f in (facts, positions):
                f(k)
            b = lambda z: I.snap(self.coefficients)(z)  # noqa
            equal(I, f"{lab}: sample", c.rec.v(kc), d.rec.v(k))
            S = [(getattr(c.rec, a)(kc), getattr(d.rec, a)(k)) for a in ("S0", "S1", "S2")]
            equal(I, f"{lab}: newest", c.rec.newest(kc), d.rec.newest(k), S)
            for u, v in ((c.rec.v(kc), d.rec.v(k)), (c.rec.newest(kc), d.rec.newest(k))):
                for f in same(u, v):
                    ctx.assume(zb(f))
            p, r = c.rec.out(b, kc), d.rec.out(b, k)
            equal(I, f"{lab}: values", p, r, [(c.rec.v(kc), d.rec.v(k)), (c.rec.newest(kc), d.rec.newest(k)), S[1]])
            for u, v, w in ((c, kc, p), (d, k, r)):
                aS, bS, vS, sS, i0, M = u.args
                equal(I, f"{lab}: output unfolds", goertzel.OUT(aS, bS, vS, sS, i0, M, v), w)
                for f in same(goertzel.OUT(aS, bS, vS, sS, i0, M, v), w):
                    ctx.assume(zb(f))
            for f in same(p, r):
                ctx.assume(zb(f))
            vals = [f for u, v, t in ((c, kc, p), (d, k, r)) for f in same(goertzel.OUT(*u.args[:4], *u.args[4:], v), t)] + same(p, r)
            place = [k == m, i == m + (0 if shift is None else shift)]
            for f in same(c.y(x), d.y(j)):
                by(I, f"{lab}: equal", zb(f), *place, *[zb(v) for v in vals])
        for f in same(c.y(r_add(j, q)), d.y(j)):
            ctx.assume(zb(f))
        return None

    def first(self, j):
        w, a, b, one, two, at, n1, n2, I = self.hook
        return self.output(I, "output, first part", w, a, None, j, 0, one, n1, lambda k: None)

    def second(self, j):
        w, a, b, one, two, at, n1, n2, I = self.hook
        return self.output(I, "output, second part", w, b, n1, j, a.Q(n1), two, n2, at)


def termwise(I, name, n, f, g, k, using=None):
    """Oblige and keep that two sums are equal, element by element; using some of what is
    known only."""
    for part in ("re", "im") if k == "c" else ("re",):
        (p, pf), (q, qf) = [raw_sum(n, lambda i, e=e: getattr(e(i), part)) for e in (f, g)]
        I.ctx.assume(pf)
        I.ctx.assume(qf)
        saved = list(I.ctx.pc)
        if using is not None:
            I.ctx.pc[:] = [h for h in saved if using(h)]
        I.ctx.oblige(name + "." + part, p == q, assume=False)
        I.ctx.pc[:] = saved
        I.ctx.assume(p == q)


def has_app(e):
    """Whether a fact mentions more than integers."""
    if e.num_args() and not z3.is_quantifier(e):
        return any(has_app(c) for c in e.children())
    return z3.is_real(e)


class HeadSplit:
    """sum of f(i) for i < n + 1 is f(0) plus the sum of f(i + 1) for i < n."""

    def __init__(self, I, k):
        self.I, self.k = I, k
        u, n = sym_fn(T.Fresh.name("u"), k, 1), z3.Int(T.Fresh.name("n"))
        with Hyps(I, n >= 0):
            induct(I, "first term of a sum " + k, 0, n, lambda m: self.claim(u, m))

    def claim(self, f, n):
        return same(T.num_sum(r_add(n, 1), f, self.k), f(0).to(self.k) + T.num_sum(n, lambda i: f(r_add(i, 1)), self.k))

    def at(self, f, n):
        """The instance for this function."""
        for c in self.claim(f, n):
            self.I.ctx.assume(z3.Implies(zi(n) >= 0, zb(c)))


class Steady(Lemma):
    """After a reset to x the output of a signal of constant x is x times the gain."""

    opt = AxiomOptions(unfold=1, rounds=3, timeout=30000, split=True)
    con = rst = None
    kinds = "fc"

    @property
    def modules(self):
        return (self.con.modulename,)

    def configs(self):
        return {{"f": "real", "c": "complex"}[k]: (lambda I, k=k: self.prove(I, k)) for k in self.kinds}

    def prove(self, I, k):
        ctx = I.ctx
        N, n = z3.Int("N"), z3.Int("n")
        ctx.assume(z3.And(N >= 1, n >= 1))
        o, x = self.subject(I, k, N), sym_num("x", k)
        for _, g in self.con().pre(I, {"self": o}):
            ctx.assume(zb(g))
        gain = self.gain(I, o, k, N)
        for _, g in self.rst().pre(I, {"self": o, "x": x}):
            ctx.assume(zb(g))
        self.rst().spec(I, {"self": o, "x": x})
        v = I.new((n,), k, lambda i: x)
        self.before(I, o, k, N, n, x, v)
        try:
            y = self.con().spec(I, {"self": o, "x": v})
        except PyExc:
            ctx.oblige("a constant signal is accepted", False, assume=False)
            return
        ctx.oblige("length", r_eq(length(I, y), n), assume=False)
        j = T.fresh_int("j")
        with Hyps(I, 0 <= j, j < n):
            self.output(I, I.at(y, j), x, gain, j)

    def before(self, I, o, k, N, n, x, v):
        pass

    def output(self, I, y, x, gain, j):
        equal(I, "output", y, x * gain)


class FirSteady(Steady):
    name = "steady state of FirFilter"
    con, rst = fir_filter.Filter, fir_filter.Reset

    def subject(self, I, k, N):
        return sym_obj(I, "FirFilter", {"b": sym_arr(I, "b", (N,), k), "s": sym_arr(I, "s0", (N,), k)})

    def gain(self, I, o, k, N):
        return T.num_sum(N, I.snap(get(I, o, "b")), k)


class RankSteady(Steady):
    name = "steady state of RankFilter"
    con, rst = simple_filters.RankFilter, fir_filter.Reset
    kinds = "f"

    def subject(self, I, k, N):
        index = z3.Int("index")
        I.ctx.assume(z3.And(0 <= index, index < N))
        return sym_obj(I, "RankFilter", {"b": sym_arr(I, "b", (N,), k), "s": sym_arr(I, "s0", (N,), k), "index": Num("i", index)})

    def gain(self, I, o, k, N):
        return lift(1).to(k)


class IirSteady(Steady):
    name = "steady state of IirFilter with unity gain"
    con, rst = iir_filter.Filter, iir_filter.Reset

    def subject(self, I, k, N):
        return sym_obj(I, "IirFilter", {n: sym_arr(I, n, (N,), k) for n in "abs"})

    def gain(self, I, o, k, N):
        a, b = I.snap(get(I, o, "a")), I.snap(get(I, o, "b"))
        A, B = T.num_sum(N, a, k), T.num_sum(N, b, k)
        for f in same(B, lift(1).to(k) - A):  # unity gain
            I.ctx.assume(zb(f))
        I.ctx.assume(z3.Not(zb(b_and(*same(A, lift(1).to(k))))))  # stable at zero frequency
        self.parts = a, b, A, B
        return lift(1).to(k)

    def before(self, I, o, k, N, n, x, v):
        ctx = I.ctx
        a, b, A, B = self.parts
        one = lift(1).to(k)
        s, _, _, u, g, h = self.rst().parts(I, {"self": o})
        split = HeadSplit(I, k)
        tails = []
        for f in (a, b):
            split.at(f, N - 1)
        T1 = T.num_sum(N - 1, lambda i: a(r_add(i, 1)), k)
        T2 = T.num_sum(N - 1, lambda i: b(r_add(i, 1)), k)
        equal(I, "feedback", A, T1)
        ctx.assume(zb(b_and(*same(A, T1))))
        equal(I, "feedforward", B, b(0) + T2)
        ctx.assume(zb(b_and(*same(B, b(0) + T2))))
        w = sym_num("w", k)
        # the steady state of the recursion
        for f in same(w * (one - A), x):
            ctx.assume(zb(f))
        sf = I.snap(s)
        i = T.fresh_int("i")
        with Hyps(I, 1 <= i, i < N):
            self.retained(I, k, sf(i), x, w, A, b(0), u, g, h, T1, T2)
        # the retained state is this, element by element
        set_cell(I, s, lambda i: num_ite(r_eq(i, 0), x, w))
        sf, zero = I.snap(s), lift(0).to(k)
        aS, xS, sS = reify(N, a, k), reify(n, lambda i: x, k), reify(N, sf, k)
        W = lambda m: iir_filter.WF[k](aS, xS, sS, m)  # noqa

        def step(m):
            fed = lambda i: a(i) * num_ite(r_eq(i, 0), zero, W(r_sub(m, i)))  # noqa
            acc = T.num_sum(N, fed, k)
            flat = T.num_sum(N, lambda i: a(i) * w, k)
            termwise(I, "feedback of the recursion", N, fed, lambda i: a(i) * w, k)
            full = num_ite(m >= -1, x + acc, w)
            equal(I, "recursion", W(m), full)
            now = W(m)
            for c, (p, q) in enumerate(zip(parts(now), parts(w))):
                by(I, f"steady {c}", r_eq(p, q), *[zb(f) for f in same(now, full) + same(acc, flat) + same(flat, A * w) + same(w * (one - A), x)])

        first = z3.And(*[zb(f) for f in same(a(0), zero)])
        ctx.oblige("leading coefficient", first)
        # every earlier value being w, so is the next one
        induct(I, "recursion", -N, n - 1, lambda m: same(W(m), w), lambda m: parts(W(m)), step)
        self.w, self.W, self.A, self.B = w, W, A, B
        self.b, self.N, self.k = b, N, k

    def retained(self, I, k, now, x, w, A, b0, u, g, h, T1, T2):
        """The value reset chooses is w, as both solve the same equation."""
        ctx, one = I.ctx, lift(1).to(k)
        undetermined = ctx.branch(self.rst().undetermined(k, u, g))
        p, d = (x, h) if undetermined else (x * u, g)
        q = p / d
        equal(I, "reset", now, q)
        D, P, Q, w1 = [sym_num(n, k) for n in ("divisor", "dividend", "quotient", "w")]
        nz = z3.Not(zb(b_and(*same(D, lift(0).to(k)))))
        both = [nz] + [zb(f) for f in same(Q, P / D)]
        with Hyps(I, *both, *same(w1 * D, P)):
            for c, (e, f) in enumerate(zip(parts(w1 * D), parts(Q * D))):
                by(I, f"quotient {c}", r_eq(e, f), *both, *[zb(f) for f in same(w1 * D, P)])
            for c, (e, f) in enumerate(zip(parts(w1), parts(Q))):
                by(I, f"unique {c}", r_eq(e, f), nz, *[zb(f) for f in same(w1 * D, Q * D)])
        # so it remains that w times the divisor is the dividend
        gains = [zb(f) for f in same(A, T1) + same(self.parts[3], b0 + T2) + same(self.parts[3], one - A)]
        if not undetermined:
            for c, (e, f) in enumerate(zip(parts(g), parts((one - A) * u))):
                by(I, f"gain {c}", r_eq(e, f), *gains)
            for c, (e, f) in enumerate(zip(parts(w * g), parts(w * (one - A) * u))):
                by(I, f"product {c}", r_eq(e, f), *[zb(f) for f in same(g, (one - A) * u)])
            for c, (e, f) in enumerate(zip(parts(w * (one - A) * u), parts(x * u))):
                by(I, f"dividend {c}", r_eq(e, f), *[zb(f) for f in same(w * (one - A), x)])
        for c, (e, f) in enumerate(zip(parts(w * d), parts(p))):
            ctx.oblige(f"equation {c}", r_eq(e, f), assume=False)
        ctx.oblige("divisor", z3.Not(zb(b_and(*same(d, lift(0).to(k))))), assume=False)
        # the general fact for these numbers
        for f in same(w, q):
            ctx.assume(z3.Implies(z3.And(*[zb(e) for e in same(w * d, p)], z3.Not(zb(b_and(*same(d, lift(0).to(k)))))), zb(f)))
        for c, (e, f) in enumerate(zip(parts(now), parts(w))):
            ctx.oblige(f"retained {c}", r_eq(e, f), assume=False)

    def output(self, I, y, x, gain, j):
        k, w, one = self.k, self.w, lift(1).to(self.k)
        flat = T.num_sum(self.N, lambda i: self.b(i) * w, k)
        termwise(I, "output sum", self.N, lambda i: self.b(i) * self.W(r_sub(j, i)), lambda i: self.b(i) * w, k)
        equal(I, "output", y, flat)
        for c, (p, q) in enumerate(zip(parts(y), parts(x))):
            by(I, f"output {c}", r_eq(p, q), *[zb(f) for f in same(y, flat) + same(flat, self.B * w) + same(self.B, one - self.A) + same(w * (one - self.A), x)])
