"""GoertzelFilter: one value per complete window of M samples.

Position x = i0 + k of sample k splits as M Q(x) + R(x).  The direct form II state
runs over u(k) = gain w(R) x(k) and is cleared when a window is complete; output j
is read at the last sample of window j."""

from contracts.exponential import cis
from contracts.fir_filter import coefficient_arg
from contracts.simple_filters import Setter
from pycv.contract import Lemma
from pycv.std import *  # noqa
from pycv.std import T

Q_ = z3.Function("window.number", T.INT, T.INT, T.INT)
R_I = z3.Function("window.index", T.INT, T.INT, T.INT)
LAST = z3.Function("window.last", T.INT, T.INT, T.INT)  # LAST(j, M) = M j + M - 1


@T.schema("window.number")
def _ax_number(q, x, m):
    r = R_I(x, m)
    return [z3.Implies(z3.And(m > 0, r + 1 >= m), LAST(q, m) == x), z3.Implies(m > 0, z3.And(x == m * q + r, 0 <= r, r < m)), z3.Implies(z3.And(0 <= x, x < m), z3.And(q == 0, r == x)), z3.Implies(z3.And(m > 0, x >= 0), q >= 0)]


@T.schema("window.index")
def _ax_index(r, x, m):
    return [r == R_I(x, m), Q_(x, m) == Q_(x, m), z3.Implies(m > 0, z3.And(x == m * Q_(x, m) + r, 0 <= r, r < m)), z3.Implies(z3.And(0 <= x, x < m), r == x)]


def _next(p, q):
    x, m = p.arg(0), p.arg(1)
    y, n = q.arg(0), q.arg(1)
    if T.poly_add(T.poly_of(y), T.poly_scale(T.poly_of(x), -1)) != {(): 1}:
        return None  # instances for arguments that are not literally successive are left out
    up = R_I(x, m) + 1 >= m
    return z3.Implies(
        z3.And(m == n, m > 0, y == x + 1),
        z3.And(R_I(y, m) == z3.If(up, 0, R_I(x, m) + 1), Q_(y, m) == z3.If(up, Q_(x, m) + 1, Q_(x, m)), m * Q_(y, m) == z3.If(up, m * Q_(x, m) + m, m * Q_(x, m))),
    )


@T.pair_schema("window.index")
def _ax_next(p, q):
    return [_next(p, q), _next(q, p)]


@T.pair_schema("window.number")
def _ax_order(p, q):
    x, m, y, n = p.arg(0), p.arg(1), q.arg(0), q.arg(1)
    same = z3.And(m == n, m > 0)
    return [_next(p, q), _next(q, p), z3.Implies(z3.And(same, x <= y), p <= q), z3.Implies(z3.And(same, y <= x), q <= p)]


def _last(a):
    q, m = a.arg(0), a.arg(1)
    if z3.is_app(q) and q.decl().name() == "window.number" and q.arg(1).eq(m):
        return [(z3.And(m > 0, R_I(q.arg(0), m) + 1 >= m), q.arg(0))]
    return []


T.RULES["window.last"] = [_last]


class Recursion:
    """The state sequences over the samples, from the coefficients, the retained state and the index."""

    def __init__(self, aS, vS, sS, i0, M):
        self.args = (aS, vS, sS, i0, M)
        self.a, self.v, self.s, self.i0, self.M = seq_num(aS), seq_num(vS), seq_num(sS), i0, M

    def first(self, k):
        return r_eq(R_I(zi(r_add(self.i0, k)), zi(self.M)), 0)

    def S0(self, k):
        z = lift(0).to("c")
        return num_ite(r_le(k, 0), self.s(0), num_ite(self.first(k), z, self.v(r_sub(k, 1))))

    def S1(self, k):
        return S1(*self.args, k)

    def S2(self, k):
        z = lift(0).to("c")
        return num_ite(r_le(k, 0), self.s(2), num_ite(self.first(k), z, self.S1(r_sub(k, 1))))

    def newest(self, k):
        """W(k - 1), which enters the state at sample k"""
        return self.S0(k) + self.a(1) * self.S1(k) + self.a(2) * self.S2(k)

    def defn(self, k):
        z = lift(0).to("c")
        p = r_sub(k, 1)
        return num_ite(r_le(k, 0), self.s(1), num_ite(self.first(k), z, self.newest(p)))

    def out(self, b, k):
        p, q = self.newest(k), self.S1(k)
        return b(0) * (self.v(k) + self.a(1) * p + self.a(2) * q) + b(1) * p + b(2) * q


def _s1(aS, vS, sS, i0, M, k):
    r = Recursion(aS, vS, sS, i0, M).defn(k)
    return [r.re, r.im]


def _out(aS, bS, vS, sS, i0, M, k):
    r = Recursion(aS, vS, sS, i0, M).out(seq_num(bS), k)
    return [r.re, r.im]


S1 = RecFn("goertzel", [T.SEQ, T.SEQ, T.SEQ, T.INT, T.INT, T.INT], _s1, 2)
OUT = RecFn("goertzel.out", [T.SEQ, T.SEQ, T.SEQ, T.SEQ, T.INT, T.INT, T.INT], _out, 2)


class Filter(Contract):
    qual = "GoertzelFilter.filter"
    modulename = "diamondback.filters.goertzel_filter"
    cls = "GoertzelFilter"
    opt = AxiomOptions(unfold=2, rounds=4, timeout=30000)

    def configs(self):
        def setup(kw, kx, form):
            def f(I):
                n, M, i0 = z3.Int("n"), z3.Int("M"), z3.Int("i0")
                I.ctx.assume(z3.And(n >= 0, M >= 1))
                o = sym_obj(I, self.cls, {"a": sym_arr(I, "a", (3,), "c"), "b": sym_arr(I, "b", (3,), "c"), "s": sym_arr(I, "s0", (3,), "c"), "frequency": sym_num("frequency")})
                f = I.heap.objs[o.oid].fields
                f["_index"] = Num("i", i0)
                f["_w"] = sym_arr(I, "w", (M,), kw)
                return [o, signal(I, "x", n, kx, form)], {}

            return f

        return {"real": setup("f", "f", "array"), "real list": setup("f", "f", "list"), "complex": setup("f", "c", "array"), "complex window": setup("c", "c", "array")}

    def pre(self, I, env):
        f = I.heap.objs[env["self"].oid].fields
        i0, M = f["_index"].re, length(I, f["_w"])
        return [
            ("index", b_and(r_le(0, i0), r_lt(i0, M))),
            ("a0", num_eq_formula(I.at(get(I, env["self"], "a"), 0), lift(0))),
            ("lengths", b_and(*[r_eq(length(I, get(I, env["self"], c)), 3) for c in "abs"])),
        ]

    def parts(self, I, env):
        o = env["self"]
        f = I.heap.objs[o.oid].fields
        i0, w = f["_index"].re, f["_w"]
        M, wf = length(I, w), I.snap(w)
        n, xf, kx, _ = arg_seq(I, env["x"])
        a, b, s = [I.snap(get(I, o, c)) for c in "abs"]
        u = Num("f", T.r_div(1 if kx == "c" else 2, M))
        R = lambda k: R_I(zi(r_add(i0, k)), zi(M))  # noqa
        v = lambda k: u * wf(R(k)) * xf(k).to("c")  # noqa
        rec = Recursion(reify(3, a, "c"), reify(n, v, "c"), reify(3, s, "c"), zi(i0), zi(M))
        rec.v = v
        Q = lambda k: Q_(zi(r_add(i0, k)), zi(M))  # noqa
        last = lambda j: r_sub(LAST(zi(j), zi(M)), i0)  # noqa
        aS, vS, sS = rec.args[:3]
        bS = reify(3, b, "c")
        y = lambda j: OUT(aS, bS, vS, sS, i0, M, last(j))  # noqa
        state = lambda k: (lambda i: I.select([rec.S0(k), rec.S1(k), rec.S2(k)], i))  # noqa
        self.rec, self.args, self.last = rec, (aS, bS, vS, sS, i0, M), last
        return f, n, M, R, Q, y, state, get(I, o, "s")

    def spec(self, I, env):
        f, n, M, R, Q, y, state, s = self.parts(I, env)
        if I.ctx.branch(r_eq(n, 0)):
            raise_("ValueError")
        set_cell(I, s, state(n))
        f["_index"] = Num("i", R(n))
        return I.new((Q(n),), "c", y)

    def loops(self, I, env):
        f, n, M, R, Q, y, state, s = self.parts(I, env)
        z = lift(0).to("c")

        def forms(I, k):
            return {
                "s": ArrForm((3,), "c", state(k)),
                "index": Num("i", R(k)),
                "count": Num("i", Q(k)),
                "y": ArrForm(None, "c", lambda j: num_ite(r_lt(j, Q(k)), y(j), z)),
            }

        return [LoopSpec("samples", forms, {"s": ("self", "s"), "index": ("self", "index")})]


def tune(f):
    """(a, b) at the normalised frequency f"""
    z, one = lift(0).to("c"), lift(1).to("c")
    c = Num("f", T.cos_(r_mul(T.PI, zr(f.re))))
    e = T.num_exp(Num("c", lift(0).to("f").re, r_mul(r_mul(-1, T.PI), zr(f.re))))
    return [z, (lift(2).to("f") * c).to("c"), -one], [one, -e, z]


class Init(Contract):
    """Resonator coefficients of the frequency, zero state, position zero, and a copy of the window."""

    qual = "GoertzelFilter.__init__"
    modulename = "diamondback.filters.goertzel_filter"
    cls = "GoertzelFilter"

    def configs(self):
        def setup(kb, form, kf):
            def f(I):
                N = z3.Int("N")
                I.ctx.assume(N >= 0)
                return [sym_obj(I, self.cls, {})], {"b": coefficient_arg(I, "b", N, kb, form), "frequency": sym_num("frequency", kf)}

            return f

        return {"real": setup("f", "array", "f"), "complex": setup("c", "array", "f"), "list": setup("f", "list", "i"), "integer": setup("i", "array", "f")}

    def spec(self, I, env):
        from pycv.lib import any_of, isclose_raw

        N, bf, kb, _ = arg_seq(I, env["b"])
        f = env["frequency"]
        zero = b_not(any_of(N, lambda i: b_not(isclose_raw(bf(i), lift(0).to(kb)))))
        if I.ctx.branch(b_or(r_eq(N, 0), zero, r_lt(f.re, -1), r_lt(1, f.re))):
            raise_("ValueError")
        a, b = tune(f.to("f"))
        o = env["self"]
        put(I, o, "a", I.new((3,), "c", lambda i: I.select(a, i)))
        put(I, o, "b", I.new((3,), "c", lambda i: I.select(b, i)))
        put(I, o, "s", I.new((3,), "c", lambda i: lift(0).to("c")))
        put(I, o, "frequency", f)
        g = I.heap.objs[o.oid].fields
        g["_index"] = lift(0)
        g["_w"] = I.new((N,), kb, bf)
        return None


class Frequency(Setter):
    """Retunes the coefficients; the state, the window and the position stay."""

    qual = "GoertzelFilter.frequency.setter"
    modulename = "diamondback.filters.goertzel_filter"
    cls = "GoertzelFilter"
    field, lo, hi = "frequency", -1, 1

    def state(self, I):
        old = sym_num("old")
        a, b = tune(old)
        mk = lambda v: I.new((3,), "c", lambda i: I.select(v, i))  # noqa
        I.ctx.assume(z3.Int("i0") >= 0)
        return {"a": mk(a), "b": mk(b), "s": sym_arr(I, "s0", (3,), "c"), "frequency": old, "index": Num("i", z3.Int("i0")), "w": sym_arr(I, "w", (z3.Int("M"),))}

    def changed(self, I, env, v):
        o = env["self"]
        a, b = tune(v.to("f"))
        set_cell(I, get(I, o, "a"), lambda i: I.select(a, i))
        set_cell(I, get(I, o, "b"), lambda i: I.select(b, i))
        put(I, o, "frequency", v)


def _power(c, s, j):
    p = Num("c", c, s) * POWER(c, s, r_sub(j, 1))
    r = num_ite(r_le(j, 0), lift(1).to("c"), p)
    return [r.re, r.im]


POWER = RecFn("power", [T.REAL, T.REAL, T.INT], _power, 2)


class Fourier(Lemma):
    """With the coefficients of a frequency and a cleared state, the value after sample m of a
    window is sum over t <= m of exp(i pi f (m - t)) u(t), by induction over m."""

    name = "Goertzel value is the Fourier sum of the window"
    modules = ("diamondback.filters.goertzel_filter",)
    opt = AxiomOptions(unfold=2, rounds=4, timeout=30000, split=True)

    def run(self, I):
        from contracts.streams import by

        ctx = I.ctx
        n, M, i0, p, m = z3.Ints("n M i0 p m")
        f = sym_num("frequency")
        a, b = tune(f)
        v, s = sym_fn("v", "c", 1), sym_fn("s0", "c", 1)
        sel = lambda x: (lambda i: I.select(x, i))  # noqa
        aS, bS, vS, sS = reify(3, sel(a), "c"), reify(3, sel(b), "c"), reify(n, v, "c"), reify(3, s, "c")
        rec = Recursion(aS, vS, sS, i0, M)
        rec.a, rec.v = (lambda i: a[i]), v
        out = lambda k: rec.out(lambda i: b[i], k)  # noqa
        e = cis(f)
        ctx.assume(z3.And(M >= 1, 0 <= i0, i0 < M, p >= 0, m >= 0, m + 1 < M))
        ctx.assume(R_I(i0 + p, M) == 0)  # p starts a window
        ctx.assume(R_I(i0 + p + m + 1, M) == m + 1)
        ctx.assume(z3.Or(p > 0, z3.And(*[num_eq_formula(s(i), lift(0).to("c")) for i in range(3)])))

        def eq(name, x, y):
            ctx.oblige(name + ":re", r_eq(x.re, y.re))
            ctx.oblige(name + ":im", r_eq(x.im, y.im))

        def name(label, x):
            """A fresh name for a value."""
            y = sym_num(label, "c")
            ctx.assume(num_eq_formula(y, x))
            return y

        def value(u, P, Q):
            return b[0] * (u + a[1] * P + a[2] * Q) + b[1] * P + b[2] * Q

        eq("first", out(p), v(p))
        k = p + m + 1
        # W(k - 2), W(k - 3) and W(k - 1) in terms of the recursion
        W2, W3 = sym_num("W2", "c"), sym_num("W3", "c")
        ctx.assume(num_eq_formula(W3, rec.S1(k - 1)))
        ctx.assume(num_eq_formula(W2, rec.newest(k - 1)))
        eq("state1", rec.S1(k), W2)
        eq("state2", rec.S2(k), W3)
        eq("state0", rec.S0(k), v(k - 1))
        W1 = v(k - 1) + a[1] * W2 + a[2] * W3
        now, before = sym_num("now", "c"), sym_num("before", "c")
        eq("next", value(v(k), W1, W2), v(k) + e * value(v(k - 1), W2, W3))
        # closed form
        E = lambda j: POWER(zr(e.re), zr(e.im), j)  # noqa
        G, linear = {}, []
        for part in ("re", "im"):
            G[part, 0], f0 = raw_sum(m + 1, lambda t: getattr(E(m - t) * v(p + t), part))
            G[part, 1], f1 = raw_sum(m + 2, lambda t: getattr(E(m + 1 - t) * v(p + t), part))
            G[part, 2], f2 = raw_sum(m + 1, lambda t: getattr(e * E(m - t) * v(p + t), part))
            ctx.oblige("last term:" + part, r_eq(G[part, 1], r_add(G[part, 2], getattr(E(0) * v(k), part))))
            for x in (f0, f2):
                ctx.assume(x)
                linear.append(x)
        then = Num("c", G["re", 1], G["im", 1])
        linear.append(num_eq_formula(before, Num("c", G["re", 0], G["im", 0])))  # the induction hypothesis
        ctx.assume(linear[-1])
        eq("base", v(p), E(0) * v(p))
        eq("zeroth power", E(0), lift(1).to("c"))
        x, y = e * before, Num("c", G["re", 2], G["im", 2])
        by(I, "sum:re", r_eq(x.re, y.re), *linear)
        by(I, "sum:im", r_eq(x.im, y.im), *linear)
        eq("step", v(k) + Num("c", G["re", 2], G["im", 2]), then)
