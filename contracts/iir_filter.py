"""IirFilter: direct form II.  W(m) = x(m) + sum_{i>=1} a(i) W(m-i), y(m) = sum b(i) W(m-i)."""

from pycv.std import *  # noqa
from pycv.std import T


def _defn(kind):
    def defn(aS, xS, sS, m):
        a, x, s = seq_num(aS), seq_num(xS), seq_num(sS)
        N = T.seq_inst(aS)[0][0]
        X = num_ite(m >= 0, x(m), s(0))
        W = WF[kind]
        acc = T.num_sum(N, lambda i: a(i) * num_ite(r_eq(i, 0), lift(0).to(kind), W(aS, xS, sS, r_sub(m, i))), kind)
        v = num_ite(m >= -1, X + acc, s(r_sub(-1, m)))
        return [v.re] if kind == "f" else [v.re, v.im]

    return defn


WF = {
    "f": RecFn("iirW", [T.SEQ, T.SEQ, T.SEQ, T.INT], _defn("f"), 1),
    "c": RecFn("iirWc", [T.SEQ, T.SEQ, T.SEQ, T.INT], _defn("c"), 2),
}


def closed(N, n, kb, af, bf, s0, xf):
    aS, xS, sS = reify(N, af, kb), reify(n, xf, kb), reify(N, s0, kb)
    W = lambda m: WF[kb](aS, xS, sS, m)  # noqa
    X = lambda m: num_ite(r_le(0, m), xf(m).to(kb), s0(0))  # noqa
    state = lambda k: (lambda i: num_ite(r_eq(i, 0), X(r_sub(k, 1)), W(r_sub(r_sub(k, 1), i))))  # noqa
    y = lambda j: T.num_sum(N, lambda i: bf(i) * W(r_sub(j, i)), kb)  # noqa
    return W, X, state, y


class Filter(Contract):
    qual = "IirFilter.filter"
    modulename = "diamondback.filters.iir_filter"
    cls = "IirFilter"
    opt = AxiomOptions(unfold=2, rounds=4, timeout=30000)

    def configs(self):
        out = {}
        for kb, kx, form in (("f", "f", "array"), ("c", "f", "array"), ("c", "c", "array"), ("f", "f", "list")):

            def setup(I, kb=kb, kx=kx, form=form):
                N, n = z3.Int("N"), z3.Int("n")
                I.ctx.assume(z3.And(N >= 1, n >= 0))
                a, b, s = sym_arr(I, "a", (N,), kb), sym_arr(I, "b", (N,), kb), sym_arr(I, "s0", (N,), kb)
                return [sym_obj(I, self.cls, {"a": a, "b": b, "s": s}), signal(I, "x", n, kx, form)], {}

            out[f"coefficients:{kb},x:{kx} {form}"] = setup
        return out

    def pre(self, I, env):
        a = get(I, env["self"], "a")
        b = get(I, env["self"], "b")
        s = get(I, env["self"], "s")
        z = I.at(a, 0)
        return [
            ("a0", num_eq_formula(z, lift(0))),
            ("lengths", b_and(r_eq(length(I, a), length(I, b)), r_eq(length(I, s), length(I, b)), r_le(1, length(I, b)))),
        ]

    def parts(self, I, env):
        o = env["self"]
        a, b, s = get(I, o, "a"), get(I, o, "b"), get(I, o, "s")
        n, xf, kx, _ = arg_seq(I, env["x"])
        return length(I, b), n, I.kind(b), I.snap(a), I.snap(b), I.snap(s), xf, s

    def spec(self, I, env):
        N, n, kb, af, bf, s0, xf, s = self.parts(I, env)
        if I.ctx.branch(r_eq(n, 0)):
            raise_("ValueError")
        W, X, state, y = closed(N, n, kb, af, bf, s0, xf)
        set_cell(I, s, state(n))
        return I.new((n,), kb, y)

    def loops(self, I, env):
        N, n, kb, af, bf, s0, xf, s = self.parts(I, env)
        W, X, state, y = closed(N, n, kb, af, bf, s0, xf)
        zero = lift(0).to(kb)

        def forms(I, k):
            return {
                "s": ArrForm((N,), kb, state(k)),
                "y": ArrForm((n,), kb, lambda j: num_ite(r_lt(j, k), y(j), zero)),
            }

        return [LoopSpec("samples", forms, {"s": ("self", "s")})]


from contracts.fir_filter import Delay as FirDelay, Response as FirResponse, STYLES, alternating, axis, coefficient_arg, padded  # noqa: E402


class Init(Contract):
    """Explicit coefficients: a, b and s padded to a common length and copied; a(0) must be zero."""

    qual = "IirFilter.__init__"
    modulename = "diamondback.filters.iir_filter"
    cls = "IirFilter"

    def configs(self):
        out = {}
        for ka, kb, ks, form in (("f", "f", "f", "array"), ("c", "c", "c", "array"), ("c", "f", None, "array"), ("f", "c", "f", "list"), ("f", "f", None, "list")):

            def setup(I, ka=ka, kb=kb, ks=ks, form=form):
                N, P, M = z3.Int("N"), z3.Int("P"), z3.Int("M")
                I.ctx.assume(z3.And(N >= 1, P >= 1, M >= 0))
                kw = {"a": coefficient_arg(I, "a", P, ka, form), "b": coefficient_arg(I, "b", N, kb, form)}
                if ks:
                    kw["s"] = coefficient_arg(I, "s", M, ks, form)
                return [sym_obj(I, self.cls, {})], kw

            out[f"a:{ka} b:{kb} s:{ks} {form}"] = setup
        return out

    def applicable(self, I, f, args, kw):
        return kw.get("a") is not None and kw.get("b") is not None

    def pre(self, I, env):
        a, b = env["a"], env["b"]
        if a is None or b is None:
            return [("coefficients", False)]
        return [("coefficients", b_and(r_lt(0, arg_seq(I, a)[0]), r_lt(0, arg_seq(I, b)[0])))]

    def spec(self, I, env):
        P, af, ka, _ = arg_seq(I, env["a"])
        N, bf, kb, _ = arg_seq(I, env["b"])
        M, sf = (0, None) if env["s"] is None else arg_seq(I, env["s"])[:2]
        if I.ctx.branch(b_not(num_eq_formula(af(0), lift(0).to(ka)))):
            raise_("ValueError")
        k = "c" if "c" in (ka, kb) else "f"
        L = I.ctx.rmax(I.ctx.rmax(N, P), M)
        put(I, env["self"], "a", I.new((L,), k, padded(L, P, af, k)))
        put(I, env["self"], "b", I.new((L,), k, padded(L, N, bf, k)))
        put(I, env["self"], "s", I.new((L,), k, padded(L, M, sf, k) if sf else (lambda i: lift(0).to(k))))
        return None


class Reset(Contract):
    """The newest state is x; the others take the value for which the next output repeats x,
    or where that is undetermined (0 / 0) their steady state."""

    qual = "IirFilter.reset"
    modulename = "diamondback.filters.iir_filter"
    cls = "IirFilter"

    def configs(self):
        def setup(k, x):
            def f(I):
                N = z3.Int("N")
                I.ctx.assume(N >= 1)
                return [sym_obj(I, self.cls, {n: sym_arr(I, n, (N,), k) for n in ("a", "b", "s")}), x(I)], {}

            return f

        num = lambda k: (lambda I: sym_num("x", k))  # noqa
        return {
            "real": setup("f", num("f")), "complex": setup("c", num("c")), "mixed": setup("c", num("f")), "integer": setup("f", num("i")),
            "array": setup("f", lambda I: sym_arr(I, "x", (z3.Int("K"),))), "list": setup("f", lambda I: sym_list(I, "x", z3.Int("K"))),
        }

    def parts(self, I, env):
        o = env["self"]
        a, b, s = [get(I, o, n) for n in "abs"]
        N, k = length(I, b), I.kind(b)
        af, bf = I.snap(a), I.snap(b)
        one = lift(1).to(k)
        g = T.num_sum(r_sub(N, 1), lambda i: af(r_add(i, 1)) * bf(0) + bf(r_add(i, 1)), k)
        h = one - T.num_sum(r_sub(N, 1), lambda i: af(r_add(i, 1)), k)
        return s, N, k, one - bf(0), g, h

    def undetermined(self, k, u, g):
        from pycv.lib import isclose_raw

        return b_and(isclose_raw(u, lift(0).to(k)), isclose_raw(g, lift(0).to(k)))

    def pre(self, I, env):
        if not isinstance(env["x"], Num):
            return []
        s, N, k, u, g, h = self.parts(I, env)
        zero = lift(0).to(k)
        q = self.undetermined(k, u, g)
        return [("solvable", b_or(r_eq(N, 1), b_and(b_not(q), b_not(num_eq_formula(g, zero))), b_and(q, b_not(num_eq_formula(h, zero)))))]

    def spec(self, I, env):
        if not isinstance(env["x"], Num):
            raise_("ValueError")
        s, N, k, u, g, h = self.parts(I, env)
        x = env["x"].to(k)
        if I.ctx.branch(r_eq(N, 1)):
            set_cell(I, s, lambda i: x)
            return None
        w = x / h if I.ctx.branch(self.undetermined(k, u, g)) else x * u / g
        set_cell(I, s, lambda i: num_ite(r_eq(i, 0), x, w))
        return None


def recursive_seq(I, a):
    from pycv.lib import cseq

    af = I.snap(a)
    return cseq(length(I, a), lambda i: num_ite(r_eq(i, 0), lift(1).to(I.kind(a)), -af(i)))


class Response(FirResponse):
    """y(i) is B / (1 - A) at f(i), to the power count."""

    qual = "IirFilter.response"
    modulename = "diamondback.filters.iir_filter"
    cls = "IirFilter"

    def obj(self, I, N, k):
        return sym_obj(I, "IirFilter", {n: sym_arr(I, n, (N,), k) for n in ("a", "b", "s")})

    def coefficients(self, I, env):
        from pycv.lib import cseq

        a, b = get(I, env["self"], "a"), get(I, env["self"], "b")
        return cseq(length(I, b), I.snap(b)), recursive_seq(I, a)


class Roots(Contract):
    """Zeros and poles are the roots of b and of 1 - a, repeated per instance, in order of magnitude."""

    qual = "IirFilter.roots"
    modulename = "diamondback.filters.iir_filter"

    def configs(self):
        def setup(k):
            def f(I):
                N, c = z3.Int("N"), z3.Int("count")
                I.ctx.assume(z3.And(N >= 1, c >= 1))
                return [sym_obj(I, "IirFilter", {n: sym_arr(I, n, (N,), k) for n in ("a", "b", "s")}), Num("i", c)], {}

            return f

        return {"real": setup("f"), "complex": setup("c")}

    def spec(self, I, env):
        from contracts.fir_filter import z_sorted
        from pycv.lib import FNS

        a, b = get(I, env["self"], "a"), get(I, env["self"], "b")
        af, k = I.snap(a), I.kind(a)
        c = env["count"]
        d = I.new((length(I, a),), k, lambda i: num_ite(r_eq(i, 0), lift(1).to(k), -af(i)))
        z = FNS["numpy.tile"](I, FNS["numpy.roots"](I, b), c)
        p = FNS["numpy.tile"](I, FNS["numpy.roots"](I, d), c)
        return z_sorted(I, p), z_sorted(I, z)
