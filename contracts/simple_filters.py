"""PidFilter, RankFilter, WindowFilter, ComplexExponentialFilter."""

from fractions import Fraction

from pycv.std import *  # noqa
from pycv.std import T


def to_signal(I, env):
    n, xf, k, rank = arg_seq(I, env["x"])
    return n, xf, k


class PidFilter(Contract):
    """P = x(k), D = x(k) - x(k-1), I = running sum of the samples that keep |I| < limit."""

    qual = "PidFilter.filter"
    modulename = "diamondback.filters.pid_filter"

    def configs(self):
        out = {}
        for form in ("array", "list"):
            for lim in ("finite", "infinite"):

                def setup(I, form=form, lim=lim):
                    n = z3.Int("n")
                    I.ctx.assume(n >= 0)
                    L = sym_num("limit") if lim == "finite" else Num("f", T.Inf(1))
                    b, s = sym_arr(I, "b", (3,)), sym_arr(I, "s0", (3,))
                    return [sym_obj(I, "PidFilter", {"b": b, "s": s, "limit": L}), signal(I, "x", n, "f", form)], {}

                out[f"{form},{lim} limit"] = setup
        return out

    def closed(self, I, env):
        o = env["self"]
        bf, s0 = I.snap(get(I, o, "b")), I.snap(get(I, o, "s"))
        L = get(I, o, "limit")
        n, xf, k = to_signal(I, env)
        xS, sS = reify(n, xf, "f"), reify(3, s0, "f")
        inf = L.inf
        lim = zr(0) if inf else zr(L.re)
        rf = PI["inf" if inf else "fin"]
        acc = lambda m: rf(xS, sS, lim, m)  # noqa
        prev = lambda m: num_ite(r_le(1, m), xf(r_sub(m, 1)).to("f"), s0(0))  # noqa

        def state(m):  # after m samples
            d = num_ite(r_le(1, m), xf(r_sub(m, 1)).to("f") - prev(r_sub(m, 1)), s0(2))
            vals = [prev(m), acc(m), d]
            return lambda i: vals[i] if not is_z(i) else num_ite(r_eq(i, 0), vals[0], num_ite(r_eq(i, 1), vals[1], vals[2]))

        y = lambda j: bf(0) * xf(j).to("f") + bf(1) * acc(r_add(j, 1)) + bf(2) * (xf(j).to("f") - prev(j))  # noqa
        return n, state, y

    def spec(self, I, env):
        n, state, y = self.closed(I, env)
        if I.ctx.branch(r_eq(n, 0)):
            raise_("ValueError")
        set_cell(I, get(I, env["self"], "s"), state(n))
        return I.new((n,), "f", y)

    def loops(self, I, env):
        n, state, y = self.closed(I, env)

        def forms(I, k):
            return {"s": ArrForm((3,), "f", state(k)), "y": ArrForm((n,), "f", lambda j: num_ite(r_lt(j, k), y(j), lift(0).to("f")))}

        return [LoopSpec("samples", forms, {"s": ("self", "s")})]


def _pi(inf):
    def defn(xS, sS, L, m):
        x, s = seq_num(xS), seq_num(sS)
        me = PI["inf" if inf else "fin"]
        p = me(xS, sS, L, r_sub(m, 1))
        t = p + x(r_sub(m, 1))
        v = t if inf else num_ite(r_lt(T.num_abs(t).re, L), t, p)
        return [num_ite(r_le(m, 0), s(1), v).re]

    return defn


PI = {k: RecFn("pidI" + k, [T.SEQ, T.SEQ, T.REAL, T.INT], _pi(k == "inf"), 1) for k in ("inf", "fin")}


class RankFilter(Contract):
    """y(j) is the index-th smallest by magnitude of the last order+1 samples."""

    qual = "RankFilter.filter"
    modulename = "diamondback.filters.rank_filter"

    def configs(self):
        out = {}
        for k in "fc":
            def setup(I, k=k):
                N, n, index = z3.Int("N"), z3.Int("n"), z3.Int("index")
                I.ctx.assume(z3.And(N >= 1, n >= 0, 0 <= index, index < N))
                s = sym_arr(I, "s0", (N,), "f")
                b = sym_arr(I, "b", (N,), "f")
                return [sym_obj(I, "RankFilter", {"b": b, "s": s, "index": Num("i", index)}), signal(I, "x", n, "f", "array" if k == "f" else "list")], {}

            out["array" if k == "f" else "list"] = setup
        return out

    def closed(self, I, env):
        o = env["self"]
        s = get(I, o, "s")
        s0 = I.snap(s)
        N = length(I, s)
        index = get(I, o, "index").re
        n, xf, k = to_signal(I, env)
        x = lambda m: xf(m).to("f")  # noqa
        # window seen at sample j: position 0 newest; the state between samples repeats the newest
        def window(j):
            return lambda i: num_ite(r_le(i, j), x(r_sub(j, i)), s0(r_sub(i, j)))

        def state(m):
            def f(i):
                after = num_ite(r_eq(i, 0), window(r_sub(m, 1))(0), window(r_sub(m, 1))(r_sub(i, 1)))
                return num_ite(r_eq(m, 0), s0(i), after)
            return f

        from pycv.lib import argsort_fn

        def y(j):
            w = window(j)
            at = argsort_fn(N, lambda i: T.num_abs(w(i)))
            return w(at(index).re)

        return s, N, n, state, y

    def spec(self, I, env):
        s, N, n, state, y = self.closed(I, env)
        if I.ctx.branch(r_eq(n, 0)):
            raise_("ValueError")
        set_cell(I, s, state(n))
        return I.new((n,), "f", y)

    def loops(self, I, env):
        s, N, n, state, y = self.closed(I, env)

        def forms(I, k):
            return {"s": ArrForm((N,), "f", state(k)), "y": ArrForm((n,), "f", lambda j: num_ite(r_lt(j, k), y(j), lift(0).to("f")))}

        return [LoopSpec("samples", forms, {"s": ("self", "s")})]


# ------------------------------------------------------------ constructors, setters
def coefficients3(I, form, n, k="f"):
    return sym_arr(I, "b", (n,), k) if form == "array" else sym_list(I, "b", n, k)


class PidInit(Contract):
    """Three coefficients, zero state, no limit."""

    qual = "PidFilter.__init__"
    modulename = "diamondback.filters.pid_filter"

    def configs(self):
        def setup(form, k):
            def f(I):
                n = z3.Int("n")
                I.ctx.assume(n >= 0)
                return [sym_obj(I, "PidFilter", {})], {"b": coefficients3(I, form, n, k)}

            return f

        return {f"{form} {k}": setup(form, k) for form in ("array", "list") for k in ("f", "i")}

    def spec(self, I, env):
        n, bf, k, _ = arg_seq(I, env["b"])
        if I.ctx.branch(b_not(r_eq(n, 3))):
            raise_("ValueError")
        o = env["self"]
        put(I, o, "b", I.new((3,), "f", lambda i: bf(i).to("f")))
        put(I, o, "s", I.new((3,), "f", lambda i: lift(0).to("f")))
        put(I, o, "limit", Num("f", T.Inf(1)))
        return None


class Setter(Contract):
    """A scalar property: rejected outside its range with nothing changed."""

    field = None
    lo, hi = None, None
    kind = "f"
    fields = {}
    open_lo = False

    def configs(self):
        def setup(k):
            def f(I):
                o = sym_obj(I, self.cls, dict(self.state(I)))
                return [o, sym_num("value", k)], {}

            return f

        return {k: setup(k) for k in (("f", "i") if self.kind == "f" else ("i",))}

    def state(self, I):
        return {self.field: sym_num("old", self.kind)}

    def range(self, I, env):
        return self.lo, self.hi

    def changed(self, I, env, v):
        put(I, env["self"], self.field, v)

    def spec(self, I, env):
        v = next(x for n, x in env.items() if n != "self")
        lo, hi = self.range(I, env)
        bad = []
        if lo is not None:
            bad.append(r_le(v.re, lo) if self.open_lo else r_lt(v.re, lo))
        if hi is not None:
            bad.append(r_lt(hi, v.re))
        if bad and I.ctx.branch(b_or(*bad)):
            raise_("ValueError")
        self.changed(I, env, v)
        return None


class PidLimit(Setter):
    qual = "PidFilter.limit.setter"
    modulename = "diamondback.filters.pid_filter"
    cls = "PidFilter"
    field, lo = "limit", 0

    def state(self, I):
        return {"b": sym_arr(I, "b", (3,)), "s": sym_arr(I, "s0", (3,)), "limit": sym_num("old")}


class RankInit(Contract):
    """order + 1 equal coefficients of unit sum and a zero state; the index selects one of them."""

    qual = "RankFilter.__init__"
    modulename = "diamondback.filters.rank_filter"

    def configs(self):
        def setup(I):
            return [sym_obj(I, "RankFilter", {})], {"index": sym_num("index", "i"), "order": sym_num("order", "i")}

        return {"": setup}

    def spec(self, I, env):
        index, order = env["index"], env["order"].re
        if I.ctx.branch(b_or(r_lt(index.re, 0), r_lt(order, index.re))):
            raise_("ValueError")
        n, o = r_add(order, 1), env["self"]
        put(I, o, "b", I.new((n,), "f", lambda i: lift(1).to("f") / Num("i", n).to("f")))
        put(I, o, "s", I.new((n,), "f", lambda i: lift(0).to("f")))
        put(I, o, "index", index)
        return None


class RankIndex(Setter):
    qual = "RankFilter.index.setter"
    modulename = "diamondback.filters.rank_filter"
    cls = "RankFilter"
    field, kind = "index", "i"

    def state(self, I):
        N = z3.Int("N")
        I.ctx.assume(N >= 1)
        return {"b": sym_arr(I, "b", (N,)), "s": sym_arr(I, "s0", (N,)), "index": sym_num("old", "i")}

    def range(self, I, env):
        return 0, r_sub(length(I, get(I, env["self"], "s")), 1)


class WindowInit(Contract):
    """The order + 1 samples of the symmetric window; normalized, their mean magnitude is one."""

    qual = "WindowFilter.__init__"
    modulename = "diamondback.filters.window_filter"
    STYLES = ("Blackman", "Hamming", "Hann", "Kaiser")

    def configs(self):
        def setup(style, normal):
            def f(I):
                return [sym_obj(I, "WindowFilter", {})], {"style": style, "order": sym_num("order", "i"), "normal": lift(normal)}

            return f

        return {f"{s or 'none'} {'normal' if n else ''}": setup(s, n) for s in ("Kaiser", "hann", "BLACKMAN", "Hamming", "", "other") for n in (True, False)}

    def window(self, I, style, n):
        from pycv.lib import FNS

        name = (style.lower(), lift(Fraction(7))) if style == "Kaiser" else style.lower()
        return I.snap(FNS["scipy.signal.get_window"](I, name, Num("i", n), lift(False)))

    def total(self, n, w):
        return T.num_sum(n, lambda i: T.num_abs(w(i)), "f")

    def pre(self, I, env):
        style = env["style"].title()
        if style not in self.STYLES or not bool(env["normal"].re):
            return []
        n = r_add(env["order"].re, 1)
        if not I.ctx.branch(r_lt(0, n)):
            return []
        w = self.window(I, style, n)
        return [("a nonzero window", r_lt(0, self.total(n, w).re))]

    def spec(self, I, env):
        style = env["style"].title()
        if style not in self.STYLES:
            raise_("ValueError")
        order = env["order"].re
        if I.ctx.branch(r_lt(order, 0)):
            raise_("ValueError")
        n = r_add(order, 1)
        w = self.window(I, style, n)
        if bool(env["normal"].re):
            t = self.total(n, w)
            b = lambda i: w(i) * (Num("i", n).to("f") / t)  # noqa
        else:
            b = w
        put(I, env["self"], "b", I.new((n,), "f", b))
        return None


class WindowFilter(Contract):
    """The signal times the window, for a signal of the window's length."""

    qual = "WindowFilter.filter"
    modulename = "diamondback.filters.window_filter"

    def configs(self):
        def setup(kx, form, rank=1):
            def f(I):
                N, n, m = z3.Int("N"), z3.Int("n"), z3.Int("m")
                I.ctx.assume(z3.And(N >= 1, n >= 0, m >= 0))
                x = signal(I, "x", n, kx, form) if rank == 1 else sym_arr(I, "x", (n, m), kx)
                return [sym_obj(I, "WindowFilter", {"b": sym_arr(I, "b", (N,))}), x], {}

            return f

        return {"real": setup("f", "array"), "complex": setup("c", "array"), "list": setup("f", "list"), "integer": setup("i", "array"), "matrix": setup("f", "array", 2)}

    def spec(self, I, env):
        b = get(I, env["self"], "b")
        n, xf, k, rank = arg_seq(I, env["x"])
        if rank != 1 or I.ctx.branch(b_not(r_eq(n, length(I, b)))):
            raise_("ValueError")
        k = T.kmax(k, "f")
        bf = I.snap(b)
        return I.new((n,), k, lambda i: bf(i).to(k) * xf(i).to(k))
