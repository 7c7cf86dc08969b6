"""DerivativeFilter and IntegralFilter: an FIR / IIR filter over a built-in table."""

from fractions import Fraction

from contracts.fir_filter import Filter as FirFilter, Reset as FirReset
from contracts.iir_filter import Filter as IirFilter, Reset as IirReset
from pycv.std import *  # noqa
from pycv.std import T

DERIVATIVE = {
    1: {1: ([1, -1], 1), 2: ([1, 0, -1], 2), 4: ([-1, 8, 0, -8, 1], 12)},
    2: {2: ([1, -2, 1], 1), 4: ([1, 0, -2, 0, 1], 4), 6: ([-1, 8, 1, -16, 1, 8, -1], 24), 8: ([1, -16, 64, 16, -130, 16, 64, -16, 1], 144)},
    3: {4: ([1, -2, 0, 2, -1], 2), 6: ([1, 0, -3, 0, 3, 0, -1], 8), 8: ([-1, 8, 2, -24, 0, 24, -2, -8, 1], 48)},
}
INTEGRAL = {0: ([1], 1), 1: ([1, 1], 2), 2: ([1, 4, 1], 6), 3: ([1, 3, 3, 1], 8), 4: ([7, 32, 12, 32, 7], 90)}


class DerivativeInit(Contract):
    """The difference of the table, checked to annihilate lower powers and to give d! on t^d; zero state."""

    qual = "DerivativeFilter.__init__"
    modulename = "diamondback.filters.derivative_filter"

    def configs(self):
        def setup(d, o):
            def f(I):
                return [sym_obj(I, "DerivativeFilter", {})], {"derivative": lift(d), "order": lift(o)}

            return f

        return {f"{d} {o}": setup(d, o) for d in range(-1, 6) for o in range(-1, 11)}

    def spec(self, I, env):
        d, n = int(env["derivative"].re), int(env["order"].re)
        if d not in DERIVATIVE or n not in DERIVATIVE[d]:
            raise_("ValueError")
        import math

        o = env["self"]
        if getattr(I, "impl", None) is None:
            b, q = DERIVATIVE[d][n]
            put(I, o, "b", I.new((n + 1,), "f", lambda i: I.select([lift(Fraction(v, q)) for v in b], i)))
        else:

            def check(I, h, a):
                v = vec(I, h, a)
                if v is None:
                    return [("array", False)]
                m, f = v
                if is_z(m) or m != n + 1:
                    return [("length", False)]
                out = [("fresh", a.ref not in I.pre_heap.cells)]
                b, q = DERIVATIVE[d][n]
                for i in range(m):
                    out.append((f"[{i}]", r_eq(f(i).re, Fraction(b[i], q))))
                # samples are newest first: t = -i; the moments about any point follow from these
                for p in range(d + 1):
                    s = Fraction(0)
                    for i in range(m):
                        s = r_add(s, r_mul(f(i).re, (-i) ** p))
                    out.append((f"moment {p}", r_eq(s, math.factorial(d) if p == d else 0)))
                return out

            put(I, o, "b", Where(check))
        put(I, o, "s", I.new((n + 1,), "f", lambda i: lift(0).to("f")))
        return None


class IntegralInit(Contract):
    """The weights of the Newton-Cotes rule, of unit sum and symmetric, accumulated; zero state."""

    qual = "IntegralFilter.__init__"
    modulename = "diamondback.filters.integral_filter"

    def configs(self):
        def setup(o):
            def f(I):
                return [sym_obj(I, "IntegralFilter", {})], {"order": lift(o)}

            return f

        return {f"{o}": setup(o) for o in range(-1, 8)}

    def spec(self, I, env):
        n = int(env["order"].re)
        if n not in INTEGRAL:
            raise_("ValueError")
        b, q = INTEGRAL[n]
        assert sum(b) == q and b == b[::-1]
        o, m = env["self"], max(n + 1, 2)
        pad = lambda v: lambda i: I.select([lift(Fraction(x)) for x in v + [0] * (m - len(v))], i)  # noqa
        put(I, o, "b", I.new((m,), "f", pad([Fraction(v, q) for v in b])))
        put(I, o, "a", I.new((m,), "f", pad([0, 1])))
        put(I, o, "s", I.new((m,), "f", pad([])))
        return None


class DerivativeFilter(FirFilter):
    qual = "DerivativeFilter.filter"
    modulename = "diamondback.filters.derivative_filter"
    cls = "DerivativeFilter"

    def configs(self):
        def setup(form):
            def f(I):
                N, n = z3.Int("N"), z3.Int("n")
                I.ctx.assume(z3.And(N >= 1, n >= 0))
                return [sym_obj(I, self.cls, {"b": sym_arr(I, "b", (N,)), "s": sym_arr(I, "s0", (N,))}), signal(I, "x", n, "f", form)], {}

            return f

        return {"array": setup("array")}

    def loops(self, I, env):
        return []


class IntegralFilter(IirFilter):
    qual = "IntegralFilter.filter"
    modulename = "diamondback.filters.integral_filter"
    cls = "IntegralFilter"

    def configs(self):
        return {k: v for k, v in super().configs().items() if k.startswith("coefficients:f")}

    def loops(self, I, env):
        return []


class DerivativeReset(FirReset):
    qual = "DerivativeFilter.reset"
    modulename = "diamondback.filters.derivative_filter"
    cls = "DerivativeFilter"


class IntegralReset(IirReset):
    qual = "IntegralFilter.reset"
    modulename = "diamondback.filters.integral_filter"
    cls = "IntegralFilter"


class RankReset(FirReset):
    qual = "RankFilter.reset"
    modulename = "diamondback.filters.rank_filter"
    cls = "RankFilter"
