"""ComplexExponentialFilter: y(j) = exp(i pi (phase + x(0) + ... + x(j-1)))."""

from contracts.simple_filters import Setter
from pycv.std import *  # noqa
from pycv.std import T


def _defn(xS, m):
    x = seq_num(xS)
    return [num_ite(r_le(m, 0), lift(0).to("f"), PREFIX(xS, r_sub(m, 1)) + x(r_sub(m, 1))).re]


PREFIX = RecFn("prefix", [T.SEQ, T.INT], _defn, 1)


def cis(phase):
    return T.num_exp(Num("c", lift(0).to("f").re, r_mul(T.PI, phase.re)))


def turns(a, b):
    """a and b differ by a whole number of turns (units of pi)."""
    d = T.r_div(r_sub(zr(a.re), zr(b.re)), 2)
    return z3.IsInt(zr(d))


class Filter(Contract):
    qual = "ComplexExponentialFilter.filter"
    modulename = "diamondback.filters.complex_exponential_filter"

    def configs(self):
        def setup(kx, form):
            def f(I):
                n = z3.Int("n")
                I.ctx.assume(n >= 0)
                p = sym_num("phase")
                I.ctx.assume(z3.And(p.re >= -1, p.re <= 1))
                return [sym_obj(I, "ComplexExponentialFilter", {"phase": p}), signal(I, "x", n, kx, form)], {}

            return f

        return {"real": setup("f", "array"), "list": setup("f", "list"), "integer": setup("i", "array"), "complex": setup("c", "array")}

    def parts(self, I, env):
        n, xf, k, _ = arg_seq(I, env["x"])
        p = get(I, env["self"], "phase").to("f")
        if k == "c":
            x = lambda i: Num("f", xf(i).re)  # noqa
        else:
            x = lambda i: xf(i).to("f")  # noqa
        xS = reify(n, x, "f")
        phase = lambda m: p + PREFIX(xS, m)  # noqa
        return n, xf, k, x, phase

    def pre(self, I, env):
        from pycv.lib import any_of

        p = get(I, env["self"], "phase")
        out = [("phase", b_and(r_le(-1, p.re), r_le(p.re, 1)))]
        n, xf, k, x, phase = self.parts(I, env)
        if k == "c":  # a signal of complex type is a complex signal
            out.append(("complex", any_of(n, lambda i: b_not(r_eq(xf(i).im, 0)))))
        return out

    def spec(self, I, env):
        from pycv.lib import any_of

        n, xf, k, x, phase = self.parts(I, env)
        bad = []
        if k == "c":
            bad.append(any_of(n, lambda i: b_not(r_eq(xf(i).im, 0))))
        bad += [r_eq(n, 0), any_of(n, lambda i: r_lt(1, T.num_abs(xf(i)).re))]
        if I.ctx.branch(b_or(*bad)):
            raise_("ValueError")
        t = phase(n)

        def check(I, h, v):
            if not isinstance(v, Num) or v.k == "c":
                return [("number", False)]
            return [("range", b_and(r_le(-1, v.re), r_le(v.re, 1))), ("whole turns", turns(t, v.to("f")))]

        put(I, env["self"], "phase", constrained(I, lambda: Num("f", z3.Real(T.Fresh.name("phase"))), check))
        return I.new((n,), "c", lambda j: cis(phase(j)))

    def loops(self, I, env):
        n, xf, k, x, phase = self.parts(I, env)

        def forms(I, m):
            return {"phase": phase(m), "y": ArrForm((n,), "c", lambda j: num_ite(r_lt(j, m), cis(phase(j)), lift(0).to("c")))}

        return [LoopSpec("samples", forms, {})]


class Init(Contract):
    qual = "ComplexExponentialFilter.__init__"
    modulename = "diamondback.filters.complex_exponential_filter"

    def configs(self):
        def setup(k):
            def f(I):
                return [sym_obj(I, "ComplexExponentialFilter", {})], ({"phase": sym_num("phase", k)} if k else {})

            return f

        return {"real": setup("f"), "integer": setup("i"), "default": setup(None)}

    def spec(self, I, env):
        p = env["phase"]
        if I.ctx.branch(b_or(r_lt(p.re, -1), r_lt(1, p.re))):
            raise_("ValueError")
        put(I, env["self"], "phase", p)
        return None


class Phase(Setter):
    qual = "ComplexExponentialFilter.phase.setter"
    modulename = "diamondback.filters.complex_exponential_filter"
    cls = "ComplexExponentialFilter"
    field, lo, hi = "phase", -1, 1
