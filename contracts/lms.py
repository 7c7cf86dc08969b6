"""ComplexBandpassFilter and ComplexFrequencyFilter: complex least mean squares recursions."""

from fractions import Fraction

from contracts.exponential import Filter as Exponential, cis
from contracts.simple_filters import Setter
from pycv.std import *  # noqa
from pycv.std import T



def analytic(I, d):
    """(length, complex signal): a real signal is replaced by its analytic signal."""
    from pycv.lib import FNS

    n, df, k, _ = arg_seq(I, d)
    if k != "c":
        d = I.new((n,), "f", lambda i: df(i).to("f"))
        h = I.snap(FNS["scipy.signal.hilbert"](I, d))
        return n, h
    return n, df


def _bandpass(dS, xS, w, b0, b1, m):
    d, x = seq_num(dS), seq_num(xS)
    i = r_sub(m, 1)
    p = COEFFICIENT(dS, xS, w, b0, b1, i)
    v = p + Num("f", w) * (d(i) - x(i) * p) * T.num_conj(x(i))
    r = num_ite(r_le(m, 0), Num("c", b0, b1), v)
    return [r.re, r.im]


COEFFICIENT = RecFn("lmsB", [T.SEQ, T.SEQ, T.REAL, T.REAL, T.REAL, T.INT], _bandpass, 2)


def _frequency(xS, w, b0, b1, s0, s1, m):
    x = seq_num(xS)
    i = r_sub(m, 1)
    p = TURN(xS, w, b0, b1, s0, s1, i)
    s = num_ite(r_le(i, 0), Num("c", s0, s1), x(r_sub(i, 1)))
    v = p + Num("f", w) * (x(i) - p * s) * T.num_conj(s)
    r = num_ite(r_le(m, 0), Num("c", b0, b1), v)
    return [r.re, r.im]


TURN = RecFn("lmsF", [T.SEQ, T.REAL, T.REAL, T.REAL, T.REAL, T.REAL, T.INT], _frequency, 2)


class Bandpass(Contract):
    qual = "ComplexBandpassFilter.filter"
    modulename = "diamondback.filters.complex_bandpass_filter"

    def configs(self):
        def setup(kd, form):
            def f(I):
                n = z3.Int("n")
                I.ctx.assume(n >= 0)
                p, fr, rate = sym_num("phase"), sym_num("frequency"), sym_num("rate")
                I.ctx.assume(z3.And(p.re >= -1, p.re <= 1, fr.re >= -1, fr.re <= 1, rate.re >= 0, rate.re <= 1))
                I.prog.load("diamondback.filters.complex_exponential_filter")
                e = sym_obj(I, "ComplexExponentialFilter", {"phase": p})
                o = sym_obj(I, "ComplexBandpassFilter", {"b": sym_arr(I, "b", (1,), "c"), "s": sym_arr(I, "s0", (1,), "c"), "frequency": fr, "rate": rate})
                I.heap.objs[o.oid].fields["_filter"] = e
                return [o, signal(I, "d", n, kd, form)], {}

            return f

        return {"complex": setup("c", "array"), "complex list": setup("c", "list"), "real": setup("f", "array"), "real list": setup("f", "list")}

    def closed(self, I, env):
        o = env["self"]
        n, d = analytic(I, env["d"])
        rec = I.heap.objs[o.oid].fields
        b, rate, fr = get(I, o, "b"), get(I, o, "rate").to("f"), get(I, o, "frequency").to("f")
        x = I.new((n,), "f", lambda i: lift(1).to("f") * fr)
        e, phase = I.snap(x), get(I, rec["_filter"], "phase").to("f")
        from contracts.exponential import PREFIX

        S = reify(n, e, "f")
        xf = lambda j: cis(phase + PREFIX(S, j))  # noqa
        dS, xS = reify(n, d, "c"), reify(n, xf, "c")
        b0 = I.at(b, 0)
        B = lambda m: COEFFICIENT(dS, xS, zr(rate.re), zr(b0.re), zr(b0.im), m)  # noqa
        y = lambda j: xf(j) * B(j)  # noqa
        return n, d, x, xf, B, y, b

    def spec(self, I, env):
        n = arg_seq(I, env["d"])[0]
        if I.ctx.branch(r_eq(n, 0)):
            raise_("ValueError")
        n, d, x, xf, B, y, b = self.closed(I, env)
        c = Exponential()
        c.spec(I, {"self": I.heap.objs[env["self"].oid].fields["_filter"], "x": x})
        set_cell(I, b, lambda i: B(n))
        return tuple(I.new((n,), "c", f) for f in (y, lambda j: d(j) - y(j), B))

    def loops(self, I, env):
        n, d, x, xf, B, y, b = self.closed(I, env)
        zero = lift(0).to("c")

        def forms(I, m):
            upto = lambda f: ArrForm((n,), "c", lambda j: num_ite(r_lt(j, m), f(j), zero))  # noqa
            return {"coefficient": ArrForm((1,), "c", lambda i: B(m)), "y": upto(y), "e": upto(lambda j: d(j) - y(j)), "b": upto(B)}

        return [LoopSpec("samples", forms, {"coefficient": ("self", "b")})]


class Frequency(Contract):
    qual = "ComplexFrequencyFilter.filter"
    modulename = "diamondback.filters.complex_frequency_filter"

    def configs(self):
        def setup(kd, form):
            def f(I):
                n = z3.Int("n")
                I.ctx.assume(n >= 0)
                fr, rate = sym_num("frequency"), sym_num("rate")
                I.ctx.assume(z3.And(fr.re >= -1, fr.re <= 1, rate.re >= 0, rate.re <= 1))
                o = sym_obj(I, "ComplexFrequencyFilter", {"b": sym_arr(I, "b", (1,), "c"), "s": sym_arr(I, "s0", (1,), "c"), "frequency": fr, "rate": rate})
                return [o, signal(I, "d", n, kd, form)], {}

            return f

        return {"complex": setup("c", "array"), "complex list": setup("c", "list"), "real": setup("f", "array"), "real list": setup("f", "list")}

    def closed(self, I, env):
        from pycv.lib import isclose_raw

        o = env["self"]
        n, d = analytic(I, env["d"])
        b, s, rate = get(I, o, "b"), get(I, o, "s"), get(I, o, "rate").to("f")

        def x(i):  # unit magnitude, unless nearly zero
            m = T.num_abs(d(i))
            z = isclose_raw(m, lift(0).to("f"))
            return d(i) / num_ite(z, lift(1).to("f"), m).to("c")

        xS = reify(n, x, "c")
        b0, s0 = I.at(b, 0), I.at(s, 0)
        B = lambda m: TURN(xS, zr(rate.re), zr(b0.re), zr(b0.im), zr(s0.re), zr(s0.im), m)  # noqa
        S = lambda m: num_ite(r_le(m, 0), s0, x(r_sub(m, 1)))  # noqa
        e = lambda j: x(j) - B(j) * S(j)  # noqa
        y = lambda j: Num("f", T.r_div(T.F_ANGLE(*[T.canon(zr(c)) for c in (B(j).re, B(j).im)]), T.PI))  # noqa
        return n, x, B, S, e, y, b, s

    def spec(self, I, env):
        n = arg_seq(I, env["d"])[0]
        if I.ctx.branch(r_eq(n, 0)):
            raise_("ValueError")
        n, x, B, S, e, y, b, s = self.closed(I, env)
        set_cell(I, b, lambda i: B(n))
        set_cell(I, s, lambda i: S(n))
        return I.new((n,), "f", y), I.new((n,), "c", e), I.new((n,), "c", B)

    def loops(self, I, env):
        n, x, B, S, e, y, b, s = self.closed(I, env)

        def forms(I, m):
            upto = lambda f, k="c": ArrForm((n,), k, lambda j: num_ite(r_lt(j, m), f(j), lift(0).to(k)))  # noqa
            return {"coefficient": ArrForm((1,), "c", lambda i: B(m)), "state": ArrForm((1,), "c", lambda i: S(m)), "y": upto(y, "f"), "e": upto(e), "b": upto(B)}

        return [LoopSpec("samples", forms, {"coefficient": ("self", "b"), "state": ("self", "s")})]


class Reset(Contract):
    """The state is the unit magnitude of x, or one when x is nearly zero."""

    qual = "ComplexFrequencyFilter.reset"
    modulename = "diamondback.filters.complex_frequency_filter"

    def configs(self):
        def setup(k):
            def f(I):
                return [sym_obj(I, "ComplexFrequencyFilter", {"b": sym_arr(I, "b", (1,), "c"), "s": sym_arr(I, "s0", (1,), "c")}), sym_num("x", k)], {}

            return f

        return {"complex": setup("c"), "real": setup("f")}

    def spec(self, I, env):
        from pycv.lib import isclose_raw

        x = env["x"]
        s = get(I, env["self"], "s")
        z = I.ctx.branch(isclose_raw(x, lift(0).to(x.k)))
        v = lift(1).to("c") if z else (x / T.num_abs(x).to(x.k)).to("c")
        set_cell(I, s, lambda i: v)
        return None


class BandpassInit(Contract):
    """A coefficient of the least magnitude, and the exponential starts from zero phase."""

    qual = "ComplexBandpassFilter.__init__"
    modulename = "diamondback.filters.complex_bandpass_filter"
    cls = "ComplexBandpassFilter"

    def configs(self):
        def setup(k):
            def f(I):
                I.prog.load("diamondback.filters.complex_exponential_filter")
                return [sym_obj(I, self.cls, {})], {"frequency": sym_num("frequency", k), "rate": sym_num("rate", k)}

            return f

        return {"real": setup("f"), "integer": setup("i")}

    def fields(self, I, o, fr):
        put(I, o, "b", I.new((1,), "c", lambda i: Num("f", T.EPS).to("c")))
        put(I, o, "s", I.new((1,), "c", lambda i: lift(0).to("c")))
        e = I.heap.new_obj("ComplexExponentialFilter")
        I.heap.objs[e.oid].fields[fname(I, "ComplexExponentialFilter", "phase")] = lift(Fraction(0))
        I.heap.objs[o.oid].fields["_filter"] = e

    def spec(self, I, env):
        fr, rate, o = env["frequency"], env["rate"], env["self"]
        if I.ctx.branch(b_or(r_lt(fr.re, -1), r_lt(1, fr.re))) or I.ctx.branch(b_or(r_lt(rate.re, 0), r_lt(1, rate.re))):
            raise_("ValueError")
        self.fields(I, o, fr)
        put(I, o, "frequency", fr)
        put(I, o, "rate", rate)
        return None


class FrequencyInit(BandpassInit):
    """A coefficient at the specified frequency and a state of one."""

    qual = "ComplexFrequencyFilter.__init__"
    modulename = "diamondback.filters.complex_frequency_filter"
    cls = "ComplexFrequencyFilter"

    def fields(self, I, o, fr):
        put(I, o, "b", I.new((1,), "c", lambda i: cis(fr.to("f"))))
        put(I, o, "s", I.new((1,), "c", lambda i: lift(1).to("c")))


class BandpassFrequency(Setter):
    qual = "ComplexBandpassFilter.frequency.setter"
    modulename = "diamondback.filters.complex_bandpass_filter"
    cls = "ComplexBandpassFilter"
    field, lo, hi = "frequency", -1, 1

    def state(self, I):
        return {"b": sym_arr(I, "b", (1,), "c"), "s": sym_arr(I, "s0", (1,), "c"), "frequency": sym_num("oldf"), "rate": sym_num("oldr")}


class BandpassRate(BandpassFrequency):
    qual = "ComplexBandpassFilter.rate.setter"
    field, lo, hi = "rate", 0, 1


class FrequencyRate(BandpassRate):
    qual = "ComplexFrequencyFilter.rate.setter"
    modulename = "diamondback.filters.complex_frequency_filter"
    cls = "ComplexFrequencyFilter"


class FrequencyFrequency(FrequencyRate):
    """Retunes the coefficient."""

    qual = "ComplexFrequencyFilter.frequency.setter"
    field, lo, hi = "frequency", -1, 1

    def changed(self, I, env, v):
        o = env["self"]
        set_cell(I, get(I, o, "b"), lambda i: cis(v.to("f")))
        put(I, o, "frequency", v)
