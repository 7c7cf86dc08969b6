"""FirFilter: y(n) = sum_i b(i) x(n - i), state = most recent samples."""

from pycv.std import *  # noqa
from pycv.std import T


def history(x, s0):
    """Signal seen by the filter at time m: the call's samples from 0, the state before."""

    def H(m):
        m = T.fold(m) if is_z(m) else m
        if not is_z(m):
            return x(m) if m >= 0 else s0(-1 - m)
        return num_ite(r_le(0, m), x(m), s0(r_sub(-1, m)))

    return H


class Filter(Contract):
    qual = "FirFilter.filter"
    modulename = "diamondback.filters.fir_filter"
    opt = AxiomOptions()

    def configs(self):
        out = {}
        for kb in "fc":
            for kx in "fc":
                if kb == "f" and kx == "c":
                    continue  # a complex signal needs complex coefficients

                def setup(I, kb=kb, kx=kx):
                    N, n = z3.Int("N"), z3.Int("n")
                    I.ctx.assume(z3.And(N >= 1, n >= 0))
                    b, s, x = sym_arr(I, "b", (N,), kb), sym_arr(I, "s0", (N,), kb), sym_arr(I, "x", (n,), kx)
                    return [sym_obj(I, "FirFilter", {"b": b, "s": s}), x], {}

                out[f"b:{kb},x:{kx}"] = setup
        return out

    def parts(self, I, env):
        o = env["self"]
        b, s = get(I, o, "b"), get(I, o, "s")
        return b, s, env["x"]

    def spec(self, I, env):
        b, s, x = self.parts(I, env)
        N, n = length(I, b), length(I, x)
        if I.ctx.branch(r_eq(n, 0)):
            raise_("ValueError")
        bf, s0, xf = I.snap(b), I.snap(s), I.snap(x)
        kb = I.kind(b)
        H = history(lambda m: xf(m).to(kb), s0)
        set_cell(I, s, lambda i: H(r_sub(r_sub(n, 1), i)))
        return I.new((n,), kb, lambda j: T.num_sum(N, lambda i: bf(i) * H(r_sub(j, i)), kb))

    def loops(self, I, env):
        b, s, x = self.parts(I, env)
        N, n = length(I, b), length(I, x)
        bf, s0, xf = I.snap(b), I.snap(s), I.snap(x)
        kb = I.kind(b)
        H = history(lambda m: xf(m).to(kb), s0)
        zero = lift(0).to(kb)

        def forms(I, k):
            return {
                "s": ArrForm((N,), kb, lambda i: H(r_sub(r_sub(k, 1), i))),
                "y": ArrForm((n,), kb, lambda j: num_ite(r_lt(j, k), T.num_sum(N, lambda i: bf(i) * H(r_sub(j, i)), kb), zero)),
            }

        return [LoopSpec("samples", forms, {"s": ("self", "s")})]


def coefficient_arg(I, name, N, k, form):
    """An array or list of coefficients."""
    return sym_arr(I, name, (N,), k) if form == "array" else sym_list(I, name, N, k)


def padded(N, n, fn, k):
    return lambda i: num_ite(r_lt(i, n), fn(i).to(k), lift(0).to(k))


class Init(Contract):
    """Explicit coefficients: b and s padded to a common length, copied, of b's inexact type."""

    qual = "FirFilter.__init__"
    modulename = "diamondback.filters.fir_filter"
    cls = "FirFilter"

    def configs(self):
        out = {}
        for kb, ks, fb, fs in (("f", "f", "array", "array"), ("c", "c", "array", "array"), ("c", "f", "list", "list"), ("i", "f", "list", "array"), ("i", "f", "array", "list"), ("f", None, "array", None), ("f", "i", "list", "list")):

            def setup(I, kb=kb, ks=ks, fb=fb, fs=fs):
                N, M = z3.Int("N"), z3.Int("M")
                I.ctx.assume(z3.And(N >= 1, M >= 0))
                kw = {"b": coefficient_arg(I, "b", N, kb, fb)}
                if ks:
                    kw["s"] = coefficient_arg(I, "s", M, ks, fs)
                return [sym_obj(I, self.cls, {})], kw

            out[f"b:{kb} {fb}, s:{ks} {fs}"] = setup
        return out

    def applicable(self, I, f, args, kw):
        return kw.get("b") is not None or isinstance(kw.get("style"), str)

    def pre(self, I, env):
        b = env["b"]
        return [("coefficients", env.get("style") or b is not None and (r_lt(0, arg_seq(I, b)[0])))]

    def spec(self, I, env):
        if env["b"] is None:
            return Design().spec(I, env)
        N, bf, kb, _ = arg_seq(I, env["b"])
        M, sf = (0, None) if env["s"] is None else arg_seq(I, env["s"])[:2]
        k = "c" if kb == "c" else "f"
        L = I.ctx.rmax(N, M)
        put(I, env["self"], "b", I.new((L,), k, padded(L, N, bf, k)))
        put(I, env["self"], "s", I.new((L,), k, padded(L, M, sf, k) if sf else (lambda i: lift(0).to(k))))
        return None


class Reset(Contract):
    """Every state element takes the value."""

    qual = "FirFilter.reset"
    modulename = "diamondback.filters.fir_filter"
    cls, fields = "FirFilter", "bs"

    def configs(self):
        def setup(k, x):
            def f(I):
                N = z3.Int("N")
                I.ctx.assume(N >= 1)
                return [sym_obj(I, self.cls, {n: sym_arr(I, n, (N,), k) for n in self.fields}), x(I)], {}

            return f

        num = lambda k: (lambda I: sym_num("x", k))  # noqa
        return {
            "real": setup("f", num("f")), "complex": setup("c", num("c")), "mixed": setup("c", num("f")), "integer": setup("f", num("i")),
            "array": setup("f", lambda I: sym_arr(I, "x", (z3.Int("K"),))), "list": setup("f", lambda I: sym_list(I, "x", z3.Int("K"))),
        }

    def spec(self, I, env):
        if not isinstance(env["x"], Num):
            raise_("ValueError")
        s = get(I, env["self"], "s")
        k = I.kind(s)
        x = env["x"]
        set_cell(I, s, lambda i: x.to(k))
        return None


class PolyphaseReset(Reset):
    qual = "PolyphaseRateFilter.reset"
    modulename = "diamondback.filters.polyphase_rate_filter"
    cls, fields = "PolyphaseRateFilter", "s"


def one():
    return lambda i: lift(1).to("c")


def axis(n):
    """Increasing frequency in [-1, 1) with zero frequency at n // 2."""
    n2 = zi(n) / 2
    return lambda i: T.r_div(r_mul(2, r_sub(zr(i), zr(n2))), zr(n))


class Response(Contract):
    """y(i) is the response of the coefficients at f(i), to the power count."""

    qual = "FirFilter.response"
    modulename = "diamondback.filters.fir_filter"
    cls = "FirFilter"

    def configs(self):
        def setup(k, count):
            def f(I):
                N, L = z3.Int("N"), z3.Int("length")
                I.ctx.assume(N >= 1)
                return [self.obj(I, N, k), Num("i", L), lift(count)], {}

            return f

        return {f"{k} count {c}": setup(k, c) for k in "fc" for c in (0, 1, 2, 3)}

    def obj(self, I, N, k):
        return sym_obj(I, "FirFilter", {"b": sym_arr(I, "b", (N,), k), "s": sym_arr(I, "s0", (N,), k)})

    def coefficients(self, I, env):
        from pycv.lib import cseq

        b = get(I, env["self"], "b")
        return cseq(length(I, b), I.snap(b)), cseq(1, one())

    def spec(self, I, env):
        from pycv.lib import freq_response

        L, count = env["length"].re, env["count"].re
        if I.ctx.branch(r_le(L, 0)) or count <= 0:
            raise_("ValueError")
        s, t = self.coefficients(I, env)
        f = axis(L)

        def y(i):
            h = freq_response(s, t, f(i))
            r = h
            for _ in range(count - 1):
                r = r * h
            return r

        return I.new((L,), "c", y), I.new((L,), "f", lambda i: Num("f", f(i)))


class Delay(Response):
    """Group delay of count instances at f(i), the first extrapolated."""

    qual = "FirFilter.delay"

    def spec(self, I, env):
        from pycv.lib import F_GDELAY

        L, count = env["length"].re, env["count"].re
        if I.ctx.branch(r_le(L, 0)) or count <= 0:
            raise_("ValueError")
        s, t = self.coefficients(I, env)
        f = axis(L)
        g = lambda i: Num("f", r_mul(F_GDELAY(s, t, zr(f(i))), count))  # noqa
        y = lambda i: num_ite(b_and(r_eq(i, 0), r_lt(2, L)), lift(2) * g(1) - g(2), g(i))  # noqa
        return I.new((L,), "f", y), I.new((L,), "f", lambda i: Num("f", f(i)))


class Roots(Contract):
    """Zeros are the roots of b, repeated per instance, in order of magnitude; poles at zero."""

    qual = "FirFilter.roots"
    modulename = "diamondback.filters.fir_filter"

    def configs(self):
        def setup(k):
            def f(I):
                N, c = z3.Int("N"), z3.Int("count")
                I.ctx.assume(z3.And(N >= 1, c >= 1))
                return [sym_obj(I, "FirFilter", {"b": sym_arr(I, "b", (N,), k), "s": sym_arr(I, "s0", (N,), k)}), Num("i", c)], {}

            return f

        return {"real": setup("f"), "complex": setup("c")}

    def spec(self, I, env):
        from pycv.lib import FNS

        b = get(I, env["self"], "b")
        c = env["count"]
        z = FNS["numpy.tile"](I, FNS["numpy.roots"](I, b), c)
        z = z_sorted(I, z)
        return I.new((r_mul(c.re, r_sub(length(I, b), 1)),), "f", lambda i: lift(0).to("f")), z


def z_sorted(I, z):
    from pycv.lib import argsort_fn

    (n,) = I.shape(z)
    f = I.snap(z)
    p = argsort_fn(n, lambda i: T.num_abs(f(i)))
    return I.new((n,), I.kind(z), lambda i: f(p(i).re))


STYLES = ("Blackman", "Hamming", "Hann", "Kaiser")


def alternating(sign):
    return (lambda i: lift(1)) if not sign else (lambda i: num_ite(r_eq(zi(i) % 2 if is_z(i) else i % 2, 0), lift(1), lift(-1)))


class Design(Contract):
    """A designed filter has order + 1 real taps of the specified gain at zero frequency,
    or at Nyquist for a complement, and a zero state; invalid constraints are rejected."""

    qual = "FirFilter.__init__"
    call = False
    modulename = "diamondback.filters.fir_filter"
    cls = "FirFilter"

    def configs(self):
        out = {}
        for style in ("Kaiser", "hann", "Blackman", "Hamming", "", "other"):
            for comp in (False, True):

                def setup(I, style=style, comp=comp):
                    order, count = z3.Int("order"), z3.Int("count")
                    args = {"style": style, "frequency": sym_num("frequency"), "order": Num("i", order), "count": Num("i", count), "complement": lift(comp), "gain": sym_num("gain")}
                    return [sym_obj(I, self.cls, {})], args

                out[f"{style or 'none'}{' complement' if comp else ''}"] = setup
        return out

    def spec(self, I, env):
        if env["style"].title() not in STYLES:
            raise_("ValueError")
        f, order, count, gain = env["frequency"], env["order"].re, env["count"].re, env["gain"]
        if I.ctx.branch(b_or(r_le(f.re, 0), r_le(1, f.re))) or I.ctx.branch(r_le(order, 0)) or I.ctx.branch(r_le(count, 0)):
            raise_("ValueError")
        N = r_add(order, 1)
        sign = alternating(bool(env["complement"].re))

        def check(I, h, a):
            if not isinstance(a, Arr):
                return [("array", False)]
            c = h.cells[a.ref]
            obs = [("length", r_eq(c.shape[0], N)), ("real", c.k == "f")]
            if c.k == "f":
                obs.append(("gain", r_eq(T.num_sum(c.shape[0], lambda i: c.fn(i) * sign(i), "f").re, gain.re)))
            return obs

        def make():
            f = sym_fn(T.Fresh.name("designed"), "f", 1)
            if "designed" in I.ctx.g:
                I.ctx.g["designed"](N, f)
            return I.new((N,), "f", f)

        put(I, env["self"], "b", constrained(I, make, check))
        put(I, env["self"], "s", I.new((N,), "f", lambda i: lift(0).to("f")))
        return None

    def loops(self, I, env):
        return [LoopSpec("design", lambda I, k: {}, peel=1)]

    def templates(self, I, env):
        N = r_add(env["order"].re, 1)

        def taps():
            def make(I, k):
                f = sym_fn(T.Fresh.name("taps"), "f", 1)
                I.ctx.assume(r_eq(T.num_sum(N, f, "f").re, 1))
                return I.new((N,), "f", f)

            def holds(I, k, v):
                c = I.heap.cells[v.ref]
                return [("length", r_eq(c.shape[0], N)), ("unit gain", r_eq(T.num_sum(c.shape[0], c.fn, "f").re, 1))]

            return Pred(make, holds, lambda I, v: isinstance(v, Arr) and I.kind(v) == "f" and len(I.shape(v)) == 1)

        def positive():
            def make(I, k):
                v = Num("f", z3.Real(T.Fresh.name("scale")))
                I.ctx.assume(r_lt(0, v.re))
                return v

            return Pred(make, lambda I, k, v: [("positive", r_lt(0, v.re))], lambda I, v: isinstance(v, Num) and v.k == "f" and not v.inf)

        return [taps(), positive()]
