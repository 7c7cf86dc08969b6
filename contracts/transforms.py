"""ComplexTransform: three channels to a complex signal by the rotating 120 degree vectors, and back."""

from fractions import Fraction

from pycv.contract import Lemma
from pycv.std import *  # noqa
from pycv.std import T


def root3():
    return T.num_sqrt(lift(3).to("f"))


def line():
    """Line to neutral: magnitude 1 / sqrt(3) and a lag of 30 degrees, 1/2 - i sqrt(3) / 6"""
    return Num("c", Fraction(1, 2), r_mul(Fraction(-1, 6), zr(root3().re)))


def forward(x):
    """(2 / 3) (x0 + u x1 + conj(u) x2), u = exp(2 i pi / 3)"""
    r, h, t = root3(), lift(Fraction(1, 2)), lift(Fraction(2, 3))
    re = t * (x[0] - h * x[1] - h * x[2])
    im = t * (h * r * x[1] - h * r * x[2])
    return re.to("c") + Num("c", 0, im.re)


def backward(v):
    """Channel m is the projection on the vector of angle 2 pi m / 3: the three sum to zero."""
    h = lift(Fraction(1, 2))
    a, b = h * Num("f", v.re), h * root3() * Num("f", v.im)
    return [Num("f", v.re), -a + b, -a - b]


class Complex(Contract):
    qual = "ComplexTransform.transform"
    modulename = "diamondback.transforms.complex_transform"
    opt = AxiomOptions(unfold=2, rounds=3, timeout=30000, split=True)

    def configs(self):
        def setup(shape, k, form="array"):
            def f(I):
                n, m = z3.Int("n"), z3.Int("m")
                I.ctx.assume(z3.And(n >= 0, m >= 0, m != 1, m != 3))
                sh = tuple({"n": n, "m": m}.get(d, d) for d in shape)
                x = sym_arr(I, "x", sh, k) if form == "array" else sym_list(I, "x", sh[0], k)
                return [I.prog.classes["ComplexTransform"], x], {"neutral": Num("b", z3.Bool("neutral"))}

            return f

        return {
            "complex": setup(("n",), "c"), "complex list": setup(("n",), "c", "list"), "complex row": setup((1, "n"), "c"), "real": setup(("n",), "f"),
            "channels": setup((3, "n"), "f"), "integer channels": setup((3, "n"), "i"), "rows": setup(("m", "n"), "f"), "cube": setup(("m", "n", 2), "f"),
        }

    def spec(self, I, env):
        x = env["x"]
        if not isinstance(x, Arr):
            n, f, k, _ = arg_seq(I, x)
            sh = (n,)
        else:
            sh, f, k = I.shape(x), I.snap(x), I.kind(x)
        if len(sh) > 2:
            raise_("ValueError")
        rows, n = (1, sh[0]) if len(sh) == 1 else sh
        if I.ctx.branch(b_or(r_eq(n, 0), b_and(b_not(r_eq(rows, 1)), b_not(r_eq(rows, 3))))):
            raise_("ValueError")
        neutral = I.ctx.branch(I.truth(env["neutral"]))
        if I.ctx.branch(r_eq(rows, 1)):
            v = (lambda i: f(i)) if len(sh) == 1 else (lambda i: f(0, i))
            g = lift(1).to("c") if neutral else line()
            return I.new((3, n), "f", lambda c, i: I.select(backward(v(i).to("c") / g), c))
        g = lift(1).to("c") if neutral else line()
        return I.new((n,), "c", lambda i: forward([f(c, i) for c in range(3)]) * g)


class ComplexRoundTrip(Lemma):
    """backward then forward is the identity, forward then backward is on channels of zero sum,
    for both references; the specification is pointwise, so one sample stands for all."""

    name = "Complex transform round trip"
    modules = ("diamondback.transforms.complex_transform",)
    opt = AxiomOptions(unfold=2, rounds=3, timeout=30000, split=True)

    def run(self, I):
        ctx = I.ctx
        n = z3.Int("n")
        ctx.assume(n >= 1)
        cls = I.prog.classes["ComplexTransform"]
        con = Complex()
        w = T.fresh_int("w")
        ctx.assume(z3.And(w >= 0, w < n))
        for name, neutral in (("neutral", True), ("line", False)):
            env = lambda x: {"cls": cls, "x": x, "neutral": lift(neutral)}  # noqa
            z = sym_arr(I, "z" + name, (n,), "c")
            r = con.spec(I, env(con.spec(I, env(z))))
            a, b = I.snap(r)(w), I.snap(z)(w)
            ctx.oblige(f"{name}: complex:re", r_eq(a.re, b.re))
            ctx.oblige(f"{name}: complex:im", r_eq(a.im, b.im))
            x = sym_arr(I, "x" + name, (3, n), "f")
            c = I.snap(x)
            ctx.assume(c(0, w).re + c(1, w).re + c(2, w).re == 0)
            r = I.snap(con.spec(I, env(con.spec(I, env(x)))))
            for i in range(3):
                ctx.oblige(f"{name}: channel {i}", r_eq(r(i, w).re, c(i, w).re))


def seq_form(I, name, n, k, form):
    return signal(I, name, n, k, form)


def nonzero(b):
    """Not close to zero, hence not zero."""
    from pycv.lib import isclose_raw

    return b_and(b_not(isclose_raw(b, lift(0).to(b.k))), b_not(num_eq_formula(b, lift(0).to(b.k))))


class Fourier(Contract):
    """Forward: the transform of the windowed samples over the window length, zero frequency at n // 2.
    Inverse: the inverse transform of the spectrum, unrotated, times the length, over the window; the
    edges of a window which is zero there are divided by their neighbours."""

    qual = "FourierTransform.transform"
    modulename = "diamondback.transforms.fourier_transform"
    opt = AxiomOptions(unfold=2, rounds=3, timeout=30000, split=True)

    def configs(self):
        def setup(kx, kb, form, inverse, edges=False):
            def f(I):
                n, L = z3.Int("n"), z3.Int("L")
                I.ctx.assume(z3.And(n >= 0, L >= 0))
                x, b = signal(I, "x", n, kx, form), signal(I, "b", L, kb, form)
                if inverse:
                    from pycv.lib import forall_fact

                    bf = arg_seq(I, b)[1]
                    fact = lambda i: nonzero(bf(i))  # noqa
                    forall_fact(I, L, lambda i: b_or(b_and(edges, b_or(r_eq(i, 0), r_eq(i, r_sub(L, 1)))), fact(i)))
                    if edges:
                        I.ctx.assume(L >= 4)
                    else:
                        I.ctx.assume(z3.Implies(L > 0, z3.And(zb(fact(0)), zb(fact(r_sub(L, 1))))))
                return [x, b], {"inverse": lift(inverse)}

            return f

        r = {}
        for inv, name in ((False, "forward"), (True, "inverse")):
            for kx, kb, form in (("f", "f", "array"), ("c", "f", "array"), ("c", "c", "array"), ("f", "f", "list"), ("i", "i", "array")):
                r[f"{name} {kx}{kb} {form}"] = setup(kx, kb, form, inv)
        r["inverse edges"] = setup("c", "f", "array", True, True)
        return r

    def spec(self, I, env):
        from pycv.lib import F_FFT, F_IFFT, any_of, isclose_raw, spectrum_op

        n, x, kx, _ = arg_seq(I, env["x"])
        L, b, kb, _ = arg_seq(I, env["b"])
        z = lift(0).to(kb)
        zero = b_not(any_of(L, lambda i: b_not(isclose_raw(b(i), z))))
        if I.ctx.branch(b_or(r_eq(n, 0), r_lt(n, L), r_eq(L, 0), zero)):
            raise_("ValueError")
        h = zi(L) / 2
        if env["inverse"].re:
            r = lambda j: x(z3.If(zi(j) < zi(L) - h, zi(j) + h, zi(j) - (zi(L) - h))).to("c")  # noqa
            y = spectrum_op(F_IFFT, L, r)
            last = r_sub(L, 1)
            edge = b_or(isclose_raw(b(0), z), isclose_raw(b(last), z))
            c = lambda i: num_ite(b_and(edge, r_eq(i, 0)), b(1), num_ite(b_and(edge, r_eq(i, last)), b(r_sub(L, 2)), b(i)))  # noqa
            f = I.new((L,), "f", lambda i: Num("i", zi(i)).to("f"))
            return I.new((L,), "c", lambda i: y(i) * Num("i", zi(L)).to("c") / c(i).to("c")), f
        from contracts.fir_filter import axis

        y = spectrum_op(F_FFT, L, lambda j: (b(j) * x(j)).to("c"))
        # zero frequency, transform index 0, is at L // 2
        k = lambda i: z3.If(zi(i) >= h, zi(i) - h, zi(i) + (zi(L) - h))  # noqa
        return I.new((L,), "c", lambda i: y(k(i)) / Num("i", zi(L)).to("c")), I.new((L,), "f", lambda i: Num("f", axis(L)(i)))


class FourierRoundTrip(Lemma):
    """Inverse of forward, over the contract of the discrete transform: it is linear and inverted by ifft."""

    name = "Fourier transform round trip"
    modules = ("diamondback.transforms.fourier_transform",)
    opt = AxiomOptions(unfold=2, rounds=3, timeout=30000, split=True)

    def configs(self):
        return {k: (lambda I, k=k: self.go(I, k)) for k in ("f", "c")}

    def go(self, I, kx):
        from pycv.lib import F_FFT, F_IFFT, any_of, forall_fact, isclose_raw, spectrum_op

        ctx = I.ctx
        n, L = z3.Ints("n L")
        ctx.assume(z3.And(n >= 1, L >= 1, L <= n))
        x, b = sym_arr(I, "x", (n,), kx), sym_arr(I, "b", (L,), "f")
        bf, xf = I.snap(b), I.snap(x)
        forall_fact(I, L, lambda i: b_not(isclose_raw(bf(i), lift(0).to("f"))))
        w = z3.Int("w")
        ctx.assume(z3.And(0 <= w, w < L, b_not(isclose_raw(bf(w), lift(0).to("f"))), b_not(isclose_raw(bf(0), lift(0).to("f"))), b_not(isclose_raw(bf(L - 1), lift(0).to("f")))))
        con = Fourier()
        ctx.assume(any_of(L, lambda i: b_not(isclose_raw(bf(i), lift(0).to("f")))))  # w is such an index
        y, _ = con.spec(I, {"x": x, "b": b, "inverse": lift(False)})
        u = lambda j: (bf(j) * xf(j)).to("c")  # noqa
        F = spectrum_op(F_FFT, L, u)
        N = Num("i", zi(L)).to("c")
        G = spectrum_op(F_IFFT, L, lambda j: F(j) / N)
        ctx.assume(num_eq_formula(G(w), u(w) / N))  # inverse and linear
        r, t = con.spec(I, {"x": y, "b": b, "inverse": lift(True)})
        ctx.oblige("length", r_eq(length(I, r), L))
        H, c = I.snap(r)(w), xf(w).to("c")
        ctx.oblige("recovered:re", r_eq(H.re, c.re))
        ctx.oblige("recovered:im", r_eq(H.im, c.im))
        ctx.oblige("time", r_eq(I.snap(t)(w).re, w))


class Psd(Contract):
    """The squared magnitudes of the scaled transforms of the complete windows, in order or averaged."""

    qual = "PsdTransform.transform"
    modulename = "diamondback.transforms.psd_transform"
    opt = AxiomOptions(unfold=2, rounds=3, timeout=30000, split=True)

    def configs(self):
        def setup(kx, kb, form, spectrogram):
            def f(I):
                n, L, s = z3.Ints("n L step")
                I.ctx.assume(z3.And(n >= 0, L >= 0, s >= 1))
                return [signal(I, "x", n, kx, form), signal(I, "b", L, kb, form)], {"index": Num("i", s), "spectrogram": lift(spectrogram)}

            return f

        return {f"{'spectrogram' if g else 'mean'} {kx} {form}": setup(kx, kb, form, g) for g in (False, True) for kx, kb, form in (("f", "f", "array"), ("c", "f", "array"), ("f", "f", "list"), ("i", "i", "array"))}

    def spec(self, I, env):
        from pycv.lib import F_FFT, any_of, isclose_raw, spectrum_op

        n, x, kx, _ = arg_seq(I, env["x"])
        L, b, kb, _ = arg_seq(I, env["b"])
        s = env["index"].re
        zero = b_not(any_of(L, lambda i: b_not(isclose_raw(b(i), lift(0).to(kb)))))
        if I.ctx.branch(b_or(r_eq(n, 0), r_eq(L, 0), zero, r_lt(n, L))):
            raise_("ValueError")
        m = (zi(n) - zi(L)) / zi(s) + 1
        h = zi(L) / 2

        def frame(r, k):
            v = spectrum_op(F_FFT, L, lambda j: (x(r_add(r_mul(r, s), j)) * b(j)).to("c"))(k) / Num("i", zi(L)).to("c")
            return v.re * v.re + v.im * v.im

        f = I.new((h,), "f", lambda i: Num("f", T.r_div(r_mul(2, zr(i)), zr(L))))
        if env["spectrogram"].re:
            return I.new((m, h), "f", lambda r, k: Num("f", frame(r, k))), f
        return I.new((h,), "f", lambda k: T.num_sum(m, lambda r: Num("f", frame(r, k)), "f") / Num("i", m).to("f")), f
