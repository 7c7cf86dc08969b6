"""Executable contracts of the filters."""

import math

import numpy
from numpy.polynomial import polynomial as P  # noqa: F401

from oracle import Fail, Skip, close, raises, same
from diamondback.filters.complex_bandpass_filter import ComplexBandpassFilter
from diamondback.filters.complex_exponential_filter import ComplexExponentialFilter
from diamondback.filters.complex_frequency_filter import ComplexFrequencyFilter
from diamondback.filters.derivative_filter import DerivativeFilter
from diamondback.filters.fir_filter import FirFilter
from diamondback.filters.goertzel_filter import GoertzelFilter
from diamondback.filters.iir_filter import IirFilter
from diamondback.filters.integral_filter import IntegralFilter
from diamondback.filters.pid_filter import PidFilter
from diamondback.filters.polynomial_rate_filter import PolynomialRateFilter
from diamondback.filters.polyphase_rate_filter import PolyphaseRateFilter
from diamondback.filters.rank_filter import RankFilter
from diamondback.filters.window_filter import WindowFilter

ENVELOPE = 1e-9


def scale(*xs):
    m = 1e-12
    for x in xs:
        x = numpy.asarray(x)
        if x.size:
            m = max(m, float(numpy.max(numpy.abs(x))))
    return m


def fir_ref(b, s, x):
    b, hist = numpy.asarray(b), [v for v in s]
    y = []
    for v in x:
        hist = [v] + hist[:-1]
        y.append(sum(p * q for p, q in zip(b, hist)))
    return numpy.array(y), numpy.array(hist)


def fir(g, complex_=None):
    """A filter with explicit coefficients and state, (filter, b, s)."""
    n = g.size(1, 80)
    c = g.flag(0.3) if complex_ is None else complex_
    b = g.signal(n, c)
    if not numpy.any(b):
        b[0] = 1.0
    m = g.size(0, n + 4) if g.flag() else n
    s = g.signal(m, c)
    if g.flag(0.15) and not c:
        b = numpy.round(b)
        fb = b.astype(int)
    else:
        fb = g.form(b)
    fs = g.form(s)
    g.note(b=fb, s=fs)
    f = FirFilter(b=fb, s=fs) if m or g.flag() else FirFilter(b=fb)
    N = max(n, m)
    pad = lambda v: numpy.concatenate((numpy.asarray(v), numpy.zeros(N - len(v))))  # noqa
    return f, pad(b), pad(s), c


def check_fir(g):
    f, b, s, c = fir(g)
    close(f.b, b, "coefficients after construction", 0, 1)
    close(f.s, s, "state after construction", 0, 1)
    for _ in range(1 + g.flag()):
        x = g.signal(g.size(1, 120), c and g.flag(0.7))
        if g.flag(0.15) and not numpy.iscomplexobj(x):
            x = numpy.round(x)
            fx = x.astype(int)
        else:
            fx = g.form(x)
        g.note(x=fx)
        y = f.filter(fx)
        m = scale(x, s)
        ref, s = fir_ref(b, s, x)
        close(y, ref, "output", 1e-10, scale(b) * m * len(b))
        close(f.s, s, "state", 0, 1)
        close(f.b, b, "coefficients after filter", 0, 1)


def stable(g, n, complex_):
    """Recursive coefficients of modest gain, a(0) = 0."""
    a = numpy.zeros(n, complex if complex_ else float)
    if n > 1:
        v = g.rng.normal(size=n - 1) + (1j * g.rng.normal(size=n - 1) if complex_ else 0)
        if g.flag(0.3):
            v[g.rng.random(n - 1) < 0.5] = 0
        a[1:] = v / max(numpy.abs(v).sum(), 1e-9) * g.pick([0.3, 0.9, 0.99])
    return a


def iir(g, complex_=None):
    n, m = g.size(1, 40), g.size(1, 40)
    c = g.flag(0.3) if complex_ is None else complex_
    a, b = stable(g, n, c), g.signal(m, c)
    k = g.size(0, 44) if g.flag() else 0
    s = g.signal(k, c)
    fa, fb, fs = g.form(a), g.form(b), g.form(s)
    g.note(a=fa, b=fb, s=fs)
    f = IirFilter(a=fa, b=fb, s=fs)
    N = max(n, m, k)
    pad = lambda v: numpy.concatenate((v, numpy.zeros(N - len(v))))  # noqa
    return f, pad(a), pad(b), pad(s), c


def iir_ref(a, b, s, x):
    """Direct form II; the state holds the newest input, then past intermediate values."""
    w = list(s[1:]) if len(s) > 1 else []
    newest = s[0]
    y = []
    for i, v in enumerate(x):
        # the previous sample becomes an intermediate value when the next one arrives
        if len(s) > 1:
            w0 = newest + sum(p * q for p, q in zip(a[1:], w))
            w = ([w0] + w)[: len(s) - 1]
        newest = v
        full = [v + sum(p * q for p, q in zip(a[1:], w))] + w
        y.append(sum(p * q for p, q in zip(b, full)))
    return numpy.array(y), numpy.array([newest] + w)


def check_iir(g):
    f, a, b, s, c = iir(g)
    close(f.a, a, "recursive coefficients after construction", 0, 1)
    close(f.b, b, "forward coefficients after construction", 0, 1)
    close(f.s, s, "state after construction", 0, 1)
    for _ in range(1 + g.flag()):
        x = g.signal(g.size(1, 100), c and g.flag(0.7))
        if g.flag(0.15) and not numpy.iscomplexobj(x):
            x = numpy.round(x)
            fx = x.astype(int)
        else:
            fx = g.form(x)
        g.note(x=fx)
        y = f.filter(fx)
        m = scale(x, s)
        ref, s = iir_ref(a, b, s, x)
        e = scale(b) * m * len(b) * 100
        close(y, ref, "output", 1e-10, e)
        close(f.s, s, "state", 1e-10, m * 100)
        close(f.a, a, "recursive coefficients after filter", 0, 1)
        close(f.b, b, "forward coefficients after filter", 0, 1)
    # the defining recurrence, from rest
    z = IirFilter(a=a, b=b)
    x = g.signal(g.size(1, 60), c)
    y = z.filter(x)
    ref = []
    for n in range(len(x)):
        v = sum(b[i] * x[n - i] for i in range(len(b)) if n >= i)
        v += sum(a[i] * ref[n - i] for i in range(1, len(a)) if n >= i)
        ref.append(v)
    close(y, numpy.array(ref), "recurrence from rest", 1e-9, scale(b) * scale(x) * len(b) * 100)


# ------------------------------------------------------------------ streaming
def stateful(g):
    """(name, filter, signal maker, output joins) of a random stateful filter."""
    kind = g.pick(["fir", "iir", "pid", "rank", "derivative", "integral", "goertzel", "exponential", "design", "bandpass", "frequency"])
    g.note(kind=kind)
    if kind == "fir":
        f, b, s, c = fir(g)
        return (lambda: FirFilter(b=b, s=s)), c, 1.0
    if kind == "iir":
        f, a, b, s, c = iir(g)
        return (lambda: IirFilter(a=a, b=b, s=s)), c, 1.0
    if kind == "pid":
        b, lim = g.real(3), abs(g.value())

        def make():
            p = PidFilter(b)
            if make.limited:
                p.limit = lim
            return p

        make.limited = g.flag()
        g.note(b=b, limit=lim)
        return make, False, 1.0
    if kind == "rank":
        order = g.size(0, 12)
        index = int(g.rng.integers(order + 1))
        g.note(order=order, index=index)
        return (lambda: RankFilter(index, order)), False, 1.0
    if kind == "derivative":
        d = g.pick(DerivativeFilter.B)
        o = g.pick(DerivativeFilter.B[d])
        g.note(derivative=d, order=o)
        return (lambda: DerivativeFilter(d, o)), False, 1.0
    if kind == "integral":
        o = g.pick(IntegralFilter.B)
        g.note(order=o)
        return (lambda: IntegralFilter(o)), False, 1.0
    if kind == "goertzel":
        b, fr = numpy.abs(g.real(g.size(1, 12))) + 0.1, float(g.rng.uniform(-1, 1))
        g.note(b=b, frequency=fr)
        return (lambda: GoertzelFilter(b, fr)), g.flag(), 1.0
    if kind == "exponential":
        ph = float(g.rng.uniform(-1, 1))
        g.note(phase=ph)
        return (lambda: ComplexExponentialFilter(ph)), False, "unit"
    if kind == "bandpass":
        fr, r = float(g.rng.uniform(-1, 1)), float(g.rng.uniform(0, 1))
        g.note(frequency=fr, rate=r)
        return (lambda: ComplexBandpassFilter(fr, r)), True, 1.0
    if kind == "frequency":
        fr, r = float(g.rng.uniform(-1, 1)), float(g.rng.uniform(0, 0.5))
        g.note(frequency=fr, rate=r)
        return (lambda: ComplexFrequencyFilter(fr, r)), True, "cfreq"
    kw = dict(style=g.pick(FirFilter.STYLE), frequency=float(g.rng.uniform(0.1, 0.9)), order=g.size(2, 8))
    g.note(**kw)
    d = FirFilter(**kw)
    return (lambda: FirFilter(b=d.b)), False, 1.0


def check_stream(g):
    make, c, unit = stateful(g)
    n = g.size(1, 150)
    if unit == "unit":
        x = numpy.clip(g.real(n), -1, 1)
    else:
        x = g.signal(n, c)
        if c:
            x = x + 0j
    if unit == "cfreq":
        x = numpy.exp(1j * numpy.cumsum(g.real(n)))
    cuts = g.chunks(n)
    g.note(x=x, chunks=cuts)
    whole, parts = make(), make()
    y = whole.filter(numpy.array(x))
    tup = isinstance(y, tuple)
    zs = [parts.filter(g.form(x[i:j]) if not c else numpy.array(x[i:j])) for i, j in cuts]
    outs = list(zip(*zs)) if tup else [zs]
    for k, (u, v) in enumerate(zip(y if tup else [y], outs)):
        v = numpy.concatenate(v)
        close(v, u, f"output {k} over chunks", 1e-9, scale(u, x) * 10)
    for name in ("s", "b"):
        if hasattr(whole, name):
            close(getattr(parts, name), getattr(whole, name), f"{name} over chunks", 1e-9, scale(getattr(whole, name), x) * 10)
    if hasattr(whole, "phase"):
        d = abs(numpy.exp(1j * math.pi * whole.phase) - numpy.exp(1j * math.pi * parts.phase))
        if d > 1e-9:
            raise Fail(f"phase over chunks {parts.phase}, whole {whole.phase}")
    # a second pass continues from where the first left off
    z = numpy.array(x[: max(1, n // 2)])
    u, v = whole.filter(z), parts.filter(z)
    for p, q in zip(u if tup else [u], v if tup else [v]):
        close(q, p, "continuation", 1e-8, scale(p, x) * 10)


def check_reset(g):
    x = g.value() if g.flag(0.7) else complex(g.value(), g.value())
    kind = g.pick(["fir", "fir", "iir", "polyphase", "rank", "design"])
    g.note(kind=kind, x=x)
    n = g.size(1, 40)
    if kind in ("polyphase", "rank") or kind == "design":
        x = float(numpy.real(x))
    if kind == "fir":
        f, b, s, c = fir(g, isinstance(x, complex))
        f.filter(g.signal(g.size(1, 20), c))
        f.reset(x)
        close(f.s, numpy.full(len(b), x), "state", 0, 1)
        close(f.filter([x] * n), numpy.full(n, x * b.sum()), "steady output", 1e-10, scale(b) * abs(x) * len(b))
    elif kind == "iir":
        f, a, b, s, c = iir(g, isinstance(x, complex))
        d = (a[1:] * b[0] + b[1:]).sum()
        dc = 1 - a.sum()
        if abs(b.sum()) < 1e-3:
            raise Skip
        b = b * (dc / b.sum())  # unity gain at zero frequency
        if len(b) > 1 and g.flag(0.2):
            b[1] += b[0] - 1
            b[0] = 1
        d = (a[1:] * b[0] + b[1:]).sum()
        if len(b) > 1 and b[0] != 1 and (abs(d) < 1e-3 or abs(b[0]) > 100):
            raise Skip
        if abs(dc) < 1e-3:
            raise Skip
        f = IirFilter(a=a, b=b)
        f.filter(g.signal(g.size(1, 20), c))
        f.reset(x)
        y = f.filter([x] * n)
        e = max(abs(x), 1e-9) * scale(b) * len(b) * (1 + 1 / max(abs(d) if b[0] != 1 else abs(dc), 1e-3))
        close(y, numpy.full(n, x), "steady output", 1e-8, e)
    elif kind == "design":
        style = g.pick(IirFilter.STYLE)
        kw = dict(style=style, frequency=float(g.rng.uniform(0.1, 0.6)), order=int(g.rng.integers(1, 5)))
        g.note(**kw)
        f = IirFilter(**kw)
        f.reset(x)
        close(f.filter([x] * n), numpy.full(n, x), "steady output", 1e-6, max(abs(x), 1e-9))
    elif kind == "polyphase":
        rate = float(g.rng.uniform(0.1, 4))
        f = PolyphaseRateFilter(rate)
        g.note(rate=rate)
        f.filter(g.real(9))
        f.reset(x)
        y = f.filter(numpy.full(n, x))
        close(y, numpy.full(len(y), x), "steady output", 1e-9, max(abs(x), 1e-9))
    else:
        order = g.size(0, 9)
        f = RankFilter(int(g.rng.integers(order + 1)), order)
        f.filter(g.real(9))
        f.reset(x)
        close(f.filter(numpy.full(n, x)), numpy.full(n, x), "steady output", 1e-12, max(abs(x), 1e-9))
    for bad in ([1.0], numpy.zeros(2), None):
        before = numpy.array(f.s)
        raises(ValueError, lambda: f.reset(bad), f"reset({bad!r})")
        close(f.s, before, "state after a rejected reset", 0, 1)


# --------------------------------------------------------------------- design
def check_design(g):
    gain = g.pick([1.0, 1.0, 2.0, 0.5, -3.0, g.value()])
    comp = g.flag(0.4)
    count = g.pick([1, 1, 2, 3])
    fr = float(g.rng.uniform(0.05, 0.95))
    if g.flag(0.15):
        style = g.pick(WindowFilter.STYLE)
        order = g.size(3, 60)
        g.note(style=style, order=order)
        w = WindowFilter(style, order, True)
        same(len(w.b), order + 1, "window length")
        close(sum(abs(w.b)), order + 1, "window normalization", 1e-9)
        return
    if g.flag(0.5):
        style, order = g.pick(FirFilter.STYLE), g.size(1, 40)
        if style in ("Hann", "Blackman") and order == 1:
            raise Skip  # the window vanishes at both ends
        if g.flag(0.5):
            style = g.pick([style.lower(), style.upper()])
        g.note(style=style, frequency=fr, order=order, count=count, complement=comp, gain=gain)
        f = FirFilter(style=style, frequency=fr, order=order, count=count, complement=comp, gain=gain)
        same(len(f.b), order + 1, "coefficients")
        same(len(f.s), order + 1, "state size")
        close(f.s, numpy.zeros(order + 1), "initial state", 0, 1)
        sign = numpy.array([(-1.0) ** i for i in range(order + 1)])
        dc = (f.b * sign).sum() if comp else f.b.sum()
        close(dc, gain, "gain at " + ("the highest" if comp else "zero") + " frequency", 1e-8, scale(gain, f.b))
        return
    style = g.pick(IirFilter.STYLE)
    order = int(g.rng.integers(1, 7 if style != "Bessel" else 5))
    fr = float(g.rng.uniform(0.1, 0.9))
    g.note(style=style, frequency=fr, order=order, count=count, complement=comp, gain=gain)
    f = IirFilter(style=style, frequency=fr, order=order, count=count, complement=comp, gain=gain)
    same(len(f.b), order + 1, "forward coefficients")
    same(len(f.a), order + 1, "recursive coefficients")
    same(len(f.s), order + 1, "state size")
    same(float(f.a[0]), 0.0, "a(0)")
    if abs(1 - sum(f.a)) < 1e-7 or (1.0 - fr if comp else fr) < 0.1 and order > 4:
        raise Skip
    sign = numpy.array([(-1.0) ** i for i in range(order + 1)])
    den = numpy.concatenate(([1.0], -f.a[1:]))
    num, den = ((f.b * sign).sum(), (den * sign).sum()) if comp else (f.b.sum(), den.sum())
    close(num / den, gain, "gain at " + ("the highest" if comp else "zero") + " frequency", 1e-6, scale(gain))
    p = f.roots()[0]
    if len(p) and max(abs(p)) >= 1.0 + 1e-9:
        raise Fail(f"pole magnitude {max(abs(p))}")


# ------------------------------------------------------------------- response
def at(c, f):
    """Polynomial in z^-1 at labelled frequency f, in half sample rates."""
    return sum(v * numpy.exp(-1j * math.pi * f * i) for i, v in enumerate(c))


def axis(n):
    """n frequencies spaced by 2 / n, ascending, zero among them."""
    return (numpy.arange(n) - n // 2) * 2.0 / n


def check_response(g):
    recursive = g.flag()
    c = g.flag(0.25)
    if recursive:
        f, a, b, s, c = iir(g, c)
        den = numpy.concatenate(([1.0], -a[1:]))
    else:
        f, b, s, c = fir(g, c)
        den = numpy.array([1.0])
    n, count = g.size(1, 300), g.pick([1, 1, 2, 3])
    g.note(length=n, count=count)
    y, fr = f.response(n, count)
    same(y.shape, (n,), "response shape")
    close(fr, axis(n), "frequencies", 1e-12, 1)
    ref = (at(b, fr) / at(den, fr)) ** count
    if numpy.min(numpy.abs(at(den, fr))) < 1e-4:
        raise Skip
    close(y, ref, "response", 1e-7, scale(ref, (scale(b) * len(b) / 1e2) ** count))
    # delay: minus the derivative of the phase, in samples
    m = g.size(3, 120)
    y, fr = f.delay(m, count)
    same(y.shape, (m,), "delay shape")
    close(fr, axis(m), "frequencies of the delay", 1e-12, 1)

    def gd(p, w):
        q = at(p, w)
        r = sum(i * v * numpy.exp(-1j * math.pi * w * i) for i, v in enumerate(p))
        return numpy.real(r / q), numpy.abs(q)

    (u, qu), (v, qv) = gd(b, fr), gd(den, fr)
    ref = (u - v) * count
    ok = (qu > 1e-3 * scale(b)) & (qv > 1e-3)
    if not recursive:
        ok[0] = False
        want = 2 * y[1] - y[2]
        if numpy.isfinite(want) and abs(y[0] - want) > 1e-9 * scale(want):
            raise Fail(f"delay at the band edge {y[0]!r}, extrapolated {want!r}")
    else:
        ok[:6] = ok[-6:] = False
    close(y[ok], ref[ok], "delay", 1e-6, scale(ref[ok], 1))
    # zeros and poles
    k = g.pick([1, 1, 2])
    p, z = f.roots(k)
    for nm, r in (("poles", p), ("zeros", z)):
        if numpy.any(numpy.diff(numpy.abs(r)) < -1e-9 * scale(r)):
            raise Fail(f"{nm} not in order of magnitude")
    if not recursive:
        same(len(p), k * (len(b) - 1), "number of poles")
        if numpy.any(p):
            raise Fail("poles of a nonrecursive filter away from zero")
    for nm, r, poly in (("zero", z, b), ("pole", p if recursive else [], den)):
        nz = numpy.trim_zeros(poly, "f")
        want = numpy.sort_complex(numpy.tile(numpy.roots(poly), k)) if len(poly) else []
        if recursive or nm == "zero":
            close(numpy.sort_complex(numpy.asarray(r)) if len(r) else r, want, nm + "s", 1e-6, scale(want, 1))
        del nz


# --------------------------------------------------- derivative and integral
def check_derivative(g):
    d = g.pick(DerivativeFilter.B)
    o = g.pick(DerivativeFilter.B[d])
    f = DerivativeFilter(d, o)
    n = o + 1 + g.size(1, 30)
    # each table is exact for polynomials up to its degree, at the centre sample
    deg = {(1, 1): 1, (1, 2): 2, (1, 4): 4}.get((d, o), d + 1)
    c = g.rng.integers(-3, 4, size=deg + 1).astype(float)
    g.note(derivative=d, order=o, polynomial=c, samples=n)
    t = numpy.arange(n, dtype=float) - n // 2
    x = numpy.polyval(c, t)
    y = f.filter(g.form(x))
    ref = numpy.polyval(numpy.polyder(c, d), t - o / 2.0) if deg >= d else numpy.zeros(n)
    close(y[o:], ref[o:], "derivative", 1e-9, scale(x))
    same(len(f.b), o + 1, "coefficients")
    # and is the difference equation of its coefficients
    b = numpy.array(DerivativeFilter.B[d][o])
    f = DerivativeFilter(d, o)
    x = g.real(g.size(1, 50))
    g.note(x=x)
    close(f.filter(x), fir_ref(b, numpy.zeros(o + 1), x)[0], "output", 1e-9, scale(x) * 100)
    bad = g.pick([(0, 1), (4, 4), (1, 3), (2, 1), (3, 2), (-1, 1)])
    raises(ValueError, lambda: DerivativeFilter(*bad), f"DerivativeFilter{bad}")


def check_integral(g):
    o = g.pick(IntegralFilter.B)
    f = IntegralFilter(o)
    b = numpy.array([[1.0], [0.5, 0.5], [1 / 6, 4 / 6, 1 / 6], [1 / 8, 3 / 8, 3 / 8, 1 / 8], [7 / 90, 32 / 90, 12 / 90, 32 / 90, 7 / 90]][o])
    x = g.real(g.size(1, 120))
    g.note(order=o, x=x)
    y = f.filter(g.form(x))
    acc, ref = 0.0, []
    for n in range(len(x)):
        acc += sum(b[i] * x[n - i] for i in range(len(b)) if n >= i)
        ref.append(acc)
    close(y, numpy.array(ref), "running weighted sum", 1e-9, scale(x) * len(x))
    close(IntegralFilter(o).filter(numpy.ones(20))[len(b):], (numpy.arange(20) + 1 - (len(b) - 1) / 2)[len(b):], "integral of one", 1e-9, 20)
    bad = g.pick([-1, 5, 7])
    raises(ValueError, lambda: IntegralFilter(bad), f"IntegralFilter({bad})")


def check_pid(g):
    b = g.real(3)
    f = PidFilter(g.form(b))
    lim = numpy.inf
    g.note(b=b)
    I, prev = 0.0, 0.0
    for _ in range(1 + int(g.rng.integers(3))):
        if g.flag(0.7):
            lim = float(g.pick([abs(g.value()), 1.0, 2.0, 5.0, 0.0]))
            f.limit = lim
        x = numpy.round(g.real(g.size(1, 60))) if g.flag() else g.real(g.size(1, 60))
        g.note(limit=lim, x=x)
        ref = []
        margin = True
        for v in x:
            t = I + v
            if abs(abs(t) - lim) < 1e-9 * max(1, abs(lim)) and t != round(t):
                margin = False
            if abs(t) < lim:
                I = t
            ref.append(b[0] * v + b[1] * I + b[2] * (v - prev))
            prev = v
        if not margin:
            raise Skip
        close(f.filter(g.form(x)), numpy.array(ref), "output", 1e-9, scale(x, I) * scale(b) * 10)
        if lim < numpy.inf and abs(I) < lim and abs(f.s[1]) >= lim:
            raise Fail(f"integral {f.s[1]} reaches limit {lim}")
    before = f.limit
    raises(ValueError, lambda: setattr(f, "limit", -0.5), "negative limit")
    same(f.limit, before, "limit after a rejected change")
    raises(ValueError, lambda: PidFilter([1.0] * g.pick([0, 1, 2, 4])), "coefficients other than three")


def check_rank(g):
    order = g.size(0, 30)
    index = int(g.rng.integers(order + 1))
    f = RankFilter(index, order)
    hist = [0.0] * (order + 1)
    g.note(order=order, index=index)
    for _ in range(1 + int(g.rng.integers(3))):
        if g.flag(0.3):
            index = int(g.rng.integers(order + 1))
            f.index = index
        x = g.real(g.size(1, 60))
        if g.flag(0.2):
            x = numpy.round(x)
            fx = x.astype(int)
        else:
            fx = g.form(x)
        g.note(index=index, x=fx)
        ref = []
        for v in x:
            # the newest sample has taken the place of the oldest
            hist = [v] + hist[:-1]
            ref.append((sorted(abs(h) for h in hist)[index], set(hist)))
        y = f.filter(fx)
        close(abs(numpy.asarray(y)), numpy.array([r[0] for r in ref]), "magnitude of the ranked sample", 1e-12, scale(x, hist))
        for j, v in enumerate(y):
            if v not in ref[j][1]:
                raise Fail(f"output {j}, {v!r}, is no sample of its window")
    before = f.index
    raises(ValueError, lambda: setattr(f, "index", g.pick([-1, order + 1, order + 5])), "index out of range")
    same(f.index, before, "index after a rejected change")
    raises(ValueError, lambda: RankFilter(order + 1, order), "index above order")
    raises(ValueError, lambda: RankFilter(-1, order), "negative index")



# ------------------------------------------------------------------ exponential
def check_exponential(g):
    ph = float(g.pick([0.0, 1.0, -1.0, g.rng.uniform(-1, 1)]))
    f = ComplexExponentialFilter(ph)
    total = ph
    g.note(phase=ph)
    for _ in range(1 + int(g.rng.integers(3))):
        n = g.size(1, 200)
        x = numpy.clip(g.pick([g.real(n), numpy.full(n, g.rng.uniform(-1, 1)), numpy.full(n, g.pick([1.0, -1.0, 0.5])), g.rng.uniform(-1, 1, size=n)]), -1, 1)
        g.note(x=x)
        ref = numpy.exp(1j * math.pi * (total + numpy.concatenate(([0.0], numpy.cumsum(x)[:-1]))))
        y = f.filter(g.form(x))
        close(y, ref, "output", 1e-8, 1)
        total = total + x.sum()
        if not -1.0 <= f.phase <= 1.0:
            raise Fail(f"phase {f.phase} outside [-1, 1]")
        d = (f.phase - total) / 2.0
        if abs(d - round(d)) > 1e-8:
            raise Fail(f"phase {f.phase}, specified {total} modulo 2")
    before = f.phase
    bad = g.pick([[], [1.5], [0.0, -1.0001], [0.1, 1j], [2.0] * 3])
    raises(ValueError, lambda: f.filter(bad), f"signal {bad}")
    same(f.phase, before, "phase after a rejected signal")
    raises(ValueError, lambda: setattr(f, "phase", g.pick([1.5, -1.2])), "phase out of range")
    same(f.phase, before, "phase after a rejected phase")
    raises(ValueError, lambda: ComplexExponentialFilter(g.pick([-1.01, 3.0])), "initial phase out of range")


# -------------------------------------------------------------------- adaptive
def analytic(d):
    if numpy.iscomplexobj(d):
        return d
    n = len(d)
    X = numpy.fft.fft(d)
    h = numpy.zeros(n)
    h[0] = 1
    if n % 2 == 0:
        h[n // 2] = 1
        h[1: n // 2] = 2
    else:
        h[1: (n + 1) // 2] = 2
    return numpy.fft.ifft(X * h)


def check_lms(g):
    fr, r = float(g.pick([g.rng.uniform(-1, 1), 1.0, -1.0, 0.0])), float(g.pick([g.rng.uniform(0, 1), 0.1, 0.0, 1.0]))
    kind = g.pick(["bandpass", "frequency"])
    g.note(kind=kind, frequency=fr, rate=r)
    if kind == "bandpass":
        f = ComplexBandpassFilter(fr, r)
        w, ph, top = numpy.finfo(float).eps + 0j, 0.0, 0.0
        for _ in range(1 + int(g.rng.integers(3))):
            if g.flag(0.3):
                fr = float(g.rng.uniform(-1, 1))
                f.frequency = fr
            if g.flag(0.3):
                r = float(g.rng.uniform(0, 1))
                f.rate = r
            d = g.signal(g.size(1, 80), g.flag(0.7))
            g.note(d=d, frequency=fr, rate=r)
            z = analytic(d)
            y, e, b = f.filter(g.form(d))
            Y, E, B = [], [], []
            for v in z:
                x = numpy.exp(1j * math.pi * ph)
                B.append(w)
                Y.append(w * x)
                E.append(v - w * x)
                w = w + r * E[-1] * numpy.conj(x)
                ph += fr
            top = m = max(top, scale(z, w))
            for nm, p, q in (("primary", y, Y), ("error", e, E), ("coefficient", b, B)):
                close(p, numpy.array(q), nm, 1e-8, m)
        return
    f = ComplexFrequencyFilter(fr, r)
    w, s = numpy.exp(1j * math.pi * fr), 1.0 + 0j
    for _ in range(1 + int(g.rng.integers(3))):
        if g.flag(0.3):
            fr = float(g.rng.uniform(-1, 1))
            f.frequency = fr
            w = numpy.exp(1j * math.pi * fr)
        if g.flag(0.3):
            r = float(g.rng.uniform(0, 1))
            f.rate = r
        if g.flag(0.2):
            x0 = complex(g.value(), g.value())
            f.reset(x0)
            s = 1.0 + 0j if abs(x0) < 1e-8 else x0 / abs(x0)
        d = g.signal(g.size(1, 60), g.flag(0.7))
        if g.flag(0.4):
            d = numpy.exp(1j * math.pi * g.rng.uniform(-1, 1) * numpy.arange(len(d)))
        g.note(d=d, frequency=fr, rate=r)
        z = analytic(d)
        m = numpy.abs(z)
        if numpy.any((m > 1e-9) & (m < 1e-7)) or (not numpy.iscomplexobj(d) and m.min() < 1e-4 * m.max()):
            raise Skip
        z = z / numpy.where(m < 1e-8, 1.0, m)
        y, e, b = f.filter(g.form(d))
        Y, E, B = [], [], []
        for v in z:
            Y.append(numpy.angle(w) / math.pi)
            B.append(w)
            E.append(v - w * s)
            w = w + r * E[-1] * numpy.conj(s)
            s = v
        close(e, numpy.array(E), "error", 1e-8, 1)
        close(b, numpy.array(B), "coefficient", 1e-8, 1)
        if numpy.min(numpy.abs(B)) > 1e-6:
            close(numpy.exp(1j * math.pi * y), numpy.exp(1j * math.pi * numpy.array(Y)), "frequency", 1e-7, 1)
    raises(ValueError, lambda: f.reset([1.0]), "reset of a sequence")


def check_goertzel(g):
    n = g.size(1, 40)
    w = g.real(n)
    if numpy.allclose(w, 0.0):
        w = numpy.ones(n)
    fr = float(g.pick([g.rng.uniform(-1, 1), 0.0, 1.0, -1.0, 0.5, 2.0 / max(n, 2)]))
    f = GoertzelFilter(g.form(w), fr)
    g.note(b=w, frequency=fr)
    c = g.flag()
    left = numpy.zeros(0)
    for _ in range(1 + int(g.rng.integers(3))):
        if g.flag(0.3) and not len(left):
            fr = float(g.rng.uniform(-1, 1))
            f.frequency = fr
        x = g.signal(g.size(1, 120), c)
        x = x + 0j if c else x
        g.note(x=x, frequency=fr)
        y = f.filter(x if c else g.form(x))
        full = numpy.concatenate((left, x))
        k = len(full) // n
        gain = 1.0 if c else 2.0
        ref = [gain / n * sum(w[i] * full[j * n + i] * numpy.exp(-1j * math.pi * fr * i) for i in range(n)) * numpy.exp(1j * math.pi * fr * (n - 1)) for j in range(k)]
        close(y, numpy.array(ref, complex), "block transform", 1e-7, scale(full) * scale(w) * n)
        left = full[k * n:]
        if not numpy.iscomplexobj(x) or True:
            left = left.astype(complex) if c else left.real
    bad = g.pick([1.5, -1.01])
    raises(ValueError, lambda: setattr(f, "frequency", bad), "frequency out of range")
    same(f.frequency, fr, "frequency after a rejected change")
    raises(ValueError, lambda: GoertzelFilter([0.0, 0.0], 0.1), "window of zeros")
    raises(ValueError, lambda: GoertzelFilter([], 0.1), "empty window")


# ------------------------------------------------------------------------ rate
def check_polynomial_rate(g):
    order = g.pick([1, 1, 2, 3])
    rate = float(g.pick([g.rng.uniform(0.2, 3), 1.0, 2.0, 0.5, 3.0, 1.5]))
    f = PolynomialRateFilter(rate, order)
    n = g.size(2, 80)
    x = g.real(n)
    if g.flag(0.3):
        x = numpy.round(x * 4)
    fx = g.form(x)
    g.note(order=order, rate=rate, x=fx)
    y = f.filter(fx)
    same(f.rate, rate, "rate")
    if order == 1:
        want = min(int(round(n * rate)), int((n + 1) * rate + 0.5))
        if abs(n * rate % 1 - 0.5) > 1e-9:
            same(len(y), want, "number of outputs")
        e = numpy.concatenate((x, [2 * x[-1] - x[-2]]))
        t = numpy.arange(len(y)) / rate
        i = numpy.minimum(t.astype(int), n)
        i0 = numpy.minimum(i, n - 1)
        ref = numpy.where(t >= n, e[-1], e[i0] + (t - i0) * (e[numpy.minimum(i0 + 1, n)] - e[i0]))
        close(y, ref, "linear interpolation", 1e-9, scale(x))
    else:
        e = numpy.concatenate(([2 * x[0] - x[1]], x, [2 * x[-1] - x[-2], 3 * x[-1] - 2 * x[-2]]))
        if abs(n * rate % 1 - 0.5) > 1e-9:
            if not int(round(n * rate)) - 1 <= len(y) <= int(round(n * rate)):
                raise Fail(f"number of outputs {len(y)}, specified {int(round(n * rate))}")
        for j in range(len(y)):
            t = j / rate
            i = int(math.floor(t + 1e-9))
            if abs(t - round(t)) < 1e-9 and order == 2:
                continue  # either neighbouring parabola
            v = e[i: i + 4]
            V = numpy.vander(numpy.array([-1.0, 0, 1, 2]), order + 1)
            c = numpy.linalg.lstsq(V, v, rcond=None)[0]
            if abs(y[j] - numpy.polyval(c, t - i)) > 1e-7 * scale(x):
                raise Fail(f"output {j} is {y[j]!r}, specified {numpy.polyval(c, t - i)!r}")
    # exact on straight lines
    a, b = g.value(), g.value()
    g.note(line=(a, b))
    y = f.filter(a + b * numpy.arange(n))
    close(y, a + b * numpy.arange(len(y)) / rate, "interpolated line", 1e-8, scale(a, b * n))
    raises(ValueError, lambda: f.filter(g.pick([[], [1.0], numpy.zeros((2, 2))])), "signal too short")
    raises(ValueError, lambda: setattr(f, "rate", -0.1), "negative rate")
    raises(ValueError, lambda: setattr(f, "order", g.pick([0, -1])), "order not positive")
    same((f.rate, f.order), (rate, order), "parameters after rejected changes")


def check_polyphase(g):
    rate = float(g.pick([g.rng.uniform(0.3, 3), 1.0, 2.0, 0.5, 1.25]))
    f = PolyphaseRateFilter(rate)
    b = numpy.array(f.b)
    rr, cc = b.shape
    close(b.sum(1), numpy.ones(rr), "row sums", 1e-9, 1)
    n = g.size(1, 120)
    x = g.real(n)
    g.note(rate=rate, x=x)
    y = f.filter(g.form(x))
    if abs(n * rate % 1 - 0.5) > 1e-9:
        m = int(numpy.round(n * rate))
        if not m - 1 <= len(y) <= m:
            raise Fail(f"number of outputs {len(y)}, specified {m}")
    pos, hist = 0.0, numpy.zeros(cc)
    for j in range(len(y)):
        t = j * rr / rate
        i, k = int(math.floor(t / rr + 1e-9)), t % rr
        if rr - k < 1e-6:
            k = 0.0
        kk = min(int(numpy.round(k)), rr - 1)
        if abs(k % 1 - 0.5) < 1e-6:
            continue
        h = numpy.array([x[i - q] if i - q >= 0 else 0.0 for q in range(cc)])
        if abs(y[j] - b[kk].dot(h)) > 1e-9 * scale(x):
            raise Fail(f"output {j} is {y[j]!r}, specified {b[kk].dot(h)!r} (sample {i}, phase {kk})")
    del pos, hist
    if rate == int(rate):
        # integer rates consume every sample: a second signal continues the first
        z = g.real(g.size(1, 40))
        u = f.filter(z)
        w = PolyphaseRateFilter(rate).filter(numpy.concatenate((x, z)))
        close(numpy.concatenate((y, u)), w, "continued signal", 1e-9, scale(x, z))
    old = f.rate
    raises(ValueError, lambda: setattr(f, "rate", g.pick([-0.1, 257.0])), "rate out of range")
    same(f.rate, old, "rate after a rejected change")
    raises(ValueError, lambda: f.filter([]), "empty signal")


def check_window(g):
    style = g.pick(WindowFilter.STYLE)
    order = g.size(0, 80)
    normal = g.flag(0.7) and not (style == "Hann" and order == 0)
    g.note(style=style, order=order, normal=normal)
    f = WindowFilter(g.pick([style, style.lower(), style.upper()]), order, normal)
    n = order + 1
    t = 2 * math.pi * numpy.arange(n) / max(n - 1, 1)
    ref = {
        "Hann": lambda: 0.5 - 0.5 * numpy.cos(t),
        "Hamming": lambda: 0.54 - 0.46 * numpy.cos(t),
        "Blackman": lambda: 0.42 - 0.5 * numpy.cos(t) + 0.08 * numpy.cos(2 * t),
        "Kaiser": lambda: numpy.kaiser(n, 7.0),
    }[style]() if n > 1 else numpy.ones(1)
    if normal:
        if abs(ref).sum() < 1e-6:
            raise Skip
        ref = ref * n / abs(ref).sum()
    close(f.b, ref, "window", 1e-8, scale(ref))
    x = g.signal(n, g.flag(0.3))
    g.note(x=x)
    close(f.filter(g.form(x)), ref * x, "output", 1e-8, scale(ref) * scale(x))
    close(f.b, ref, "window after filter", 1e-8, scale(ref))
    k = g.pick([n + 1, n + 2, n - 1, int(g.rng.integers(0, n))])
    g.note(other=k)
    raises(ValueError, lambda: f.filter(numpy.ones(k)), "signal of another length")
    raises(ValueError, lambda: f.filter(numpy.zeros((n, 1))), "two dimensional signal")
    raises(ValueError, lambda: WindowFilter("Boxcar", 3), "unknown style")
    raises(ValueError, lambda: WindowFilter(style, -1), "negative order")


CHECKS = {
    "P01": check_fir, "P02": check_iir, "P03": check_stream, "P04": check_reset, "P05": check_design,
    "P06": check_response, "P07": check_derivative, "P08": check_integral, "P09": check_pid, "P10": check_rank,
    "P11": check_exponential, "P12": check_lms, "P13": check_goertzel, "P14": check_polynomial_rate,
    "P15": check_polyphase, "P28": check_window,
}
