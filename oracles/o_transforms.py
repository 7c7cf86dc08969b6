"""Executable contracts of the transforms."""

import math

import numpy

from oracle import Fail, Skip, close, raises, same
from o_filters import axis, scale, fir_ref
from diamondback.transforms.complex_transform import ComplexTransform
from diamondback.transforms.fourier_transform import FourierTransform
from diamondback.transforms.psd_transform import PsdTransform
from diamondback.transforms.wavelet_transform import WaveletTransform
from diamondback.transforms.z_transform import ZTransform


def window(g, n):
    b = g.pick([numpy.ones(n), numpy.hamming(n) if n > 1 else numpy.ones(1), numpy.abs(g.real(n)) + 0.1, g.real(n)])
    return numpy.ones(n) if numpy.allclose(b, 0.0) else b


def check_fourier(g):
    n = g.size(1, 150)
    b = window(g, n)
    x = g.signal(n + g.pick([0, 0, 0, 1, 3, 7]), g.flag())
    g.note(x=x, b=b)
    fx, fb = g.form(x), g.form(b)
    y, f = FourierTransform.transform(fx, fb)
    close(f, axis(n), "frequencies", 1e-12, 1)
    t = numpy.arange(n)
    ref = numpy.array([(b * x[:n] * numpy.exp(-1j * math.pi * v * t)).sum() / n for v in axis(n)])
    close(y, ref, "spectrum", 1e-9, scale(x) * scale(b))
    # the inverse recovers the signal
    if numpy.min(numpy.abs(b)) > 1e-3 * scale(b):
        z, t2 = FourierTransform.transform(numpy.array(y), fb, inverse=True)
        close(t2, numpy.arange(n), "time axis", 1e-12, 1)
        close(z, x[:n], "recovered signal", 1e-7, scale(x) * 1e3)
    w = g.signal(n, True)
    z, _ = FourierTransform.transform(w, numpy.ones(n), inverse=True)
    ref = numpy.array([(w * numpy.exp(1j * math.pi * axis(n) * k)).sum() for k in t])
    close(z, ref, "inverse", 1e-9, scale(w) * n)
    raises(ValueError, lambda: FourierTransform.transform([], b), "empty signal")
    raises(ValueError, lambda: FourierTransform.transform(x, numpy.ones(len(x) + 1)), "window longer than the signal")
    raises(ValueError, lambda: FourierTransform.transform(x, numpy.zeros(n)), "window of zeros")


def check_psd(g):
    n = g.size(2, 64)
    b = window(g, n)
    x = g.signal(n + g.size(0, 100) - g.pick([0, 0]), g.flag(0.3))
    step = g.pick([1, 2, n, max(1, n // 2), 3])
    g.note(x=x, b=b, index=step)
    y, f = PsdTransform.transform(g.form(x), g.form(b), step)
    k = numpy.arange(n // 2)
    close(f, 2.0 * k / n, "frequencies", 1e-12, 1)
    starts = range(0, len(x) - n + 1, step)
    t = numpy.arange(n)
    E = numpy.exp(-1j * math.pi * numpy.outer(2.0 * k / n, t))
    frames = [numpy.abs(E @ (x[i: i + n] * b) / n) ** 2 for i in starts]
    close(y, numpy.mean(frames, axis=0), "average spectrum", 1e-9, (scale(x) * scale(b)) ** 2)
    z, f = PsdTransform.transform(g.form(x), g.form(b), step, True)
    close(z, numpy.array(frames), "spectrogram", 1e-9, (scale(x) * scale(b)) ** 2)
    close(f, 2.0 * k / n, "frequencies", 1e-12, 1)
    raises(ValueError, lambda: PsdTransform.transform([], b, 1), "empty signal")
    raises(ValueError, lambda: PsdTransform.transform(x, [], 1), "empty window")
    raises(ValueError, lambda: PsdTransform.transform(x, numpy.zeros(n), 1), "window of zeros")
    raises(ValueError, lambda: PsdTransform.transform(x[: n - 1], b, 1), "signal shorter than the window")


def check_complex(g):
    n = g.size(1, 120)
    neutral = g.flag()
    z = g.signal(n, g.flag(0.8)) + 0j
    forms = [numpy.array(z), z.reshape(1, n), [complex(v) for v in z]]
    if not z.imag.any():
        forms += [numpy.array(z.real), z.real.reshape(1, n), [float(v) for v in z.real], g.form(numpy.round(z.real))]
        if numpy.ndim(forms[-1]) == 1:
            z = g.pick([z, numpy.round(z.real) + 0j])
            forms = forms[:-1] if z.real.tolist() != list(forms[-1]) else forms[-1:]
    fz = g.pick(forms)
    g.note(x=fz, neutral=neutral)
    y = ComplexTransform.transform(fz, neutral)
    same(y.shape, (3, n), "shape of the three phases")
    w = z if neutral else z / ((1 / 3) ** 0.5 * numpy.exp(-1j * math.pi / 6))
    ref = numpy.array([numpy.real(w * numpy.exp(-2j * math.pi * k / 3)) for k in range(3)])
    close(y, ref, "phases", 1e-10, scale(z) * 2)
    close(y.sum(0), numpy.zeros(n), "sum of the phases", 1e-10, scale(z) * 4)
    close(ComplexTransform.transform(y, neutral), z, "round trip", 1e-10, scale(z) * 4)
    # any three phases: the part without a common component survives
    p = numpy.array([g.real(n) for _ in range(3)])
    if g.flag(0.3):
        p = numpy.round(p)
    g.note(p=p)
    u = ComplexTransform.transform(g.pick([p, [list(r) for r in p]]), neutral)
    v = 2.0 / 3.0 * (p[0] + p[1] * numpy.exp(2j * math.pi / 3) + p[2] * numpy.exp(-2j * math.pi / 3))
    if not neutral:
        v = v * (1 / 3) ** 0.5 * numpy.exp(-1j * math.pi / 6)
    close(u, v, "complex signal", 1e-10, scale(p) * 2)
    if neutral:
        close(ComplexTransform.transform(u, True), p - p.mean(0), "phases without the common component", 1e-10, scale(p) * 4)
    raises(ValueError, lambda: ComplexTransform.transform([]), "empty signal")
    raises(ValueError, lambda: ComplexTransform.transform(numpy.zeros((2, 3))), "two phases")
    raises(ValueError, lambda: ComplexTransform.transform(numpy.zeros((3, 0))), "no samples")


def synth(b, even, n):
    """FIR of the zero-stuffed half band signals."""
    u = numpy.zeros(n)
    u[::2] = even
    return 2.0 * fir_ref(b, numpy.zeros(len(b)), u)[0]


def step(w, v, inverse):
    """One level over the last axis."""
    b = w.b[int(inverse)]
    n = len(v)
    if not inverse:
        return numpy.concatenate([fir_ref(b[k], numpy.zeros(len(b[k])), v)[0][1::2] for k in (0, 1)])
    return synth(b[0], v[: n // 2], n) + synth(b[1], v[n // 2:], n)


def level(w, v, inverse):
    v = numpy.array(v, float)
    rows, cols = v.shape

    def over_rows():
        if cols > 1:
            for i in range(rows):
                v[i] = step(w, v[i], inverse)

    def over_cols():
        if rows > 1:
            for j in range(cols):
                v[:, j] = step(w, v[:, j], inverse)

    for op in (over_cols, over_rows) if inverse else (over_rows, over_cols):
        op()
    return v


def wavelet_ref(w, v, count, inverse):
    v = numpy.array(v, float)
    rows, cols = v.shape
    i, j = max(rows // 2, 1), max(cols // 2, 1)
    if not inverse:
        v = level(w, v, False)
        if count > 1:
            v[:i, :j] = wavelet_ref(w, v[:i, :j], count - 1, False)
        return v
    if count > 1:
        v[:i, :j] = wavelet_ref(w, v[:i, :j], count - 1, True)
    return level(w, v, True)


def check_wavelet(g):
    style = g.pick(WaveletTransform.B)
    order = g.pick(WaveletTransform.B[style])
    if g.flag(0.35):
        style, order = "Haar", 1
    w = WaveletTransform(g.pick([style, style.lower(), style.upper()]), order)
    g.note(style=style, order=order)
    # the filter bank
    t = numpy.asarray(WaveletTransform.B[style][order], float)
    low, n = t / t.sum(), len(t)
    (a0, a1), (s0, s1) = w.b
    close(a0, low, "analysis low pass", 1e-12, scale(low))
    close(s0, low[::-1], "synthesis low pass", 1e-12, scale(low))
    for b in (a0, a1, s0, s1):
        same(len(b), n, "length of a filter")
    close(numpy.abs(numpy.sort(numpy.abs(a1))), numpy.sort(numpy.abs(low)), "analysis high pass magnitudes", 1e-12, scale(low))
    if style not in ("Biorthogonal",) and not style.startswith("Bi"):
        acc = 1e-8
        # alias cancels and the distortion is a delay
        alt = numpy.array([(-1.0) ** i for i in range(n)])
        T = numpy.convolve(a0, s0) + numpy.convolve(a1, s1)
        A = numpy.convolve(a0 * alt, s0) + numpy.convolve(a1 * alt, s1)
        if numpy.max(numpy.abs(A)) > 1e-9:
            raise Fail(f"aliasing {numpy.max(numpy.abs(A))}")
        d = numpy.argmax(numpy.abs(T))
        e = numpy.array(T)
        e[d] -= 1.0
        if numpy.max(numpy.abs(e)) > acc:
            raise Fail(f"distortion {numpy.max(numpy.abs(e))}")
    # the transform is the analysis (synthesis) tree of the bank
    count = int(g.rng.integers(1, 4))
    m = 2 ** count
    one = g.flag(0.6)
    rows = 1 if one else g.pick([1, m * int(g.rng.integers(1, 3))])
    cols = m * int(g.rng.integers(1, 6)) if rows == 1 or g.flag(0.8) else 1
    x = g.real(rows * cols).reshape(rows, cols)
    if one:
        fx = x[0].tolist() if g.flag(0.2) else numpy.array(x[0])
    else:
        fx = numpy.array(x)
    if g.flag(0.15):
        x = numpy.round(x)
        fx = numpy.round(numpy.asarray(fx)).astype(int)
    inv = g.flag()
    g.note(x=fx, count=count, inverse=inv)
    y = w.transform(fx, count, inv)
    same(numpy.shape(y), numpy.shape(fx), "shape")
    ref = wavelet_ref(w, x, count, inv)
    close(y, ref[0] if one else ref, "transform", 1e-9, scale(x) * 4)
    if style == "Haar":
        y = w.transform(fx, count)
        close(w.transform(y, count, True), x[0] if one else x, "reconstruction", 1e-9, scale(x))
        close(w.transform(w.transform(fx, count, True), count), x[0] if one else x, "reverse reconstruction", 1e-9, scale(x))
    raises(ValueError, lambda: w.transform(fx, 0), "count not positive")
    raises(ValueError, lambda: w.transform(numpy.zeros(m * 2 + 1), count), "length no multiple")
    raises(ValueError, lambda: w.transform([], 1), "empty signal")
    raises(ValueError, lambda: w.transform(numpy.zeros((2, 2, 2)), 1), "three dimensions")
    raises(ValueError, lambda: WaveletTransform("Morlet", 1), "unknown style")
    raises(ValueError, lambda: WaveletTransform(style, 99), "unknown order")


def check_z(g):
    n = int(g.rng.integers(1, 6))
    grow = g.flag(0.25)
    # distinct poles in the left half plane (or not), conjugate pairs
    while True:
        p = []
        while len(p) < n:
            re = float(g.rng.uniform(0.3, 3)) * (1 if grow and g.flag(0.4) else -1)
            if n - len(p) >= 2 and g.flag():
                im = float(g.rng.uniform(0.3, 3))
                p += [complex(re, im), complex(re, -im)]
            else:
                p.append(complex(re, 0))
        p = numpy.array(p)
        d = [abs(p[i] - p[j]) for i in range(n) for j in range(i)]
        if not d or min(d) > 0.25:
            break
    k = g.pick([1.0, 2.0, -0.5, 1e-1])
    u = numpy.poly(p).real * k
    m = int(g.rng.integers(1, n + 1))
    v = g.rng.normal(size=m)
    v[0] = v[0] or 1.0
    v = numpy.where(numpy.abs(v) < 0.05, 0.5, v)
    fr = float(g.rng.uniform(0.05, 0.9))
    bilinear = g.flag()
    fu, fv = g.form(u), g.form(v)
    if g.flag(0.2):
        fu = numpy.concatenate((numpy.zeros(g.pick([1, 2])), u))
    if g.flag(0.2):
        fv = numpy.concatenate((numpy.zeros(1), v))
    g.note(u=fu, v=fv, frequency=fr, bilinear=bilinear)
    a, b = ZTransform.transform(fu, fv, fr, bilinear)
    t = 1.0 / (math.pi * fr)
    if bilinear and numpy.min(numpy.abs(1 - p / (2 * t))) < 0.1:
        raise Skip
    P = (1 + p / (2 * t)) / (1 - p / (2 * t)) if bilinear else numpy.exp(p / t)
    ref = -numpy.poly(P).real
    ref[0] = 0.0
    close(a, ref, "recursive coefficients", 1e-7, scale(ref, 1))
    same(float(a[0]), 0.0, "a(0)")
    if len(a) > 1 and p.real.max() < 0:
        r = numpy.roots(numpy.concatenate(([1.0], -a[1:])))
        if numpy.max(numpy.abs(r)) >= 1.0 + 1e-7:
            raise Fail(f"pole magnitude {numpy.max(numpy.abs(r))}")
    same(len(b), len(a), "lengths of the coefficients")
    dc = (1 - ref.sum())
    if bilinear:
        z = numpy.roots(v)
        if len(z) and numpy.min(numpy.abs(1 - z / (2 * t))) < 1e-2:
            raise Skip
        Z = numpy.concatenate(((1 + z / (2 * t)) / (1 - z / (2 * t)), numpy.zeros(n - len(z))))
        shape = numpy.poly(Z).real
    else:
        res = [numpy.polyval(v, q) / numpy.prod([q - s for s in p if s != q]) for q in p]
        shape = numpy.zeros(n + 1, complex)
        for i in range(n):
            q = numpy.ones(1)
            for j in range(n):
                if j != i:
                    q = numpy.convolve(q, [1.0, -P[j]])
            shape[:n] += res[i] * q
        shape = shape.real
        if not numpy.isclose(u[-1], 0):
            shape = shape / 1.0
    if abs(shape.sum()) < 1e-3 * scale(shape):
        raise Skip
    want = shape * dc / shape.sum()
    close(b, want, "forward coefficients", 1e-6, scale(want))
    close(b.sum(), 1 - a.sum(), "gain at zero frequency", 1e-9, scale(b) * len(b))
    raises(ValueError, lambda: ZTransform.transform([], v, fr), "no denominator")
    raises(ValueError, lambda: ZTransform.transform(u, [], fr), "no numerator")
    raises(ValueError, lambda: ZTransform.transform([0.0, 0.0], v, fr), "denominator of zeros")
    raises(ValueError, lambda: ZTransform.transform(u, [0.0], fr), "numerator of zeros")
    raises(ValueError, lambda: ZTransform.transform(u, v, g.pick([0.0, -0.1])), "frequency not positive")


CHECKS = {"P16": check_fourier, "P17": check_psd, "P18": check_complex, "P19": check_wavelet, "P20": check_z}
