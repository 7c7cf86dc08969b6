"""Executable contracts of the models."""

import math

import numpy

from oracle import Fail, Skip, close, raises, same
from o_filters import scale
from diamondback.models.diversity_model import DiversityModel
from diamondback.models.gaussian_mixture_model import GaussianMixtureModel
from diamondback.models.gaussian_model import GaussianModel


def labelled(g, classes, d, least=2, most=12):
    xs, ys = [], []
    names = g.rng.choice(numpy.arange(-3, 12), size=classes, replace=False)
    for c in names:
        k = g.size(least, most)
        xs.append(g.rng.normal(size=(k, d)) * g.pick([0.5, 1.0, 3.0]) + g.rng.normal(size=d) * 3)
        ys += [int(c)] * k
    x, y = numpy.concatenate(xs), numpy.array(ys)
    p = g.rng.permutation(len(y))
    return x[p], y[p]


def check_gaussian(g):
    d, classes = g.size(1, 4), g.size(1, 5)
    if g.flag(0.03):
        k = g.pick([3, 5, 9, 14])
        x, y = labelled(g, max(classes, 2), d, 2 * k, 3 * k)
        q = g.rng.normal(size=(12, d)) * 4
        g.note(x=x, y=y, order=k, q=q)
        return mixture(g, x, y, q, k)
    x, y = labelled(g, classes, d)
    r = float(g.pick([0.1, 0.5, 1.0, abs(g.value()) + 0.05]))
    q = g.rng.normal(size=(g.size(1, 12), d)) * 4
    g.note(x=x, y=y, regularize=r, q=q)
    if g.flag(0.12):
        return mixture(g, x, y, q)
    m = GaussianModel(r)
    raises(ValueError, lambda: m.predict(q), "predict before fit")
    m.fit(x, y)
    same(tuple(m.shape), (d,), "shape")
    z = m.predict(q)
    names = sorted(set(y.tolist()))
    same(z.shape, (len(q), len(names)), "prediction shape")
    D = numpy.zeros((len(q), len(names)))
    for i, c in enumerate(names):
        s = x[y == c]
        u = s.mean(0)
        C = (s - u).T @ (s - u) / len(s) + r * numpy.eye(d)
        for j, v in enumerate(q):
            D[j, i] = (v - u) @ numpy.linalg.solve(C, v - u)
    for j in range(len(q)):
        same(sorted(int(i) for i in z[j]), list(range(len(names))), "a ranking is a permutation")
        o = D[j, z[j]]
        if numpy.any(numpy.diff(o) < -1e-7 * scale(o)):
            raise Fail(f"ranking {z[j].tolist()} of distances {D[j].tolist()}")
    # refitting replaces the model
    x2, y2 = labelled(g, g.size(1, 3), d)
    m.fit(x2, y2)
    n = GaussianModel(r)
    n.fit(x2, y2)
    same(m.predict(q).tolist(), n.predict(q).tolist(), "prediction after refitting")
    rejections(g, m, x, y, d)


def rejections(g, m, x, y, d):
    raises(ValueError, lambda: m.predict(numpy.zeros((2, d + 1))), "features of another length")
    raises(ValueError, lambda: m.predict(numpy.zeros(d)), "one dimensional observations")
    raises(ValueError, lambda: m.fit(x, y[:-1]), "fewer classes than observations")
    raises(ValueError, lambda: m.fit(x[0], y[:1]), "one dimensional observations")
    raises(TypeError, lambda: m.fit(x, y.astype(float)), "classes that are no integers")
    before = m.regularize
    raises(ValueError, lambda: setattr(m, "regularize", -0.1), "negative regularization")
    same(m.regularize, before, "regularization after a rejected change")


def mixture(g, x, y, q, k=None):
    k = k or g.pick([1, 2])
    m = GaussianMixtureModel(k, 20, 0.2)
    raises(ValueError, lambda: m.predict(q), "predict before fit")
    if min((y == c).sum() for c in set(y.tolist())) < max(k, 2):
        raise Skip
    m.fit(x, y)
    d = x.shape[1]
    same(tuple(m.shape), (d,), "shape")
    z = m.predict(q)
    names = sorted(set(y.tolist()))
    same(z.shape, (len(q), len(names)), "prediction shape")
    V = numpy.zeros((len(q), len(names)))
    for i in range(len(names)):
        e = m._model[i]
        for j, v in enumerate(q):
            V[j, i] = sum(w * math.exp(-0.5 * max((v - u) @ p @ (v - u), 0.0)) for w, u, p in zip(e.weights_, e.means_, e.precisions_))
        s = x[y == names[i]]
        if k == 1:
            close(e.means_[0], s.mean(0), "mean of a class of one component", 1e-6, scale(s))
            close(e.covariances_[0], numpy.cov(s.T, bias=True).reshape(d, d) + 0.2 * numpy.eye(d), "covariance of a class of one component", 1e-6, scale(s) ** 2 + 1)
    for j in range(len(q)):
        same(sorted(int(i) for i in z[j]), list(range(len(names))), "a ranking is a permutation")
        o = V[j, z[j]]
        if numpy.any(numpy.diff(o) > 1e-9 * scale(o)):
            raise Fail(f"ranking {z[j].tolist()} of likelihoods {V[j].tolist()}")
    rejections(g, m, x, y, d)
    for nm, bad in (("index", 0),):
        raises(ValueError, lambda: setattr(m, nm, bad), f"{nm} = {bad}")
    raises(ValueError, lambda: GaussianMixtureModel(0), "order not positive")


DIST = {
    "Chebyshev": lambda d: float(numpy.max(numpy.abs(d))),
    "Euclidean": lambda d: float(numpy.sqrt((d ** 2).sum())),
    "Geometric": lambda d: float(numpy.prod(numpy.abs(d)) ** (1.0 / len(d))),
    "Manhattan": lambda d: float(numpy.abs(d).sum()),
}


def spread(dist, S):
    return min(dist(S[i] - S[j]) for i in range(len(S)) for j in range(i))


def check_diversity(g):
    style = g.pick(DIST)
    order = int(g.rng.integers(1, 6))
    many = g.flag(0.1)
    if many:
        order = int(g.rng.integers(6, 15))
    dist = DIST[style]
    m = DiversityModel(g.pick([style, style.lower(), style.upper()]), order)
    d = g.size(1, 4)
    g.note(style=style, order=order)
    S, div = [], 0.0
    hist = []
    for _ in range(1 + int(g.rng.integers(3))):
        x = g.real(d * g.size(2 * order if many else 1, 32 if many else 14)).reshape(-1, d)
        if g.flag(0.3):
            x = numpy.round(x)
        if g.flag(0.3):
            x = x[g.rng.integers(0, len(x), size=len(x))]
        hist.append(x)
        g.note(x=hist)
        y = m.fit(x.tolist() if g.flag(0.2) else numpy.array(x))
        ref = []
        for v in x:
            if len(S) < order + 1:
                S.append(v)
                ref.append(0.0)
                continue
            if div == 0.0:
                div = spread(dist, S)
            best, at = div, None
            near = []
            for k in range(len(S)):
                T = S[:k] + [v] + S[k + 1:]
                u = spread(dist, T)
                near.append(u)
                if u > best:
                    best, at = u, k
            top = max(near)
            if abs(top - div) < 1e-9 * max(top, 1e-9) and top != div or sum(abs(u - top) < 1e-12 * max(top, 1e-12) and u != top for u in near):
                raise Skip  # decided by rounding
            if at is not None:
                S = S[:at] + [v] + S[at + 1:]
                div = best
            ref.append(div)
        close(y, numpy.array(ref), "diversity", 1e-9, scale(ref, x))
        if len(S) == order + 1:
            close(m.s, numpy.array(S), "members", 0, 1)
            if numpy.any(numpy.diff([v for v in ref if v]) < 0):
                raise Fail("diversity decreased")
        else:
            close(m.s[: len(S)], numpy.array(S), "members", 0, 1)
    raises(ValueError, lambda: m.fit(numpy.zeros((2, d + 1))), "features of another length")
    raises(ValueError, lambda: m.fit(numpy.zeros(d)), "one dimensional observations")
    m.clear()
    same(m.s.shape, (order + 1, 0), "members after clear")
    n = DiversityModel(style, order)
    x = g.real(3 * 9).reshape(-1, 3)
    close(m.fit(numpy.array(x)), n.fit(numpy.array(x)), "a cleared model is as new", 0, 1)
    close(m.s, n.s, "members of a cleared model", 0, 1)
    raises(ValueError, lambda: DiversityModel("Cosine", 2), "unknown style")
    raises(ValueError, lambda: DiversityModel(style, -1), "negative order")


CHECKS = {"P21": check_gaussian, "P22": check_diversity}
