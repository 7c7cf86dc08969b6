"""Executable contracts, run against the real code: inputs are drawn, the real function is
called, and what it did is compared with the specification in floating point.

Used to replay a failed obligation on the real code, to search for a failing input when an
obligation fails, and as a small cross-check of the verifier's own assumptions.

  oracle.py ID [--cases N] [--seconds S] [--seed K] [--hints 3,17] [--case N]
"""

import argparse
import ast
import importlib
import json
import os
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path[:0] = [p for p in (REPO, HERE) if p not in sys.path]

import numpy  # noqa: E402

MODULES = ["o_filters", "o_transforms", "o_models", "o_commons"]


class Fail(Exception):
    pass


class Skip(Exception):
    pass


SPECIAL = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 1e-9, -1e-9, 1e6, -1e6]
SIZES = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200]


class Gen:
    """Inputs of one case."""

    def __init__(self, seed, case, ints=(), floats=(), hints=()):
        self.case = case
        self.rng = numpy.random.default_rng([seed, case])
        self.log = {}
        self.skipped = False
        self.ints = [i for i in ints if 0 <= i <= 20000]
        self.floats = list(floats)
        self.hints = [h for h in hints if 0 <= h <= 5000]

    def note(self, **kw):
        self.log.update(kw)

    def size(self, lo=1, hi=200):
        r = self.rng.random()
        if self.hints and r < 0.15:
            n = int(self.rng.choice(self.hints))
        elif self.ints and r < 0.30:
            n = int(self.rng.choice(self.ints)) + int(self.rng.integers(-1, 2))
        elif r < 0.6:
            n = int(self.rng.integers(lo, min(hi, lo + 8) + 1))
        elif r < 0.8:
            n = int(self.rng.choice(SIZES))
        else:
            n = int(self.rng.integers(lo, hi + 1))
        return min(max(n, lo), hi)

    def flag(self, p=0.5):
        return bool(self.rng.random() < p)

    def pick(self, xs):
        xs = list(xs)
        return xs[int(self.rng.integers(len(xs)))]

    def value(self, scale=None):
        r = self.rng.random()
        if r < 0.1:
            return float(self.pick(SPECIAL))
        if self.floats and r < 0.2:
            return float(self.pick(self.floats)) * self.pick([1, -1, 1, 1.01, 0.99])
        return float(self.rng.normal() * (scale or self.pick([1.0, 1.0, 10.0, 0.1])))

    def real(self, n):
        """A finite real signal of some character."""
        r = self.rng.random()
        if r < 0.45:
            x = self.rng.normal(size=n) * self.pick([1.0, 5.0, 100.0, 0.01])
        elif r < 0.6:
            x = self.rng.integers(-5, 6, size=n).astype(float)
        elif r < 0.7:
            x = numpy.zeros(n)
            if n:
                x[int(self.rng.integers(n))] = self.value()
        elif r < 0.8:
            x = numpy.full(n, self.value())
        elif r < 0.9:
            x = numpy.sin(numpy.arange(n) * self.rng.random() * 3) * self.pick([1, 20])
        else:
            x = numpy.array([self.value() for _ in range(n)])
        if n and self.flag(0.2):
            x[int(self.rng.integers(n))] = self.value()
        return x

    def signal(self, n, complex_=False):
        if complex_:
            return self.real(n) + 1j * (self.real(n) if self.flag(0.85) else 0.0)
        return self.real(n)

    def form(self, x, ints=True):
        """The same numbers as an array, list, integer array, strided or reversed view."""
        r = self.rng.random()
        if ints and not numpy.iscomplexobj(x) and numpy.all(numpy.abs(x) < 2**40) and numpy.all(x == numpy.round(x)) and r > 0.4:
            return numpy.array(x, int) if r > 0.7 or numpy.ndim(x) != 1 else [int(v) for v in x]
        if numpy.ndim(x) == 1:
            if r < 0.2:
                return [complex(v) if numpy.iscomplexobj(x) else float(v) for v in x]
            if r < 0.3:
                return numpy.repeat(x, 2)[::2]
            if r < 0.4:
                return numpy.array(x[::-1])[::-1]
        return numpy.array(x)

    def chunks(self, n):
        out, i = [], 0
        while i < n:
            k = int(self.rng.integers(1, max(2, min(n - i, 9)) + 1)) if self.flag(0.7) else n - i
            k = min(k, n - i)
            out.append((i, i + k))
            i += k
        return out


def show(v):
    if isinstance(v, numpy.ndarray):
        v = v.tolist()
    s = repr(v)
    return s if len(s) < 3000 else s[:3000] + "..."


def close(a, b, what, tol=1e-9, scale=None):
    a, b = numpy.asarray(a), numpy.asarray(b)
    if a.shape != b.shape:
        raise Fail(f"{what}: shape {a.shape}, specified {b.shape}")
    if not a.size:
        return
    fa, fb = numpy.isfinite(a), numpy.isfinite(b)
    if not fb.all():
        raise Skip("specification not finite")
    if not fa.all():
        raise Fail(f"{what}: not finite: {show(a)}, specified {show(b)}")
    m = max(float(numpy.max(numpy.abs(b))), 1e-12) if scale is None else max(scale, 1e-12)
    d = numpy.abs(a - b)
    if float(numpy.max(d)) > tol * m:
        i = numpy.unravel_index(int(numpy.argmax(d)), d.shape)
        raise Fail(f"{what}: element {tuple(int(j) for j in i)} is {a[i]!r}, specified {b[i]!r}")


def same(a, b, what):
    if not (a == b):
        raise Fail(f"{what}: {show(a)}, specified {show(b)}")


def raises(kinds, fn, what):
    """fn must raise one of the kinds."""
    try:
        r = fn()
    except kinds:
        return
    except Exception as ex:
        raise Fail(f"{what}: {type(ex).__name__}, specified {[k.__name__ for k in (kinds if isinstance(kinds, tuple) else (kinds,))]}")
    raise Fail(f"{what}: accepted, returned {show(r)}")


def load():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        checks = {}
        for m in MODULES:
            if os.path.exists(os.path.join(HERE, m + ".py")):
                checks.update(importlib.import_module(m).CHECKS)
    return checks


def constants(files):
    """Numeric literals in the source: sizes and values where behaviour may change."""
    ints, floats = set(), set()
    for f in files:
        try:
            tree = ast.parse(open(os.path.join(REPO, f)).read())
        except (OSError, SyntaxError):
            continue
        n = 0
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant) and type(node.value) in (int, float) and n < 400:
                v = node.value
                if type(v) is int and abs(v) > 2:
                    ints.add(abs(v))
                    n += 1
                if type(v) is float or abs(v) > 2:
                    floats.add(float(v))
                    n += 1
                    if v == int(v) and 2 < abs(v) <= 20000:
                        ints.add(int(abs(v)))
    return sorted(ints)[:200], sorted(f for f in floats if abs(f) < 1e8)[:200]


def run_case(fn, g):
    """None, or a failure record."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            fn(g)
            return None
        except Skip:
            g.skipped = True
            return None
        except Fail as ex:
            msg = str(ex)
        except Exception as ex:  # the real code raised where the contract returns
            tb = traceback.extract_tb(ex.__traceback__)
            msg = f"{type(ex).__name__}: {ex} at {os.path.basename(tb[-1].filename)}:{tb[-1].lineno}"
    return {"case": g.case, "message": msg, "inputs": {k: show(v) for k, v in g.log.items()}}


def main():
    p = argparse.ArgumentParser()
    p.add_argument("id")
    p.add_argument("--cases", type=int, default=60)
    p.add_argument("--seconds", type=float, default=8.0)
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    p.add_argument("--hints", default="")
    p.add_argument("--case", type=int)
    p.add_argument("--files", default="")
    p.add_argument("--known", action="store_true", help="run the recorded findings instead")
    a = p.parse_args()
    numpy.seterr(all="ignore")
    checks = load()
    if a.known:
        import known

        out = [(k["id"], known.RUN[k["run"]]()) for k in known.FINDINGS if k["property"] == a.id]
        print(json.dumps({"known": out}))
        return
    fn = checks[a.id]
    ints, floats = constants([f for f in a.files.split(",") if f])
    hints = [int(h) for h in a.hints.split(",") if h]
    t0, n, skipped = time.time(), 0, 0
    cases = [a.case] if a.case is not None else range(a.cases)
    fail = None
    for c in cases:
        if a.case is None and time.time() - t0 > a.seconds:
            break
        g = Gen(a.seed, c, ints, floats, hints)
        n += 1
        fail = run_case(fn, g)
        skipped += g.skipped
        if fail:
            fail.update(seed=a.seed, files=a.files, hints=a.hints)
            break
    print(json.dumps({"id": a.id, "cases": n, "skipped": skipped, "fail": fail, "seconds": round(time.time() - t0, 3)}))
    sys.exit(1 if fail else 0)


if __name__ == "__main__":
    import oracle

    oracle.main()
