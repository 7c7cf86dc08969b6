"""PolyphaseRateFilter and PolynomialRateFilter."""

import z3

from contracts.simple_filters import Setter as _Setter
from contracts.streams import Hyps
from pycv.contract import Lemma
from pycv.std import *  # noqa
from pycv.std import T


def position_field(I, cls, known):
    """The attribute set in __init__ besides the known ones."""
    import ast

    init = I.prog.find(I.prog.classes[cls], "__init__")
    names = []
    for n in ast.walk(init.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self" and n.attr not in names:
            names.append(n.attr)
    rest = [n for n in names if n not in [fname(I, cls, k) for k in known]]
    if len(rest) != 1:
        raise Unsupported("attributes of " + cls)
    return rest[0]


def least(a, b):
    return r_ite(r_le(a, b), a, b)


class Polyphase(Contract):
    """Output j is the product of the bank row of the fraction of position(j) with the samples
    up to its whole part, position(j) = position + j rows / rate; a sample enters the state
    when the position passes it."""

    qual = "PolyphaseRateFilter.filter"
    modulename = "diamondback.filters.polyphase_rate_filter"
    cls = "PolyphaseRateFilter"

    def configs(self):
        def setup(k, form, zero, late):
            def f(I):
                n = z3.Int("n")
                I.ctx.assume(n >= 0)
                o = self.subject(I, lift(0.0) if zero else None)
                (rr, _), _, _, rate, index = self.state(I, o)
                I.ctx.assume(r_le(rr, index.re) if late else r_lt(index.re, rr))
                if not zero:
                    I.ctx.assume(r_lt(0, rate.re))
                return [o, signal(I, "x", n, k, form)], {}

            return f

        return {
            "early": setup("f", "array", False, False), "late": setup("i", "list", False, True),
            "early, zero rate": setup("i", "list", True, False), "late, zero rate": setup("f", "array", True, True),
        }

    def subject(self, I, rate=None, index=None):
        c = I.prog.classes[self.cls]
        rr, cc = I.shape(I.class_attr(c, "B"))[0], z3.Int("columns")
        I.ctx.assume(cc >= 1)
        I.class_obj(c).fields["B"] = sym_arr(I, "B", (rr, cc))
        o = sym_obj(I, self.cls, {"rate": rate or sym_num("rate"), "s": sym_arr(I, "s0", (cc,))})
        I.heap.objs[o.oid].fields[self.index(I)] = index or sym_num("index")
        return o

    def index(self, I):
        return position_field(I, self.cls, ("rate", "s"))

    def state(self, I, o):
        b = I.class_attr(I.prog.classes[self.cls], "B")
        return I.shape(b), I.snap(b), I.snap(get(I, o, "s")), get(I, o, "rate").to("f"), I.heap.objs[o.oid].fields[self.index(I)].to("f")

    def pre(self, I, env):
        (rr, _), _, _, rate, index = self.state(I, env["self"])
        return [("rate", b_and(r_le(0, rate.re), r_le(rate.re, rr))), ("position", r_le(0, index.re))]

    def parts(self, I, env):
        (rr, cc), b, s0, rate, p0 = self.state(I, env["self"])
        n, xf, k, rank = arg_seq(I, env["x"])
        M = T.num_round(Num("i", n).to("f") * rate).re
        v = Num("f", rr) / rate if is_z(rate.re) else lift(0.0)
        pos = lambda j: p0 + Num("i", j).to("f") * v  # noqa
        past = lambda j: T.num_floor(pos(j) / lift(rr)).re  # noqa  samples passed by position j
        x = lambda i: xf(i).to("f")  # noqa
        hist = lambda i: num_ite(r_le(0, i), x(i), s0(T.r_neg(i)))  # noqa

        def out(j):
            i = least(n, past(j))  # past(j) < n at every output
            row = least(T.num_round(pos(j) - lift(rr) * Num("i", i).to("f")).re, rr - 1)
            return T.num_sum(cc, lambda q: b(row, q) * (x(i) if not is_z(q) and q == 0 else num_ite(r_eq(q, 0), x(i), hist(r_sub(i, q)))), "f")

        return (rr, cc), n, M, pos, past, hist, out, p0

    def spec(self, I, env):
        (rr, cc), n, M, pos, past, hist, out, p0 = self.parts(I, env)
        o = env["self"]
        if I.ctx.branch(r_eq(n, 0)):
            raise_("ValueError")
        J = self.count(I)
        before = r_sub(J, 1)
        facts = [
            ("not more outputs than the rounded product", b_and(r_le(0, J), r_le(J, M))),
            ("outputs while samples last", b_or(r_eq(J, 0), r_lt(past(before), n))),
            ("outputs up to the last sample", b_or(r_eq(J, M), r_le(n, past(J)))),
        ]
        for name, f in facts:
            if getattr(I, "impl", None) is not None:
                I.ctx.oblige(name, f, assume=True, post=True)
            else:
                I.ctx.assume(zb(f))
        used = r_ite(r_eq(M, 0), 0, least(n, past(J)))
        s = get(I, o, "s")
        free = self.newest(I, o)  # overwritten before it is used
        set_cell(I, s, lambda q: num_ite(r_eq(q, 0), free, hist(r_sub(used, q))))
        I.heap.objs[o.oid].fields[self.index(I)] = pos(J) - lift(rr) * Num("i", used).to("f")
        self.used, self.J = used, J
        return I.new((J,), "f", out)

    def newest(self, I, o):
        impl = getattr(I, "impl", None)
        if impl is not None:
            h = impl[1]
            w = vec(I, h, h.objs[o.oid].fields[fname(I, self.cls, "s")])
            if w:
                return w[1](0)
        return Num("f", z3.Real(T.Fresh.name("newest")))

    def count(self, I):
        impl = getattr(I, "impl", None)
        if impl is not None:
            (how, v), h = impl
            w = vec(I, h, v) if how == "return" else None
            return w[0] if w else 0
        return z3.Int(T.Fresh.name("outputs"))

    def loops(self, I, env):
        (rr, cc), n, M, pos, past, hist, out, p0 = self.parts(I, env)
        late = I.ctx.branch(r_le(rr, p0.re))  # the first iteration only consumes
        d = 1 if late else 0
        count = lambda k: 0 if not is_z(k) and k == 0 else r_sub(k, d) if not d else r_ite(r_eq(k, 0), 0, r_sub(k, 1))  # noqa
        used = lambda k: 0 if not is_z(k) and k == 0 else (least(n, past(count(k))) if not d else r_ite(r_eq(k, 0), 0, least(n, past(count(k)))))  # noqa
        index = lambda k: pos(count(k)) - lift(rr) * Num("i", used(k)).to("f")  # noqa

        def line(i):
            def make(I, k):
                h = z3.Real(T.Fresh.name("newest"))
                u = i(k)
                from pycv.heap import Cell

                return Cell((cc,), "f", lambda q: num_ite(r_eq(q, 0), Num("f", h), hist(r_sub(u, q))))

            def holds(I, k, v):
                from pycv.heap import Cell

                if not isinstance(v, Cell):
                    v = I.heap.cells[v.ref]
                w = T.fresh_int("w")
                return [("element", b_implies(b_and(r_le(1, w), r_lt(w, cc)), num_eq_formula(v.fn(w), hist(r_sub(i(k), w)))))]

            return Pred(make, holds)

        def forms(I, k):
            return {
                "s": line(used), "samples": Num("i", used(k)), "outputs": Num("i", count(k)), "position": index(k),
                "y": ArrForm((M,), "f", lambda j: num_ite(r_lt(j, count(k)), out(j), lift(0).to("f"))),
            }

        def inner(I, k):
            K = I.outer[0]
            i0 = lambda k: r_add(used(K), k)  # noqa
            at = pos(r_add(K, 1 - d)) - lift(rr) * Num("i", used(K)).to("f") if not d else num_ite(r_eq(K, 0), p0, pos(K) - lift(rr) * Num("i", used(K)).to("f"))
            return {"s": line(i0), "samples": Num("i", i0(k)), "position": at - lift(rr) * Num("i", k).to("f")}

        return [
            LoopSpec("outputs", forms, {"s": ("self", "s"), "position": ("self", self.index(I)[1:])}, depth=0),
            LoopSpec("samples", inner, {"s": ("self", "s"), "position": ("self", self.index(I)[1:])}, depth=1),
        ]


class PolyphaseRate(_Setter):
    """A rate in [0, rows]; the position restarts when it changes."""

    qual = "PolyphaseRateFilter.rate.setter"
    modulename = "diamondback.filters.polyphase_rate_filter"
    cls = "PolyphaseRateFilter"
    field, lo = "rate", 0

    def configs(self):
        def setup(k):
            def f(I):
                return [Polyphase().subject(I), sym_num("value", k)], {}

            return f

        return {k: setup(k) for k in "fi"}

    def range(self, I, env):
        return 0, I.shape(I.class_attr(I.prog.classes[self.cls], "B"))[0]

    def changed(self, I, env, v):
        from pycv.lib import isclose_raw

        o = env["self"]
        if not I.ctx.branch(isclose_raw(get(I, o, "rate"), v.to("f"))):
            I.heap.objs[o.oid].fields[Polyphase().index(I)] = lift(0.0)
        put(I, o, "rate", v)


class PolyphaseInit(Contract):
    """The first instance makes the bank: the phases of one lowpass prototype, each scaled to
    unit sum.  Every instance starts at position zero with a zero state."""

    qual = "PolyphaseRateFilter.__init__"
    modulename = "diamondback.filters.polyphase_rate_filter"
    cls = "PolyphaseRateFilter"

    def configs(self):
        def setup(made, k):
            def f(I):
                if made:
                    o = Polyphase().subject(I)
                    I.heap.objs[o.oid].fields.clear()
                    I.ctx.assume(I.truth(I.lib.method(I, self.bank(I), "any", [], {})))
                else:
                    o = sym_obj(I, self.cls, {})
                    rr, cc = I.shape(self.bank(I))
                    I.ctx.g["designed"] = lambda n, f: self.prototype(I, rr, cc, f)
                return [o, sym_num("rate", k)], {}

            return f

        return {"first": setup(False, "f"), "first, whole rate": setup(False, "i"), "later": setup(True, "f")}

    def prototype(self, I, rr, cc, f):
        """The rows of the one bank there is do not sum to zero: evaluated on the real bank."""
        I.ctx.trust("polyphase prototype", "the phases of the prototype do not sum to zero (evaluated on the bank the code makes, of which there is one)")
        I.ctx.g["prototype"] = f
        q = z3.Int("!phase")
        t = self.phase_sum(rr, cc, f, q).re
        I.ctx.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < rr), t != 0)))

    def phase_sum(self, rr, cc, f, i):
        return T.num_sum(cc, lambda j: f(r_add(i, r_mul(rr, j))), "f")

    def bank(self, I):
        return I.class_attr(I.prog.classes[self.cls], "B")

    def spec(self, I, env):
        o, rate = env["self"], env["rate"]
        B = self.bank(I)
        rr, cc = I.shape(B)
        if I.ctx.branch(b_or(r_lt(rate.re, 0), r_lt(rr, rate.re))):
            raise_("ValueError")
        if not is_z(cc):
            f = I.ctx.g.get("prototype") or (lambda i: lift(0.0))
            b = I.new((rr, cc), "f", lambda i, j: f(r_add(i, r_mul(rr, j))) / self.phase_sum(rr, cc, f, i))
            I.class_obj(I.prog.classes[self.cls]).fields["B"] = b
        put(I, o, "rate", rate)
        put(I, o, "s", I.new((cc,), "f", lambda i: lift(0.0)))
        I.heap.objs[o.oid].fields[Polyphase().index(I)] = lift(0)
        return None


class PolyphaseContinued(Lemma):
    """A signal whose samples have all been consumed is continued by the next one: output j
    of the next call is output J + j of one call with both signals."""

    name = "a polyphase signal is continued"
    modules = ("diamondback.filters.polyphase_rate_filter",)

    def run(self, I):
        ctx, con = I.ctx, Polyphase()
        n, m, j = z3.Int("n"), z3.Int("m"), z3.Int("j")
        ctx.assume(z3.And(n >= 1, m >= 1, j >= 0))
        rate = sym_num("rate")
        ctx.assume(0 < rate.re)
        one, two = con.subject(I, rate), con.subject(I, rate)
        for o in (one, two):
            for _, g in con.pre(I, {"self": o, "x": None}):
                ctx.assume(zb(g))
        B = I.class_attr(I.prog.classes[con.cls], "B")
        x, z = sym_arr(I, "x", (n,)), sym_arr(I, "z", (m,))
        xf, zf = I.snap(x), I.snap(z)
        both = I.new((n + m,), "f", lambda i: num_ite(r_lt(i, n), xf(i), zf(r_sub(i, n))))
        _, _, _, _, past, hist, out, _ = con.parts(I, {"self": two, "x": both})
        y = con.spec(I, {"self": one, "x": x})
        used, J = con.used, con.J
        i = z3.Int("i")
        with Hyps(I, 0 <= i, i < J):
            a, b = I.at(y, i), out(i)
            # the samples of the first signal come from the whole
            ctx.oblige("samples of the first part", r_le(past(r_sub(J, 1)), n), assume=False)
        ctx.assume(r_eq(used, n))
        (_, _), n2, M2, pos2, past2, hist2, out2, p2 = con.parts(I, {"self": one, "x": z})
        ctx.oblige("position", r_le(0, p2.re))
        ctx.oblige("sample", r_eq(r_add(past2(j), n), past(r_add(J, j))))
        q = z3.Int("q")
        with Hyps(I, 1 <= q, past2(j) < m):
            u, v = hist2(r_sub(past2(j), q)), hist(r_sub(past(r_add(J, j)), q))
            ctx.oblige("history", num_eq_formula(u, v), assume=False)
        w = z3.Int(T.Fresh.name("w"))
        every_q = z3.ForAll([w], z3.Implies(1 <= w, num_eq_formula(hist2(r_sub(past2(j), w)), hist(r_sub(past(r_add(J, j)), w)))))
        with Hyps(I, past2(j) < m, every_q):
            ctx.oblige("output", num_eq_formula(out2(j), out(r_add(J, j))), assume=False)
        # a call uses the same rows and samples for the first part
        with Hyps(I, 0 <= i, i < J):
            ctx.oblige("first outputs", num_eq_formula(a, b), assume=False)


class PolyphaseWhole(Lemma):
    """At a whole rate a new filter consumes every sample, returns rate outputs per sample,
    and is at position zero again."""

    name = "a whole rate consumes every sample"
    modules = ("diamondback.filters.polyphase_rate_filter",)

    def run(self, I):
        ctx, con = I.ctx, Polyphase()
        n, R = z3.Int("n"), z3.Int("R")
        ctx.assume(z3.And(n >= 1, R >= 1))
        o = con.subject(I, Num("i", R).to("f"), lift(0.0))
        for _, g in con.pre(I, {"self": o, "x": None}):
            ctx.assume(zb(g))
        y = con.spec(I, {"self": o, "x": sym_arr(I, "x", (n,))})
        used, J = con.used, con.J
        _, _, M, _, past, *_ = con.parts(I, {"self": con.subject(I, Num("i", R).to("f"), lift(0.0)), "x": sym_arr(I, "x", (n,))})
        ctx.oblige("rounded", r_eq(M, n * R))
        k = z3.Int("k")
        with Hyps(I, 0 <= k, past(k) >= n):
            ctx.oblige("position", zr(k) * (z3.Q(1, 1) / zr(R)) >= zr(n))
            ctx.oblige("past", k >= n * R, assume=False)
        ctx.assume(z3.Implies(r_le(n, past(J)), J >= n * R))
        ctx.oblige("length", r_eq(length(I, y), n * R))
        ctx.oblige("every sample is consumed", r_eq(used, n))
        ctx.oblige("position zero", r_eq(I.heap.objs[o.oid].fields[con.index(I)].re, 0), assume=False)


def _before(rate, M, k):
    return [zr(least(M, T.r_neg(T.num_floor(Num("f", T.r_neg(zr(k) * rate))).re)))]


BEFORE = RecFn("outputsBefore", [T.REAL, T.INT, T.INT], _before, 1)


class PolynomialRate(Contract):
    """Output j is the value at position j / rate of the interpolant of the order."""

    qual = "PolynomialRateFilter.filter"
    modulename = "diamondback.filters.polynomial_rate_filter"
    cls = "PolynomialRateFilter"

    def configs(self):
        def setup(order, k, form, rank=1):
            def f(I):
                n = z3.Int("n")
                I.ctx.assume(n >= 0)
                rate = sym_num("rate")
                I.ctx.assume(0 < rate.re)
                o = sym_obj(I, self.cls, {"rate": rate, "order": lift(order)})
                return [o, signal(I, "x", n, k, form) if rank == 1 else sym_arr(I, "x", (n, z3.Int("m")), k)], {}

            return f

        out = {f"order {p} {form}": setup(p, k, form) for p in (1, 2, 3) for k, form in (("f", "array"), ("i", "list"))}
        out["two dimensional"] = setup(1, "f", "array", 2)
        return out

    def pre(self, I, env):
        return [("rate", r_lt(0, get(I, env["self"], "rate").re))]

    def parts(self, I, env):
        o = env["self"]
        rate, order = get(I, o, "rate").to("f"), int(get(I, o, "order").re)
        n, xf, k, rank = arg_seq(I, env["x"])
        x = lambda i: xf(i).to("f")  # noqa
        last, prev = x(r_sub(n, 1)), x(r_sub(n, 2))
        beyond = lambda i: num_ite(r_eq(i, n), lift(2) * last - prev, lift(3) * last - lift(2) * prev)  # noqa
        e = lambda i: num_ite(r_lt(i, 0), lift(2) * x(0) - x(1), num_ite(r_lt(i, n), x(i), beyond(i)))  # noqa
        v = lift(1.0) / rate
        at = lambda j: Num("i", j).to("f") * v if order > 1 else Num("i", j).to("f") / rate  # noqa

        def out(j):
            t = at(j)
            return value(T.num_floor(t).re, t)

        def value(i, t):
            u = t - Num("i", i).to("f")
            if order == 1:
                return e(i) + u * (e(r_add(i, 1)) - e(i))
            c = self.fit(I, i, e, order)
            y = lift(0.0)
            for b in c:
                y = y * u + b
            return y

        return n, rate, order, value, at, out, T.num_round(Num("i", n).to("f") * rate).re

    def fit(self, I, i, e, order):
        """Coefficients of the least squares polynomial of four neighbours."""
        from pycv.lib import FNS

        knots = I.dense([lift(float(q)) for q in (-1, 0, 1, 2)])
        return I.items(FNS["numpy.polyfit"](I, knots, I.dense([e(r_add(i, q)) for q in (-1, 0, 1, 2)]), lift(order)))

    def spec(self, I, env):
        rank = arg_seq(I, env["x"])[3]
        if rank != 1:
            raise_("ValueError")
        n, rate, order, value, at, out, M = self.parts(I, env)
        if I.ctx.branch(r_lt(n, 2)):
            raise_("ValueError")
        return I.new((M,), "f", out)

    def loops(self, I, env):
        if arg_seq(I, env["x"])[3] != 1:
            return []
        n, rate, order, value, at, out, M = self.parts(I, env)

        def done(k):
            """Outputs before sample k: those at a position below k."""
            return 0 if not is_z(k) and k == 0 else T.num_floor(BEFORE(rate.re, zi(M), zi(k))).re

        def y(m):
            return ArrForm((M,), "f", lambda j: num_ite(r_lt(j, m), out(j), lift(0).to("f")))

        def outer(I, k):
            J = done(k)
            return {"samples": Num("i", k), "index": at(J) - Num("i", k).to("f"), "outputs": Num("i", J), "y": y(J)}

        def inner(I, k):
            K = I.outer[0]
            J = r_add(done(K), k)
            return {"index": at(J) - Num("i", K).to("f"), "outputs": Num("i", J), "y": y(J)}

        def claims(I, k):
            K = I.outer[0]
            J = r_add(done(K), k)
            t = at(J)
            return [("output not before the sample", r_le(zr(K), t.re)), ("output at the sample", r_eq(T.num_floor(t).re, K))]

        return [LoopSpec("samples", outer, depth=0, optional=("samples",), claims=lambda I, k: []), LoopSpec("outputs", inner, depth=1, claims=claims)]


class PolynomialRateRate(_Setter):
    qual = "PolynomialRateFilter.rate.setter"
    modulename = "diamondback.filters.polynomial_rate_filter"
    cls = "PolynomialRateFilter"
    field, lo = "rate", 0

    def state(self, I):
        return {"rate": sym_num("old"), "order": sym_num("order", "i")}


class PolynomialRateOrder(PolynomialRateRate):
    qual = "PolynomialRateFilter.order.setter"
    field, kind, open_lo = "order", "i", True

    def state(self, I):
        return {"rate": sym_num("rate"), "order": sym_num("old", "i")}


class PolynomialRateInit(Contract):
    """Both parameters in range, or rejected."""

    qual = "PolynomialRateFilter.__init__"
    modulename = "diamondback.filters.polynomial_rate_filter"

    def configs(self):
        def setup(**kw):
            return lambda I: ([sym_obj(I, "PolynomialRateFilter", {})], {n: sym_num(n, k) for n, k in kw.items()})

        return {"rate and order": setup(rate="f", order="i"), "rate": setup(rate="f"), "whole rate": setup(rate="i", order="i")}

    def spec(self, I, env):
        rate, order = env["rate"], env["order"]
        if I.ctx.branch(b_or(r_lt(rate.re, 0), r_le(order.re, 0))):
            raise_("ValueError")
        put(I, env["self"], "rate", rate)
        put(I, env["self"], "order", order)
        return None


class PolynomialLines(Lemma):
    """Straight lines are reproduced: x(i) = a + b i gives y(j) = a + b j / rate, to the end."""

    name = "a straight line is reproduced"
    modules = ("diamondback.filters.polynomial_rate_filter",)

    def configs(self):
        return {f"order {p}": (lambda I, p=p: self.prove(I, p)) for p in (1, 2, 3)}

    def prove(self, I, order):
        ctx, con = I.ctx, PolynomialRate()
        n, j = z3.Int("n"), z3.Int("j")
        rate, a, b = sym_num("rate"), sym_num("a"), sym_num("b")
        ctx.assume(z3.And(n >= 2, 0 < rate.re))
        o = sym_obj(I, con.cls, {"rate": rate, "order": lift(order)})
        x = I.new((n,), "f", lambda i: a + b * Num("i", i).to("f"))
        y = con.spec(I, {"self": o, "x": x})
        M = length(I, y)
        with Hyps(I, 0 <= j, j < M):
            t = zr(j) / zr(rate.re)
            ctx.oblige("position within the signal", z3.And(0 <= t, t < zr(n)))
            i, u, nn = z3.Int("sample"), z3.Real("fraction"), z3.Int("n")
            _, _, _, value, at, _, _ = con.parts(I, {"self": o, "x": x})
            # every sample and fraction, then those of the output
            with Hyps(I, 0 <= i, i < n):
                v = value(i, Num("f", u))
                ctx.oblige("value", r_eq(v.re, (a + b * Num("f", u)).re), assume=False)
            ctx.oblige("output", num_eq_formula(I.at(y, j), value(T.num_floor(at(j)).re, at(j))), assume=False)
            ctx.oblige("sample", b_and(r_le(0, T.num_floor(at(j)).re), r_lt(T.num_floor(at(j)).re, n)), assume=False)
            ctx.oblige("position", r_eq(at(j).re, t), assume=False)


class PolyphaseSteady(Lemma):
    """After a reset to x, a constant signal of x comes out as x (rows have unit sum)."""

    name = "a polyphase filter reset to x is steady at x"
    modules = ("diamondback.filters.polyphase_rate_filter",)

    def run(self, I):
        from contracts.fir_filter import PolyphaseReset

        ctx, con = I.ctx, Polyphase()
        n, j = z3.Int("n"), z3.Int("j")
        x = sym_num("x")
        o = con.subject(I)
        ctx.assume(z3.And(n >= 1, get(I, o, "rate").re > 0))
        for _, g in con.pre(I, {"self": o, "x": None}):
            ctx.assume(zb(g))
        PolyphaseReset().spec(I, {"self": o, "x": x})
        (rr, cc), b, s0, rate, p0 = con.state(I, o)
        unit = lambda r: r_eq(T.num_sum(cc, lambda q: b(r, q), "f").re, 1)  # noqa  of every row
        v = I.new((n,), "f", lambda i: x)
        env = {"self": o, "x": v}
        _, _, _, pos, past, hist, out, _ = con.parts(I, env)
        y = con.spec(I, env)
        i = z3.Int("i")
        with Hyps(I, i < n):
            ctx.oblige("sample", num_eq_formula(hist(i), x), assume=False)
        with Hyps(I, 0 <= j, j < length(I, y)):
            ctx.oblige("whole part", r_lt(past(j), n))
            row = least(T.num_round(pos(j) - lift(rr) * Num("i", least(n, past(j))).to("f")).re, rr - 1)
            ctx.oblige("row", b_and(r_le(0, row), r_lt(row, rr)))
            w = z3.Int("w")
            with Hyps(I, 0 <= w, w < rr, unit(w)):
                ctx.oblige("output", r_eq(T.num_sum(cc, lambda q: b(w, q) * x, "f").re, x.re), assume=False)
            ctx.oblige("product", num_eq_formula(out(j), T.num_sum(cc, lambda q: b(row, q) * x, "f")), assume=False)
