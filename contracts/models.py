"""GaussianModel, GaussianMixtureModel and DiversityModel."""

import ast

import z3

from contracts.rates import position_field
from contracts.simple_filters import Setter as _Setter
from pycv.contract import Lemma
from pycv.effects import mixture_estimate
from pycv.lib import FNS, argsort_fn, sorted_unique
from pycv.std import *  # noqa
from pycv.std import T

GAUSSIAN = "diamondback.models.gaussian_model"


def model_field(I, cls):
    """The attribute holding the fitted models."""
    return position_field(I, cls, ("index", "order", "regularize", "shape"))


class Regularize(_Setter):
    qual = "GaussianModel.regularize.setter"
    modulename = GAUSSIAN
    cls = "GaussianModel"
    field, lo = "regularize", 0


class GaussianInit(Contract):
    """No models, no shape."""

    qual = "GaussianModel.__init__"
    modulename = GAUSSIAN

    def configs(self):
        return {k: lambda I, k=k: ([sym_obj(I, "GaussianModel", {})], {"regularize": sym_num("regularize", k)}) for k in "fi"}

    def spec(self, I, env):
        o, r = env["self"], env["regularize"]
        if I.ctx.branch(r_lt(r.re, 0)):
            raise_("ValueError")
        put(I, o, "regularize", r)
        put(I, o, "shape", ())
        I.heap.objs[o.oid].fields[model_field(I, "GaussianModel")] = I.heap.new_list([])
        return None


def classes(I, y):
    """(number, label) of the distinct labels in increasing order."""
    s = I.heap.lists[sorted_unique(I, y).ref]
    return s.n, s.fn


def members(I, x, y, label):
    """(number, element function) of the observations of a class."""
    yf = I.snap(y)
    n = I.shape(y)[0]
    at = FNS["numpy.flatnonzero"](I, I.new((n,), "b", lambda i: Num("b", r_eq(yf(i).re, label.re))))
    f, g = I.snap(x), I.snap(at)
    return I.shape(at)[0], lambda i, j: f(g(i).re, j)


class GaussianFit(Contract):
    """One model per distinct label in increasing order: the mean of its observations and the
    inverse of their covariance, normalised by their number, plus the regularisation."""

    qual = "GaussianModel.fit"
    modulename = GAUSSIAN
    cls = "GaussianModel"

    def configs(self):
        def setup(rank, k):
            def f(I):
                n, c, m = z3.Int("n"), z3.Int("columns"), z3.Int("m")
                I.ctx.assume(z3.And(n >= 0, c >= 0, m >= 0))
                o = sym_obj(I, self.cls, {"regularize": sym_num("regularize"), "shape": ()})
                I.heap.objs[o.oid].fields[model_field(I, self.cls)] = I.heap.new_list(SymSeq(z3.Int("models"), lambda i: lift(0)))
                x = sym_arr(I, "x", (n, c)) if rank == 2 else sym_arr(I, "x", (n,) * rank)
                return [o, x, sym_arr(I, "y", (m,), k)], {}

            return f

        return {"observations": setup(2, "i"), "labels that are no integers": setup(2, "f"), "one dimension": setup(1, "i"), "three dimensions": setup(3, "i")}

    def pre(self, I, env):
        return [("regularize", r_le(0, get(I, env["self"], "regularize").re))]

    def model(self, I, x, y, r, label):
        C = I.shape(x)[1]
        m, z = members(I, x, y, label)
        mean = I.new((C,), "f", lambda j: T.num_sum(m, lambda i: z(i, j), "f") / Num("i", m).to("f"))
        u = I.snap(mean)

        def cov(p, q):
            v = T.num_sum(m, lambda i: (z(i, p) - u(p)) * (z(i, q) - u(q)), "f") / Num("i", m).to("f")
            return v + r * num_ite(r_eq(p, q), lift(1.0), lift(0.0))

        return I.heap.new_dict({I.key("covariancei"): FNS["numpy.linalg.inv"](I, I.new((C, C), "f", cov)), I.key("mean"): mean})

    def spec(self, I, env):
        o, x, y = env["self"], env["x"], env["y"]
        sh = I.shape(x)
        if len(sh) != 2:
            raise_("ValueError")
        if I.ctx.branch(b_or(r_eq(sh[0], 0), r_eq(sh[1], 0), b_not(r_eq(length(I, y), sh[0])))):
            raise_("ValueError")
        if I.kind(y) != "i":
            raise_("TypeError")
        put(I, o, "shape", (Num("i", sh[1]),))
        n, label = classes(I, y)
        r = get(I, o, "regularize").to("f")
        I.heap.objs[o.oid].fields[model_field(I, self.cls)] = I.heap.new_list(SymSeq(n, lambda i: self.model(I, x, y, r, label(i))))
        return None

    def loops(self, I, env):
        o, x, y = env["self"], env["x"], env["y"]
        if len(I.shape(x)) != 2 or I.kind(y) != "i":
            return []
        n, label = classes(I, y)
        r = get(I, o, "regularize").to("f")
        return [LoopSpec("classes", lambda I, k: {"models": SeqForm(k, lambda I, i: self.model(I, x, y, r, label(i)))})]


class GaussianPredict(Contract):
    """The classes of each observation in order of increasing distance."""

    qual = "GaussianModel.predict"
    parametric = True
    modulename = GAUSSIAN
    cls = "GaussianModel"

    def configs(self):
        def setup(rank, same=True):
            def f(I):
                n, c, m, d = z3.Int("n"), z3.Int("columns"), z3.Int("models"), z3.Int("d")
                I.ctx.assume(z3.And(n >= 0, c >= 1, m >= 0, d >= 0, d != c))
                d = c if same else d
                o = sym_obj(I, self.cls, {"regularize": sym_num("regularize"), "shape": (Num("i", c),)})
                P, U = sym_fn("inverse", "f", 3), sym_fn("mean", "f", 2)
                I.ctx.g["model"] = m, c, P, U
                form = SeqForm(m, lambda I, i: I.heap.new_dict({I.key("covariancei"): I.new((c, c), "f", lambda p, q: P(i, p, q)), I.key("mean"): I.new((c,), "f", lambda q: U(i, q))}))
                I.heap.objs[o.oid].fields[model_field(I, self.cls)] = I.heap.new_list(form.value(I))
                return [o, sym_arr(I, "x", (n, d) if rank == 2 else (n,) * rank)], {}

            return f

        return {"observations": setup(2), "other columns": setup(2, False), "one dimension": setup(1), "three dimensions": setup(3)}

    def distance(self, I, x, jj, ii):
        m, c, P, U = I.ctx.g["model"]
        f = I.snap(x)
        d = lambda q: f(jj, q) - U(ii, q)  # noqa
        v = T.num_sum(c, lambda q: T.num_sum(c, lambda p: d(p) * P(ii, p, q), "f") * d(q), "f")
        return num_ite(r_lt(v.re, 0), lift(0.0), v)

    def spec(self, I, env):
        m, c, P, U = I.ctx.g["model"]
        x = env["x"]
        sh = I.shape(x)
        if I.ctx.branch(r_eq(m, 0)):
            raise_("ValueError")
        if len(sh) != 2:
            raise_("ValueError")
        if I.ctx.branch(b_or(r_eq(sh[0], 0), b_not(r_eq(sh[1], c)))):
            raise_("ValueError")
        return I.new((sh[0], m), "i", lambda r, i: argsort_fn(m, lambda k: self.distance(I, x, r, k))(i))

    def loops(self, I, env):
        m, c, P, U = I.ctx.g["model"]
        x = env["x"]
        if len(I.shape(x)) != 2:
            return []
        n = I.shape(x)[0]
        at = lambda I, done: ArrForm((n, m), "f", lambda r, i: num_ite(done(r, i), self.distance(I, x, r, i), lift(0.0)))  # noqa
        inner = lambda I, K, k: at(I, lambda r, i: b_or(r_lt(r, K), b_and(r_eq(r, K), r_lt(i, k))))  # noqa
        return [
            LoopSpec("observations", lambda I, k: {"distance": at(I, lambda r, i: r_lt(r, k))}, depth=0),
            LoopSpec("models", lambda I, k: {"distance": inner(I, I.outer[0], k)}, depth=1),
        ]


MIXTURE = "diamondback.models.gaussian_mixture_model"


class MixtureRegularize(Regularize):
    qual = "GaussianMixtureModel.regularize.setter"
    modulename = MIXTURE
    cls = "GaussianMixtureModel"


class MixtureIndex(_Setter):
    qual = "GaussianMixtureModel.index.setter"
    modulename = MIXTURE
    cls = "GaussianMixtureModel"
    field, lo, open_lo, kind = "index", 0, True, "i"


class MixtureInit(Contract):
    """No models, no shape."""

    qual = "GaussianMixtureModel.__init__"
    modulename = MIXTURE
    cls = "GaussianMixtureModel"

    def configs(self):
        return {k: lambda I, k=k: ([sym_obj(I, self.cls, {})], {"order": sym_num("order", "i"), "index": sym_num("index", "i"), "regularize": sym_num("regularize", k)}) for k in "fi"}

    def spec(self, I, env):
        o = env["self"]
        if I.ctx.branch(b_or(r_le(env["order"].re, 0), r_le(env["index"].re, 0), r_lt(env["regularize"].re, 0))):
            raise_("ValueError")
        for n in ("order", "index", "regularize"):
            put(I, o, n, env[n])
        put(I, o, "shape", ())
        I.heap.objs[o.oid].fields[model_field(I, self.cls)] = I.heap.new_list([])
        return None


class MixtureFit(GaussianFit):
    """One mixture per distinct label in increasing order, estimated from its observations
    with the components, iterations and regularisation of the model."""

    qual = "GaussianMixtureModel.fit"
    modulename = MIXTURE
    cls = "GaussianMixtureModel"

    def configs(self):
        def more(setup):
            def f(I):
                args, kw = setup(I)
                put(I, args[0], "order", sym_num("order", "i"))
                put(I, args[0], "index", sym_num("index", "i"))
                return args, kw

            return f

        return {k: more(v) for k, v in super().configs().items()}

    def pre(self, I, env):
        o = env["self"]
        return super().pre(I, env) + [(n, r_lt(0, get(I, o, n).re)) for n in ("order", "index")]

    def parameters(self, I, o):
        return {"n_components": get(I, o, "order"), "covariance_type": "full", "reg_covar": get(I, o, "regularize").to("f"), "max_iter": get(I, o, "index")}

    def model(self, I, x, y, r, label):
        p = self.parameters(I, I.ctx.g["params"]["self"])
        m, z = members(I, x, y, label)
        return I.heap.new_obj("GaussianMixture", {**p, **mixture_estimate(I, p, m, I.shape(x)[1], z)})


class MixturePredict(Contract):
    """The classes of each observation in order of decreasing likelihood: the sum over the
    components of weight times the exponential of minus half the distance."""

    qual = "GaussianMixtureModel.predict"
    modulename = MIXTURE
    cls = "GaussianMixtureModel"
    parametric = True

    def configs(self):
        def setup(rank, same=True):
            def f(I):
                n, c, m, d = z3.Int("n"), z3.Int("columns"), z3.Int("models"), z3.Int("d")
                K = z3.Int("order")
                I.ctx.assume(z3.And(n >= 0, c >= 1, m >= 0, d >= 0, d != c, K >= 1))
                d = c if same else d
                o = sym_obj(I, self.cls, {"regularize": sym_num("regularize"), "shape": (Num("i", c),), "order": Num("i", K), "index": sym_num("index", "i")})
                P, U, W = sym_fn("precision", "f", 4), sym_fn("mean", "f", 3), sym_fn("weight", "f", 2)
                I.ctx.g["model"] = m, c, K, P, U, W

                def model(I, i):
                    e = {
                        "precisions_": I.new((K, c, c), "f", lambda k, p, q: P(i, k, p, q)), "means_": I.new((K, c), "f", lambda k, q: U(i, k, q)),
                        "weights_": I.new((K,), "f", lambda k: W(i, k)),
                    }
                    return I.heap.new_obj("GaussianMixture", {**MixtureFit().parameters(I, o), **e})

                I.heap.objs[o.oid].fields[model_field(I, self.cls)] = I.heap.new_list(SeqForm(m, model).value(I))
                return [o, sym_arr(I, "x", (n, d) if rank == 2 else (n,) * rank)], {}

            return f

        return {"observations": setup(2), "other columns": setup(2, False), "one dimension": setup(1), "three dimensions": setup(3)}

    def likelihood(self, I, x, jj, ii, k=None):
        """The sum of the terms of the first k components, recursively."""
        m, c, K, P, U, W = I.ctx.g["model"]
        f = I.snap(x)

        def term(jj, ii, kk):
            d = lambda q: f(jj, q) - U(ii, kk, q)  # noqa
            v = T.num_sum(c, lambda q: T.num_sum(c, lambda p: d(p) * P(ii, kk, p, q), "f") * d(q), "f")
            return W(ii, kk) * T.num_exp(lift(-0.5) * num_ite(r_lt(v.re, 0), lift(0.0), v))

        def defn(jj, ii, k):
            return [z3.If(k <= 0, z3.RealVal(0), total(jj, ii, k - 1).re + T.zr(term(jj, ii, k - 1).re))]

        total = RecFn("mixture", [T.INT, T.INT, T.INT], defn, 1)
        return total(jj, ii, K if k is None else k)

    def spec(self, I, env):
        m, c, K, P, U, W = I.ctx.g["model"]
        x = env["x"]
        sh = I.shape(x)
        if I.ctx.branch(r_eq(m, 0)):
            raise_("ValueError")
        if len(sh) != 2:
            raise_("ValueError")
        if I.ctx.branch(b_or(r_eq(sh[0], 0), b_not(r_eq(sh[1], c)))):
            raise_("ValueError")
        return I.new((sh[0], m), "i", lambda r, i: argsort_fn(m, lambda k: self.likelihood(I, x, r, k))(r_sub(r_sub(m, 1), i)))

    def loops(self, I, env):
        m, c, K, P, U, W = I.ctx.g["model"]
        x = env["x"]
        if len(I.shape(x)) != 2:
            return []
        n = I.shape(x)[0]

        def at(done, part):
            return ArrForm((n, m), "f", lambda r, i: num_ite(done(r, i), self.likelihood(I, x, r, i), part(r, i)))

        zero = lambda r, i: lift(0.0)  # noqa
        before = lambda K, k: lambda r, i: b_or(r_lt(r, K), b_and(r_eq(r, K), r_lt(i, k)))  # noqa

        def inner(I, J, i0, k):
            return at(before(J, i0), lambda r, i: num_ite(b_and(r_eq(r, J), r_eq(i, i0)), self.likelihood(I, x, J, i0, k), lift(0.0)))

        return [
            LoopSpec("observations", lambda I, k: {"likelihood": at(lambda r, i: r_lt(r, k), zero)}, depth=0),
            LoopSpec("models", lambda I, k: {"likelihood": at(before(I.outer[0], k), zero)}, depth=1),
            LoopSpec("components", lambda I, k: {"likelihood": inner(I, I.outer[0], I.outer[1], k)}, depth=2),
        ]


DIVERSITY = "diamondback.models.diversity_model"

F_DISTANCE = z3.Function("distance", T.SEQ, T.SEQ, T.REAL)


@T.schema("distance")
def _ax_distance(d, x, y):
    return [z3.And(d >= 0, d < T.INF)]


def distance(n, x, y):
    """Any function of two vectors that is finite and not negative (lemma Distances)."""
    return F_DISTANCE(T.seq([n], lambda i: [T.zr(x(i).to("f").re)]), T.seq([n], lambda i: [T.zr(y(i).to("f").re)]))


def distance_call(I, x, y):
    return Num("f", distance(I.shape(x)[0], I.snap(x), I.snap(y)))


def diversity_fields(I):
    """The attributes holding the diversity and the distance function."""
    c = I.prog.classes["DiversityModel"]
    init = I.prog.find(c, "__init__")
    names = {}
    for n in ast.walk(init.node):
        for t in n.targets if isinstance(n, ast.Assign) else []:
            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" and t.attr not in ("s", fname(I, c.name, "s")):
                names[t.attr] = any(isinstance(v, (ast.Attribute, ast.Name)) and "DISTANCE" in ast.dump(v) for v in ast.walk(n.value))
    if sorted(names.values()) != [False, True]:
        raise Unsupported("attributes of DiversityModel")
    return sorted(names, key=lambda k: names[k])


class Diversity:
    """What a model does to a sequence of observations x: after k of them its members are
    st(k), its diversity div(k). A full model takes x(k) in the place of the member whose
    replacement raises the least distance most, if any does."""

    def __init__(self, I, N, D, f, s0, div0, x):
        self.N, self.D, self.f = N, D, f
        i = [T.INT]
        self.ST = RecFn("member", i * 3, self._st)  # r, q, k
        self.DIV = RecFn("diversity", i, self._div)
        self.IN0 = RecFn("least0", i * 3, self._in0)  # k, u, v
        self.OUT0 = RecFn("least0.", i * 2, self._out0)  # k, u
        self.IN = RecFn("least", i * 4, self._in)  # k, member replaced, u, v
        self.OUT = RecFn("least.", i * 3, self._out)
        self.W = RecFn("raised", i * 2, self._w)  # k, number of members tried
        self.A = RecFn("replaced", i * 2, self._a)
        self.s0, self.div0, self.x = s0, div0, x

    def count(self, k):
        return least(r_add(self.f, k), self.N)

    def filling(self, k):
        return zb(r_lt(r_add(self.f, k), self.N))

    def st(self, k):
        return lambda r, q: num_ite(r_le(k, 0), self.s0(r, q), self.ST(r, q, k))

    def div(self, k):
        return self.DIV(k)

    def row(self, k, r, member=None):
        s = self.st(k)
        if member is None:
            return lambda q: s(r, q)
        return lambda q: num_ite(r_eq(r, member), self.x(k, q), s(r, q))

    def pair(self, k, u, v, member=None):
        return distance(self.D, self.row(k, u, member), self.row(k, v, member))

    def least(self, k):
        """Over all pairs of members."""
        return self.pairs0(k, r_sub(self.N, 1))

    def pairs0(self, k, u, v=None):
        """Over the pairs of the first u members with later ones (and of the next with those before v)."""
        return nonneg(self.OUT0(k, u) if v is None else self.IN0(k, u, v))

    def pairs(self, k, m, u, v=None):
        return nonneg(self.OUT(k, m, u) if v is None else self.IN(k, m, u, v))

    def held(self, k):
        """The diversity before observation k of a full model."""
        d = self.div(k)
        return num_ite(r_eq(d.re, 0), self.least(k), d)

    def raised(self, k, m):
        """The most reached by replacing one of the first m members."""
        h = self.held(k)
        return num_ite(r_lt(h.re, self.W(k, m).re), self.W(k, m), h)

    def replaced(self, k, m):
        a = T.num_floor(self.A(k, m)).re
        a = r_ite(r_lt(a, 0), 0, r_ite(r_lt(a, self.N), a, r_sub(self.N, 1)))
        return Num("i", r_ite(r_lt(self.held(k).re, self.raised(k, m).re), a, -1))

    # definitions, by recursion on the last argument
    def _st(self, r, q, k):
        j = k - 1
        old, new = self.st(j)(r, q).re, T.zr(self.x(j, q).re)
        full = z3.And(zb(r_lt(self.held(j).re, self.raised(j, self.N).re)), r == zi(self.replaced(j, self.N).re))
        return [z3.If(z3.If(self.filling(j), r == zi(self.f) + j, full), new, zr(old))]

    def _div(self, k):
        j = k - 1
        return [z3.If(k <= 0, zr(self.div0.re), z3.If(self.filling(j), zr(self.div(j).re), zr(self.raised(j, self.N).re)))]

    def _in0(self, k, u, v):
        return [z3.If(v <= u + 1, zr(self.OUT0(k, u).re), zr(least(self.IN0(k, u, v - 1).re, self.pair(k, u, v - 1))))]

    def _out0(self, k, u):
        return [z3.If(u <= 0, T.INF, zr(self.IN0(k, u - 1, self.N).re))]

    def _in(self, k, m, u, v):
        return [z3.If(v <= u + 1, zr(self.OUT(k, m, u).re), zr(least(self.IN(k, m, u, v - 1).re, self.pair(k, u, v - 1, m))))]

    def _out(self, k, m, u):
        return [z3.If(u <= 0, T.INF, zr(self.IN(k, m, u - 1, self.N).re))]

    def _w(self, k, m):
        w, p = self.W(k, m - 1).re, self.pairs(k, m - 1, r_sub(self.N, 1)).re
        return [z3.If(m <= 0, zr(self.held(k).re), zr(r_ite(r_lt(w, p), p, w)))]

    def _a(self, k, m):
        p = self.pairs(k, m - 1, r_sub(self.N, 1)).re
        return [z3.If(m <= 0, z3.RealVal(0), z3.If(zb(r_lt(self.raised(k, m - 1).re, p)), z3.ToReal(m - 1), zr(self.A(k, m - 1).re)))]


def least(a, b):
    return r_ite(r_le(a, b), a, b)


def nonneg(v):
    return num_ite(r_lt(v.re, 0), lift(0.0), v)


class DiversityFit(Contract):
    """Members and diversity after each observation, those of the class Diversity."""

    qual = "DiversityModel.fit"
    modulename = DIVERSITY
    parametric = True
    opt = AxiomOptions(unfold=1, rounds=3, timeout=20000)

    def configs(self):
        def setup(rank, known, same=True):
            def f(I):
                I.ctx.g["infinity"] = True
                n, d, N, D, filled = [z3.Int(s) for s in ("n", "d", "members", "columns", "filled")]
                I.ctx.assume(z3.And(n >= 0, d >= 0, N >= 2, D >= 1, 0 <= filled, filled <= N, d != D, T.INF > 0, T.FMAX > 0))
                S = sym_fn("s0", "f", 2)
                if known:
                    from pycv.lib import isclose_raw

                    d = D if same else d
                    safe = lambda v: num_ite(isclose_raw(v, Num("f", T.FMAX)), lift(0.0), v)  # noqa
                    s0 = lambda r, q: num_ite(r_lt(r, filled), num_ite(r_eq(q, 0), safe(S(r, q)), S(r, q)), Num("f", T.FMAX))  # noqa
                    s = I.heap.new_cell((N, D), "f", s0)
                    div0 = z3.Real("diversity0")
                    I.ctx.assume(z3.And(div0 >= 0, z3.Implies(filled < N, div0 == 0)))
                else:
                    s, s0, div0, filled = sym_arr(I, "s0", (N, 0)), lambda r, q: Num("f", T.FMAX), 0, 0
                x = sym_arr(I, "x", (n, d) if rank == 2 else (n,) * rank)
                o = sym_obj(I, "DiversityModel", {"s": s})
                fields = I.heap.objs[o.oid].fields
                diversity, metric = diversity_fields(I)
                fields[diversity], fields[metric] = Num("f", div0 if known else z3.RealVal(0)), Opaque("function", None, {"call": distance_call})
                I.ctx.g["model"] = Diversity(I, N, d, filled, s0, fields[diversity], I.snap(x)) if rank == 2 else None
                return [o, x], {}

            return f

        return {
            "first observations": setup(2, False), "observations": setup(2, True), "other columns": setup(2, True, False),
            "one dimension": setup(1, True), "three dimensions": setup(3, False),
        }

    def spec(self, I, env):
        o, x = env["self"], env["x"]
        sh = I.shape(x)
        if len(sh) != 2 or I.ctx.branch(b_or(r_eq(sh[0], 0), r_eq(sh[1], 0))):
            raise_("ValueError")
        s = get(I, o, "s")
        D = I.shape(s)[1]
        if I.ctx.branch(b_and(b_not(r_eq(D, 0)), b_not(r_eq(sh[1], D)))):
            raise_("ValueError")
        M, n = I.ctx.g["model"], sh[0]
        if not is_z(D) and D == 0:
            put(I, o, "s", I.new((M.N, M.D), "f", M.st(n)))
        else:
            set_cell(I, s, M.st(n))
        I.heap.objs[o.oid].fields[diversity_fields(I)[0]] = M.div(n)
        return I.new((n,), "f", lambda k: M.div(r_add(k, 1)))

    def loops(self, I, env):
        M, x = I.ctx.g["model"], env["x"]
        if M is None:
            return []
        n, N = I.shape(x)[0], M.N

        def steps(I, k):
            return {
                "s": ArrForm((N, M.D), "f", M.st(k)), "diversity": M.div(k), "count": Num("i", M.count(k)),
                "y": ArrForm((n,), "f", lambda i: num_ite(r_lt(i, k), M.div(r_add(i, 1)), lift(0.0))),
            }

        where = {"diversity": ("self", diversity_fields(I)[0].removeprefix("_"))}
        return [
            LoopSpec("observations", steps, {**where, "s": ("self", "s")}, depth=0),
            LoopSpec("members", lambda I, k: {"count": Num("i", least(k, M.f))}, depth=0),
            LoopSpec("first of held pairs", lambda I, k: {"diversity": M.pairs0(I.outer[0], k)}, where, depth=1),
            LoopSpec("second of held pairs", lambda I, k: {"diversity": M.pairs0(I.outer[0], I.outer[1], r_add(I.outer[1], r_add(1, k)))}, where, depth=2),
            LoopSpec("replacements", lambda I, k: {"value": M.raised(I.outer[0], k), "place": M.replaced(I.outer[0], k)}, depth=1),
            LoopSpec("first of pairs", lambda I, k: {"least": M.pairs(I.outer[0], I.outer[1], k)}, depth=2),
            LoopSpec("second of pairs", lambda I, k: {"least": M.pairs(I.outer[0], I.outer[1], I.outer[2], r_add(I.outer[2], r_add(1, k)))}, depth=3),
        ]


STYLES = ("Chebyshev", "Euclidean", "Geometric", "Manhattan")


def metric_of(I, style):
    """The entry of DISTANCE."""
    table = I.class_attr(I.prog.classes["DiversityModel"], "DISTANCE")
    return I.heap.dicts[table.ref][I.key(style)]


class DiversityInit(Contract):
    """No members of unknown length, no diversity, the distance function of the style."""

    qual = "DiversityModel.__init__"
    modulename = DIVERSITY

    def configs(self):
        def setup(style):
            return lambda I: ([sym_obj(I, "DiversityModel", {})], {"style": style, "order": sym_num("order", "i")})

        return {s or "none": setup(s) for s in ("Chebyshev", "euclidean", "GEOMETRIC", "Manhattan", "", "Cosine")}

    def spec(self, I, env):
        style, order = env["style"].title(), env["order"].re
        if style not in STYLES:
            raise_("ValueError")
        if I.ctx.branch(r_lt(order, 0)):
            raise_("ValueError")
        diversity, metric = diversity_fields(I)
        fields = I.heap.objs[env["self"].oid].fields
        fields[diversity], fields[metric] = lift(0.0), metric_of(I, style)
        put(I, env["self"], "s", I.new((r_add(order, 1), 0), "f", lambda r, q: lift(0.0)))
        return None


class DiversityClear(Contract):
    """As after __init__."""

    qual = "DiversityModel.clear"
    modulename = DIVERSITY

    def configs(self):
        def setup(I):
            N, D = z3.Int("members"), z3.Int("columns")
            I.ctx.assume(z3.And(N >= 1, D >= 0))
            o = sym_obj(I, "DiversityModel", {"s": sym_arr(I, "s0", (N, D))})
            fields = I.heap.objs[o.oid].fields
            diversity, metric = diversity_fields(I)
            fields[diversity], fields[metric] = sym_num("diversity0"), Opaque("function", None, {"call": distance_call})
            return [o], {}

        return {"": setup}

    def spec(self, I, env):
        o = env["self"]
        N = I.shape(get(I, o, "s"))[0]
        I.heap.objs[o.oid].fields[diversity_fields(I)[0]] = lift(0.0)
        put(I, o, "s", I.new((N, 0), "f", lambda r, q: lift(0.0)))
        return None


class Distances(Lemma):
    """The distance functions of the styles, none of them negative."""

    name = "the distance of each style"
    modules = (DIVERSITY,)
    opt = AxiomOptions(split=True)

    def configs(self):
        return {s: (lambda I, s=s: self.prove(I, s)) for s in STYLES}

    def prove(self, I, style):
        n = z3.Int("n")
        I.ctx.assume(n >= 1)
        x, y = sym_arr(I, "x", (n,)), sym_arr(I, "y", (n,))
        f, g = I.snap(x), I.snap(y)
        got = I.num(I.call(metric_of(I, style), [x, y], {}))
        d = lambda i: T.num_abs(f(i) - g(i))  # noqa
        red = lambda what: I.num(FNS["numpy." + what](I, I.new((n,), "f", d)))  # noqa
        if style == "Chebyshev":
            want = red("max")
        elif style == "Manhattan":
            want = T.num_sum(n, d, "f")
        elif style == "Euclidean":
            want = T.num_sqrt(T.num_sum(n, lambda i: (f(i) - g(i)) * (f(i) - g(i)), "f"))
        else:
            want = T.num_pow(red("prod"), lift(1.0) / Num("i", n).to("f"))
        I.ctx.oblige("value", r_eq(got.re, want.re), assume=False)
        if style in ("Manhattan", "Euclidean"):
            # a sum of terms that are not negative, by induction
            term = d if style == "Manhattan" else lambda i: seq_sum_term(I, f, g, i)
            m = z3.Int("m")
            total = lambda m: T.F_SUM(T.seq([m], lambda i: [term(i).re]))  # noqa
            I.ctx.assume(m >= 0)
            I.ctx.oblige("no terms", total(z3.IntVal(0)) == 0, assume=False)
            I.ctx.oblige("next term", z3.Implies(total(m) >= 0, total(m + 1) >= 0), assume=False)
            if style == "Euclidean":
                I.ctx.assume(raw_sum(n, lambda i: seq_sum_term(I, f, g, i).re)[1])  # the sum term by term
                I.ctx.oblige("sum", want.re == T.F_SQRT(total(n)), assume=False)
                I.ctx.oblige("not negative", z3.Implies(total(n) >= 0, T.F_SQRT(total(n)) >= 0), assume=False)
            else:
                I.ctx.oblige("not negative", z3.Implies(total(n) >= 0, zb(r_le(0, got.re))), assume=False)
        else:
            I.ctx.oblige("not negative", r_le(0, got.re), assume=False)


def seq_sum_term(I, f, g, i):
    return (f(i) - g(i)) * (f(i) - g(i))


class DiversityKept(Lemma):
    """What the steps of Diversity mean: the diversity never decreases and is the least distance
    between members, a member is replaced exactly when that raises it, by the best replacement."""

    name = "diversity is kept"
    modules = (DIVERSITY,)
    opt = AxiomOptions(unfold=2, rounds=4, timeout=20000)

    def configs(self):
        return {s: (lambda I, s=s: self.prove(I, s)) for s in ("steps", "least pair", "best replacement", "reached", "next members", "next diversity")}

    def prove(self, I, what):
        ctx = I.ctx
        T.Fresh.parametric = True
        try:
            self.state(I, what)
        finally:
            T.Fresh.parametric = False

    def state(self, I, what):
        ctx = I.ctx
        N, D, f, n = [z3.Int(s) for s in ("members", "columns", "filled", "n")]
        ctx.assume(z3.And(N >= 2, D >= 1, 0 <= f, f <= N, T.INF > 0))
        div0 = sym_num("diversity0")
        M = Diversity(I, N, D, f, sym_fn("s0", "f", 2), div0, sym_fn("x", "f", 2))
        k, m, a, b, u, v, r, q = [T.mark_bound(z3.Int(s)) for s in ("k^", "m^", "a^", "b^", "u^", "v^", "r^", "q^")]
        ctx.assume(k >= 0)
        ob = lambda name, g: ctx.oblige(name, zb(g), assume=False)  # noqa
        full, last = z3.Not(M.filling(k)), r_sub(N, 1)
        raised = zb(r_lt(M.held(k).re, M.raised(k, N).re))
        at = zi(M.replaced(k, N).re)
        if what == "steps":
            ob("never decreases", r_le(M.div(k).re, M.div(k + 1).re))
            ctx.assume(z3.And(0 <= r, r < N, 0 <= q, q < D))
            old, new = M.st(k)(r, q).re, M.st(k + 1)(r, q).re
            ob("filling", z3.Implies(M.filling(k), zb(r_eq(new, r_ite(r_eq(r, r_add(f, k)), M.x(k, q).re, old)))))
            ob("kept", z3.Implies(z3.And(full, z3.Not(raised)), zb(r_eq(new, old))))
            ob("replaced", z3.Implies(z3.And(full, raised), zb(r_eq(new, r_ite(r_eq(r, at), M.x(k, q).re, old)))))
            ob("diversity", z3.Implies(full, zb(r_eq(M.div(k + 1).re, M.raised(k, N).re))))
        elif what == "least pair":
            # by induction: at most the distance of every pair so far
            ctx.assume(z3.And(0 <= a, a < b, b < N, 0 <= u))
            for name, fold, start, p in (
                ("held", lambda u, v: M.IN0(k, u, v), lambda u: M.OUT0(k, u), lambda u, v: M.pair(k, u, v)),
                ("replaced", lambda u, v: M.IN(k, m, u, v), lambda u: M.OUT(k, m, u), lambda u, v: M.pair(k, u, v, m)),
            ):
                P = lambda u, v, fold=fold, p=p: z3.Implies(z3.Or(a < u, z3.And(a == u, b < v)), zr(fold(u, v).re) <= p(a, b))  # noqa
                Q = lambda u, start=start, p=p: z3.Implies(a < u, zr(start(u).re) <= p(a, b))  # noqa
                ob(name + " none", Q(z3.IntVal(0)))
                ob(name + " next first", z3.Implies(P(u, N), Q(u + 1)))
                ob(name + " no second", z3.Implies(z3.And(v <= u + 1, Q(u)), P(u, v)))
                ob(name + " next second", z3.Implies(z3.And(v > u, P(u, v), v < N), P(u, v + 1)))
            ob("all of them", z3.Implies(zb(r_le(M.OUT0(k, N - 1).re, M.pair(k, a, b))), zb(r_le(M.least(k).re, M.pair(k, a, b)))))
        elif what == "best replacement":
            S = lambda j: M.pairs(k, j, last).re  # noqa
            ctx.assume(z3.And(0 <= a, 0 <= m))
            P = lambda m: z3.Implies(a < m, zb(r_le(S(a), M.raised(k, m).re)))  # noqa
            ob("none", P(z3.IntVal(0)))
            ob("next", z3.Implies(P(m), P(m + 1)))
        elif what == "reached":
            ctx.assume(z3.And(0 <= m, m < N))
            S = lambda j: M.pairs(k, j, last).re  # noqa
            P = lambda m: z3.Implies(zb(r_lt(M.held(k).re, M.raised(k, m).re)), z3.And(0 <= zi(M.replaced(k, m).re), zi(M.replaced(k, m).re) < m))  # noqa
            ob("none", P(z3.IntVal(0)))
            ob("next", z3.Implies(P(m), P(m + 1)))
            better = zb(r_lt(M.raised(k, m).re, S(m)))
            ob("value", z3.Implies(better, z3.And(zb(r_eq(M.raised(k, m + 1).re, S(m))), zi(M.replaced(k, m + 1).re) == m)))
            ob("as before", z3.Implies(z3.Not(better), z3.And(zb(r_eq(M.raised(k, m + 1).re, M.raised(k, m).re)), zi(M.replaced(k, m + 1).re) == zi(M.replaced(k, m).re))))
        elif what == "next members":
            # the members after a replacement are those its value was computed from
            ctx.assume(z3.And(full, raised, 0 <= u, u < v, v < N, m == at))
            ctx.assume(z3.And(0 <= q, q < D))
            ob("first", r_eq(M.row(k, u, m)(q).re, M.row(k + 1, u)(q).re))
            ob("pair", r_eq(M.pair(k, u, v, m), M.pair(k + 1, u, v)))
        else:
            # by induction: their least distance is the value
            ctx.assume(z3.And(full, 0 <= u, u < N))
            I0, O0 = lambda u, v: zr(M.IN0(k + 1, u, v).re), lambda u: zr(M.OUT0(k + 1, u).re)  # noqa
            I1, O1 = lambda u, v: zr(M.IN(k, m, u, v).re), lambda u: zr(M.OUT(k, m, u).re)  # noqa
            ob("none", O0(z3.IntVal(0)) == O1(z3.IntVal(0)))
            ob("next first", z3.Implies(I0(u, N) == I1(u, N), O0(u + 1) == O1(u + 1)))
            ob("no second", z3.Implies(z3.And(v <= u + 1, O0(u) == O1(u)), I0(u, v) == I1(u, v)))
            same = zb(r_eq(M.pair(k, u, v, m), M.pair(k + 1, u, v)))
            ob("next second", z3.Implies(z3.And(v > u, v < N, I0(u, v) == I1(u, v), same), I0(u, v + 1) == I1(u, v + 1)))
            ob("value", z3.Implies(z3.And(O0(N - 1) == O1(N - 1), m == at, zb(r_eq(M.raised(k, N).re, M.pairs(k, m, last).re))), zb(r_eq(M.div(k + 1).re, M.least(k + 1).re))))
