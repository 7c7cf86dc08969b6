"""ZTransform: poles and zeros, or poles and residues, of the s domain section to z domain coefficients."""

from pycv.lib import F_POLY, F_RES, F_RES_N, F_ROOTS, F_ROOTS_N, any_of, cseq, forall_fact
from pycv.std import *  # noqa
from pycv.std import T

FIRST = z3.Function("first.nonzero", T.SEQ, T.INT)


def nonzero(x):
    return b_not(num_eq_formula(x, lift(0).to(x.k)))


class Trim:
    """A sequence without its leading zeros, which are fewer than its elements."""

    def __init__(self, n, f, k):
        self.n, self.f, self.k = zi(n), f, k
        self.F = FIRST(cseq(n, f))
        self.m = self.n - self.F

    def facts(self, k=None):
        r = [z3.And(0 <= self.F, self.F < self.n, zb(nonzero(self.f(self.F))))]
        if k is not None:
            r.append(zb(b_implies(r_lt(k, self.F), b_not(nonzero(self.f(k))))))
        return r

    def at(self, i):
        return self.f(r_add(i, self.F))

    def rest(self):
        return ArrForm((self.m,), self.k, self.at)

    def partial(self, k):
        m = T.r_ite(r_le(k, self.F), k, self.F)
        return ArrForm((r_sub(self.n, m),), self.k, lambda j: self.f(r_add(j, m)))


def _product(E, skip, k, j):
    """Coefficient j of the product over m < k, m not skip, of 1 - E(m) x"""
    e = seq_num(E)
    p = r_sub(k, 1)
    deg = r_sub(k, T.r_ite(b_and(r_le(0, skip), r_lt(skip, k)), 1, 0))
    prev = lambda i: PRODUCT(E, skip, p, i)  # noqa
    step = num_ite(r_eq(p, skip), prev(j), prev(j) - e(p) * prev(r_sub(j, 1)))
    z, one = lift(0).to("c"), lift(1).to("c")
    r = num_ite(r_eq(j, 0), one, num_ite(b_or(r_le(k, 0), r_lt(j, 0), r_lt(deg, j)), z, step))
    return [r.re, r.im]


PRODUCT = RecFn("product", [T.SEQ, T.INT, T.INT, T.INT], _product, 2)


def _mix(E, R, n, k, j):
    """Coefficient j of the sum over m < k of R(m) times the product of the other factors"""
    p = r_sub(k, 1)
    z = lift(0).to("c")
    r = num_ite(r_le(k, 0), z, MIX(E, R, n, p, j) + seq_num(R)(p) * PRODUCT(E, p, n, j))
    return [r.re, r.im]


MIX = RecFn("mixture", [T.SEQ, T.SEQ, T.INT, T.INT, T.INT], _mix, 2)


class Z(Contract):
    qual = "ZTransform.transform"
    modulename = "diamondback.transforms.z_transform"
    opt = AxiomOptions(unfold=3, rounds=5, timeout=30000, split=True)

    def configs(self):
        def setup(kw, form, bilinear):
            def f(I):
                n, m = z3.Ints("n m")
                I.ctx.assume(z3.And(n >= 0, m >= 0))
                return [signal(I, "u", n, kw, form), signal(I, "v", m, kw, form), sym_num("frequency")], {"bilinear": lift(bilinear)}

            return f

        return {f"{'bilinear' if b else 'impulse'} {form} {k}": setup(k, form, b) for b in (True, False) for k, form in (("f", "array"), ("i", "array"), ("f", "list"))}

    def parts(self, I, env):
        n, u, ku, _ = arg_seq(I, env["u"])
        m, v, kv, _ = arg_seq(I, env["v"])
        U, V = Trim(n, u, ku), Trim(m, v, kv)
        d = u(r_sub(n, 1)).to("f")
        un, vn = (lambda i: U.at(i).to("f") / d), (lambda i: V.at(i).to("f") / d)
        t = Num("f", T.r_div(1, r_mul(T.PI, env["frequency"].re)))
        return n, u, m, v, U, V, d, un, vn, t

    def pre(self, I, env):
        """The constant coefficient of u is not zero; no root is at the pole of the bilinear map; the
        zero frequency gain is finite and not zero; there is a pole, and poles are distinct."""
        n, u, m, v, U, V, d, un, vn, t = self.parts(I, env)
        some = lambda n, f: any_of(n, lambda i: nonzero(f(i)))  # noqa
        ok = b_and(r_lt(0, n), some(n, u), r_lt(0, m), some(m, v), r_lt(0, env["frequency"].re))
        out = [("constant", b_implies(ok, nonzero(d)))]
        out += [("leading", b_implies(ok, g)) for g in U.facts() + V.facts()]
        A, B, na, nb = self.shape(I, env)
        j = z3.Int("!j")
        if env["bilinear"].re:
            for s, k in ((U, un), (V, vn)):
                q = cseq(s.m, k)
                r = Num("c", F_ROOTS[0](q, j), F_ROOTS[1](q, j))
                out.append(("no pole of the map", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < F_ROOTS_N(q)), zb(nonzero(lift(1).to("c") - r / (lift(2).to("f") * t).to("c"))))))) 
        else:
            out.append(("a pole", b_implies(ok, r_lt(0, r_sub(na, 1)))))
        out.append(("gain", b_implies(ok, nonzero(vsum(nb, B)))))
        return out

    def shape(self, I, env, branch=False):
        """Coefficient functions before scaling, (A, B, length of A, length of B)"""
        n, u, m, v, U, V, d, un, vn, t = self.parts(I, env)
        us, vs = cseq(U.m, un), cseq(V.m, vn)
        t2 = (lift(2).to("f") * t).to("c")
        one = lift(1).to("c")
        if env["bilinear"].re:
            N, M = F_ROOTS_N(us), F_ROOTS_N(vs)
            move = lambda s: (lambda i: (lambda r: (one + r / t2) / (one - r / t2))(Num("c", F_ROOTS[0](s, zi(i)), F_ROOTS[1](s, zi(i)))))  # noqa
            P, Q = move(us), move(vs)
            L = z3.If(M < N, N, M) if not branch else (N if I.ctx.branch(M < N) else M)
            Z = Q if L is M else (lambda i: num_ite(r_lt(i, M), Q(i), lift(0).to("c")))  # noqa
            ps, zs = cseq(N, P), cseq(L, Z)
            return (lambda i: Num("f", F_POLY[0](ps, zi(i)))), (lambda i: Num("f", F_POLY[0](zs, zi(i)))), N + 1, L + 1
        N = F_RES_N(vs, us)
        pole = lambda i: Num("c", F_RES["p"][0](vs, us, zi(i)), F_RES["p"][1](vs, us, zi(i)))  # noqa
        res = lambda i: Num("c", F_RES["r"][0](vs, us, zi(i)), F_RES["r"][1](vs, us, zi(i)))  # noqa
        E = reify(N, lambda i: T.num_exp(pole(i) / t.to("c")), "c")
        R = reify(N, res, "c")
        self.E, self.R, self.N = E, R, N
        A = lambda i: Num("f", PRODUCT(E, -1, N, zi(i)).re)  # noqa
        B = lambda i: Num("f", num_ite(r_lt(i, N), MIX(E, R, N, N, zi(i)), lift(0).to("c")).re)  # noqa
        return A, B, N + 1, N + 1

    def spec(self, I, env):
        n, u, m, v, U, V, d, un, vn, t = self.parts(I, env)
        some = lambda n, f: any_of(n, lambda i: nonzero(f(i)))  # noqa
        if I.ctx.branch(b_or(r_eq(n, 0), b_not(some(n, u)), r_eq(m, 0), b_not(some(m, v)), r_le(env["frequency"].re, 0))):
            raise_("ValueError")
        A, B, na, nb = self.shape(I, env, True)
        z, one = lift(0).to("f"), lift(1).to("f")
        a = I.new((na,), "f", lambda i: num_ite(r_eq(i, 0), z, -A(i)))
        g = (one - vsum(na, I.snap(a))) / vsum(nb, B)
        return a, I.new((nb,), "f", lambda i: B(i) * g)

    def loops(self, I, env):
        n, u, m, v, U, V, d, un, vn, t = self.parts(I, env)
        specs = [
            LoopSpec("leading zeros of u", lambda I, k: {"u": U.partial(k)}, facts=lambda I, k: U.facts(k), final=lambda I: {"u": U.rest()}),
            LoopSpec("leading zeros of v", lambda I, k: {"v": V.partial(k)}, facts=lambda I, k: V.facts(k), final=lambda I: {"v": V.rest()}),
        ]
        if not env["bilinear"].re:
            self.shape(I, env)
            E, R, N = self.E, self.R, self.N
            count = lambda ii, k: r_add(1, r_sub(k, T.r_ite(r_lt(ii, k), 1, 0)))  # noqa
            specs.append(LoopSpec("factors", lambda I, k: {
                "a": ArrForm((r_add(k, 2),), "c", lambda j: PRODUCT(E, -1, zi(r_add(k, 1)), zi(j))),
                "b": ArrForm((N,), "c", lambda j: MIX(E, R, N, zi(r_add(k, 1)), zi(j)))}, peel=1, depth=0))

            def others(I, k):
                ii, k = I.outer[-1], r_add(k, 2)
                return {"q": ArrForm((count(ii, k),), "c", lambda j: PRODUCT(E, zi(ii), zi(k), zi(j)))}

            specs.append(LoopSpec("other factors", others, peel=2, depth=1))
        return specs
