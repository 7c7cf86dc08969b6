"""Terms: scalars over z3, reified sequences, and the axioms added per query.

Floats are mathematical reals (a float literal is its decimal rational), complex
numbers are pairs of reals, integers are unbounded.  `Num` is a scalar of a
numpy kind: b(ool) i(nt) f(loat) c(omplex).
"""

import itertools
from fractions import Fraction

import z3

ORDER = {"b": 0, "i": 1, "f": 2, "c": 3}


class Unsupported(Exception):
    """The source uses something outside the verified subset."""


# ---------------------------------------------------------------- raw values
# raw := int | Fraction | bool | z3 expression


def is_z(x):
    return isinstance(x, z3.ExprRef)


def zr(x):
    """raw -> z3 Real."""
    if is_z(x):
        if z3.is_bool(x):
            return z3.If(x, z3.RealVal(1), z3.RealVal(0))
        if x.sort() == z3.IntSort():
            return z3.RealVal(x.as_long()) if z3.is_int_value(x) else z3.ToReal(x)
        return x
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x.numerator)) / z3.RealVal(str(x.denominator)) if x.denominator != 1 else z3.RealVal(str(x.numerator))
    raise Unsupported(f"real {x!r}")


def zi(x):
    """raw -> z3 Int."""
    if is_z(x):
        if z3.is_bool(x):
            return z3.If(x, z3.IntVal(1), z3.IntVal(0))
        if x.sort() == z3.RealSort():
            return z3.ToInt(x)
        return x
    if isinstance(x, (bool, int)):
        return z3.IntVal(int(x))
    if isinstance(x, Fraction) and x.denominator == 1:
        return z3.IntVal(int(x))
    raise Unsupported(f"int {x!r}")


def zb(x):
    if is_z(x):
        if z3.is_bool(x):
            return x
        return x != 0
    if isinstance(x, (bool, int, Fraction)):
        return z3.BoolVal(bool(x))
    raise Unsupported(f"bool {x!r}")


def unz(x):
    """Fold z3 numerals back to Python values."""
    if is_z(x):
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_rational_value(x):
            return Fraction(x.numerator_as_long(), x.denominator_as_long())
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
    return x


def fold(x):
    return unz(z3.simplify(x)) if is_z(x) else x


def r_is_real(x):
    return isinstance(x, Fraction) or (is_z(x) and x.sort() == z3.RealSort())


def r_lift(a, b):
    if (is_z(a) and z3.is_bool(a)) or isinstance(a, bool):
        a = zi(a) if is_z(a) else int(a)
    if (is_z(b) and z3.is_bool(b)) or isinstance(b, bool):
        b = zi(b) if is_z(b) else int(b)
    if is_z(a) or is_z(b):
        if r_is_real(a) or r_is_real(b):
            return zr(a), zr(b)
        return zi(a), zi(b)
    return a, b


def r_add(a, b):
    if not is_z(a) and a == 0 and (r_is_real(b) or not r_is_real(a)):
        return b
    if not is_z(b) and b == 0 and (r_is_real(a) or not r_is_real(b)):
        return a
    a, b = r_lift(a, b)
    return a + b


def r_sub(a, b):
    if not is_z(b) and b == 0 and (r_is_real(a) or not r_is_real(b)):
        return a
    a, b = r_lift(a, b)
    return a - b


def r_neg(a):
    if (is_z(a) and z3.is_bool(a)) or isinstance(a, bool):
        a = zi(a)
    return -a


def r_mul(a, b):
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    real = r_is_real(a) or r_is_real(b)
    for p, q in ((a, b), (b, a)):
        if not is_z(p):
            if p == 0:
                return Fraction(0) if real else 0
            if p == 1 and (r_is_real(q) or not real):
                return q
    a, b = r_lift(a, b)
    return a * b


def r_div(a, b):
    if not is_z(b):
        return r_mul(Fraction(1) / Fraction(b), a)
    if not is_z(a) and a == 0:
        return Fraction(0)
    return zr(a) / zr(b)


def r_eq(a, b):
    if (is_z(a) and z3.is_bool(a)) or (is_z(b) and z3.is_bool(b)) or (isinstance(a, bool) and isinstance(b, bool)):
        if not is_z(a) and not is_z(b):
            return bool(a) == bool(b)
        return zb(a) == zb(b)
    a, b = r_lift(a, b)
    if is_z(a) and is_z(b) and a.eq(b):
        return True
    return a == b


def r_lt(a, b):
    a, b = r_lift(a, b)
    return a < b


def r_le(a, b):
    a, b = r_lift(a, b)
    return a <= b


def b_not(a):
    return z3.Not(a) if is_z(a) else (not a)


def b_and(*xs):
    ys = []
    for x in xs:
        x = x if is_z(x) else bool(x)
        if x is False:
            return False
        if x is not True:
            ys.append(zb(x))
    if not ys:
        return True
    return ys[0] if len(ys) == 1 else z3.And(*ys)


def b_or(*xs):
    ys = []
    for x in xs:
        x = x if is_z(x) else bool(x)
        if x is True:
            return True
        if x is not False:
            ys.append(zb(x))
    if not ys:
        return False
    return ys[0] if len(ys) == 1 else z3.Or(*ys)


def b_implies(a, b):
    return b_or(b_not(a), b)


def r_ite(c, a, b):
    if not is_z(c):
        return a if c else b
    if is_z(a) and is_z(b) and a.eq(b):
        return a
    if not is_z(a) and not is_z(b) and a == b and type(a) is type(b):
        return a
    if (is_z(a) and z3.is_bool(a)) or isinstance(a, bool):
        return z3.If(c, zb(a), zb(b))
    a, b = r_lift(a, b)
    if not is_z(a) and not is_z(b):
        if isinstance(a, Fraction) or isinstance(b, Fraction):
            return z3.If(c, zr(a), zr(b))
        return z3.If(c, zi(a), zi(b))
    return z3.If(c, a, b)


# ---------------------------------------------------------------- functions

INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()
SEQ = z3.DeclareSort("Seq")
_UF = {}


def uf(name, *sorts):
    key = (name, tuple(str(s) for s in sorts))
    if key not in _UF:
        _UF[key] = z3.Function(name, *sorts)
    return _UF[key]


PI = z3.Real("PI")
EPS = z3.Real("EPS")
INF = z3.Real("infinity")  # above every distance, where a contract asks for it
FMAX = z3.Real("FMAX")
F_SQRT = uf("sqrt", REAL, REAL)
F_COS = uf("cos", REAL, REAL)
F_SIN = uf("sin", REAL, REAL)
F_EXP = uf("exp", REAL, REAL)
F_LOG = uf("log", REAL, REAL)
F_POW = uf("pow", REAL, REAL, REAL)
F_ANGLE = uf("angle", REAL, REAL, REAL)
F_ROUND = uf("round", REAL, INT)
F_SGNPOW = uf("sgnpow", INT, REAL)  # (-1) ** n
F_POW2 = uf("pow2", INT, INT)  # 2 ** n
F_IPOW = uf("ipow", REAL, INT, REAL)  # x ** n, n >= 0
F_SUM = uf("sum", SEQ, REAL)
F_LEN = uf("seqlen", SEQ, INT)


class Inf:
    def __init__(self, sign=1):
        self.sign = sign


class Num:
    __slots__ = ("k", "re", "im")

    def __init__(self, k, re, im=0):
        self.k, self.re, self.im = k, re, im

    def __repr__(self):
        return f"Num({self.k},{self.re}" + (f",{self.im})" if self.k == "c" else ")")

    @property
    def conc(self):
        return not is_z(self.re) and not is_z(self.im) and not isinstance(self.re, Inf)

    @property
    def inf(self):
        return isinstance(self.re, Inf)

    def to(self, k):
        """Convert to kind k (lossy conversions are the caller's obligation)."""
        if k == self.k:
            return self
        if self.inf:
            return self
        if k == "b":
            if self.k == "c":
                return Num("b", b_or(b_not(r_eq(self.re, 0)), b_not(r_eq(self.im, 0))))
            return Num("b", b_not(r_eq(self.re, 0)))
        re = self.re
        if k == "i":
            if self.k == "b":
                return Num("i", zi(re) if is_z(re) else int(re))
            return num_trunc(Num("f", re))
        re = zr(re) if is_z(re) else Fraction(int(re) if isinstance(re, bool) else re)
        return Num(k, re, self.im if self.k == "c" and k == "c" else (Fraction(0) if k == "c" else 0))

    # operators
    def __add__(self, o):
        return num_add(self, lift(o))

    def __radd__(self, o):
        return num_add(lift(o), self)

    def __sub__(self, o):
        return num_sub(self, lift(o))

    def __rsub__(self, o):
        return num_sub(lift(o), self)

    def __mul__(self, o):
        return num_mul(self, lift(o))

    def __rmul__(self, o):
        return num_mul(lift(o), self)

    def __truediv__(self, o):
        return num_div(self, lift(o))

    def __rtruediv__(self, o):
        return num_div(lift(o), self)

    def __neg__(self):
        return num_neg(self)

    def __lt__(self, o):
        return num_cmp("<", self, lift(o)).re

    def __le__(self, o):
        return num_cmp("<=", self, lift(o)).re

    def __gt__(self, o):
        return num_cmp(">", self, lift(o)).re

    def __ge__(self, o):
        return num_cmp(">=", self, lift(o)).re

    def eq(self, o):
        return num_cmp("==", self, lift(o)).re

    def ne(self, o):
        return b_not(self.eq(o))


def lift(x):
    if isinstance(x, Num):
        return x
    if isinstance(x, bool):
        return Num("b", x)
    if isinstance(x, int):
        return Num("i", x)
    if isinstance(x, Fraction):
        return Num("f", x)
    if isinstance(x, float):
        return num_float(x)
    if isinstance(x, complex):
        return Num("c", num_float(x.real).re, num_float(x.imag).re)
    if is_z(x):
        if z3.is_bool(x):
            return Num("b", unz(x))
        return Num("i" if x.sort() == INT else "f", unz(x))
    raise Unsupported(f"number {type(x).__name__}")


def num_float(x):
    if x == float("inf"):
        return Num("f", Inf(1))
    if x == float("-inf"):
        return Num("f", Inf(-1))
    return Num("f", Fraction(repr(x)) if x == x else _nan())


def _nan():
    raise Unsupported("nan")


def kmax(a, b, least="i"):
    k = a if ORDER[a] >= ORDER[b] else b
    return k if ORDER[k] >= ORDER[least] else least


def _arith(a, b):
    return kmax(a.k, b.k)


def num_add(a, b):
    if a.inf or b.inf:
        if a.inf and b.inf and a.re.sign != b.re.sign:
            raise Unsupported("inf - inf")
        return a if a.inf else b
    k = _arith(a, b)
    a, b = a.to(k), b.to(k)
    return Num(k, r_add(a.re, b.re), r_add(a.im, b.im) if k == "c" else 0)


def num_neg(a):
    if a.inf:
        return Num("f", Inf(-a.re.sign))
    if a.k == "b":
        a = a.to("i")
    return Num(a.k, r_neg(a.re), r_neg(a.im) if a.k == "c" else 0)


def num_sub(a, b):
    if a.inf or b.inf:
        return num_add(a, num_neg(b))
    k = _arith(a, b)
    a, b = a.to(k), b.to(k)
    return Num(k, r_sub(a.re, b.re), r_sub(a.im, b.im) if k == "c" else 0)


def num_mul(a, b):
    if a.inf or b.inf:
        p, q = (a, b) if a.inf else (b, a)
        if q.conc and q.k != "c" and q.re != 0:
            return p if q.re > 0 else num_neg(p)
        raise Unsupported("inf product")
    k = _arith(a, b)
    a, b = a.to(k), b.to(k)
    if k != "c":
        return Num(k, r_mul(a.re, b.re))
    return Num(
        k,
        r_sub(r_mul(a.re, b.re), r_mul(a.im, b.im)),
        r_add(r_mul(a.re, b.im), r_mul(a.im, b.re)),
    )


def num_div(a, b):
    """True division; the caller owns the obligation that b is not zero."""
    if b.inf:
        return Num("f", Fraction(0))
    k = kmax(_arith(a, b), "f")
    a, b = a.to(k), b.to(k)
    if b.conc and b.re == 0 and b.im == 0:
        raise Unsupported("division by zero")
    if k != "c":
        return Num(k, r_div(a.re, b.re))
    if not is_z(b.im) and b.im == 0:
        return Num(k, r_div(a.re, b.re), r_div(a.im, b.re))
    d = r_add(r_mul(b.re, b.re), r_mul(b.im, b.im))
    re = r_add(r_mul(a.re, b.re), r_mul(a.im, b.im))
    im = r_sub(r_mul(a.im, b.re), r_mul(a.re, b.im))
    return Num(k, r_div(re, d), r_div(im, d))


def num_cmp(op, a, b):
    if a.k == "c" or b.k == "c":
        a, b = a.to("c"), b.to("c")
        e = b_and(r_eq(a.re, b.re), r_eq(a.im, b.im))
        if op == "==":
            return Num("b", e)
        if op == "!=":
            return Num("b", b_not(e))
        raise Unsupported("complex comparison")
    if a.inf or b.inf:
        va = 0 if not a.inf else a.re.sign
        vb = 0 if not b.inf else b.re.sign
        r = {"<": va < vb, "<=": va <= vb, ">": va > vb, ">=": va >= vb, "==": va == vb, "!=": va != vb}[op]
        return Num("b", r)
    if op == "==":
        return Num("b", r_eq(a.re, b.re))
    if op == "!=":
        return Num("b", b_not(r_eq(a.re, b.re)))
    if op == "<":
        return Num("b", r_lt(a.re, b.re))
    if op == "<=":
        return Num("b", r_le(a.re, b.re))
    if op == ">":
        return Num("b", r_lt(b.re, a.re))
    return Num("b", r_le(b.re, a.re))


def num_ite(c, a, b):
    if not is_z(c):
        return a if c else b
    if a.inf or b.inf:
        if a.inf and b.inf and a.re.sign == b.re.sign:
            return a
        raise Unsupported("conditional infinity")
    k = a.k if a.k == b.k else kmax(a.k, b.k)
    a, b = a.to(k), b.to(k)
    return Num(k, r_ite(c, a.re, b.re), r_ite(c, a.im, b.im) if k == "c" else 0)


def num_trunc(a):
    """int(a)"""
    if a.k in "bi":
        return a.to("i")
    if a.conc:
        return Num("i", int(a.re))
    r = zr(a.re)
    return Num("i", z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r)))


def num_floor(a):
    if a.k in "bi":
        return a.to("i")
    if a.conc:
        return Num("i", a.re.__floor__())
    return Num("i", z3.ToInt(zr(a.re)))


def num_round(a):
    """Nearest integer, ties to even."""
    if a.k in "bi":
        return a.to("i")
    if a.conc:
        return Num("i", round(a.re))
    return Num("i", F_ROUND(zr(a.re)))


def num_abs(a):
    if a.inf:
        return Num("f", Inf(1))
    if a.k == "b":
        a = a.to("i")
    if a.k == "c":
        if not is_z(a.im) and a.im == 0:
            return num_abs(Num("f", a.re))
        return num_sqrt(Num("f", r_add(r_mul(a.re, a.re), r_mul(a.im, a.im))))
    if not is_z(a.re):
        return Num(a.k, abs(a.re))
    return Num(a.k, z3.If(a.re >= 0, a.re, -a.re))


def num_sqrt(a):
    if a.k == "c":
        raise Unsupported("complex sqrt")
    if a.conc:
        f = Fraction(a.re)
        if f >= 0:
            return Num("f", root(f))
    return Num("f", F_SQRT(canon(zr(a.re))))


def num_conj(a):
    return Num("c", a.re, r_neg(a.im)) if a.k == "c" else a


def num_exp(a):
    if a.k == "c":
        s = canon(zr(a.im))
        c, n = cos_(s), sin_(s)
        if not is_z(a.re) and a.re == 0:
            return Num("c", c, n)
        m = F_EXP(canon(zr(a.re)))
        return Num("c", m * zr(c), m * zr(n))
    if a.conc and a.re == 0:
        return Num("f", Fraction(1))
    return Num("f", F_EXP(canon(zr(a.re))))


def special_angle(p):
    """(cosine, sine) of a multiple of pi / 6 or pi / 4, or None"""
    if len(p) != 1:
        return None
    ((m, c),) = p.items()
    if len(m) != 1 or not _ATOM[m[0]].eq(PI):
        return None
    c = Fraction(c) % 2
    if (6 * c).denominator != 1 and (4 * c).denominator != 1:
        return None
    h = Fraction(1, 2)
    first = {0: Fraction(1), 2: r_mul(h, root(Fraction(3))), 3: r_mul(h, root(Fraction(2))), 4: h, 6: Fraction(0)}

    def cos(k):  # k twelfths of a half turn
        k %= 24
        k = 24 - k if k > 12 else k
        return first[k] if k <= 6 else r_neg(first[12 - k])

    k = int(12 * c)
    return cos(k), cos(k - 6)


def cos_(s):
    p = poly_of(s)
    if special_angle(p):
        return special_angle(p)[0]
    if not p:
        return Fraction(1)
    if _neg_lead(p):
        return F_COS(poly_expr(poly_scale(p, -1)))
    return F_COS(poly_expr(p))


def sin_(s):
    p = poly_of(s)
    if special_angle(p):
        return special_angle(p)[1]
    if not p:
        return Fraction(0)
    if _neg_lead(p):
        return -F_SIN(poly_expr(poly_scale(p, -1)))
    return F_SIN(poly_expr(p))


def num_pow(a, n):
    """a ** n"""
    if n.conc and n.k in "bi" or (n.conc and n.k == "f" and Fraction(n.re).denominator == 1):
        e = int(n.re)
        if a.conc and a.k != "c":
            if e < 0:
                return Num("f", Fraction(a.re) ** e)
            return Num(a.k if n.k != "f" or a.k == "f" else "f", (Fraction(a.re) if a.k == "f" or n.k == "f" else int(a.re)) ** e)
        if 0 <= e <= 8:
            r = lift(1).to(kmax(a.k, n.k))
            for _ in range(e):
                r = num_mul(r, a)
            return r
        if -8 <= e < 0:
            return num_div(lift(1), num_pow(a, lift(-e)))
    if n.conc and n.k == "f" and n.re == Fraction(1, 2):
        return num_sqrt(a)
    if n.conc and n.k == "f" and n.re == Fraction(-1, 2):
        return num_div(lift(1), num_sqrt(a))
    if a.conc and a.k != "c":
        if a.re == 2 and a.k in "bi" and n.k in "bi":
            return Num("i", F_POW2(zi(n.re)))
        if a.re == -1 and n.k in "bi":
            return Num("f" if a.k == "f" else "i", F_SGNPOW(zi(n.re)) if a.k == "f" else z3.ToInt(F_SGNPOW(zi(n.re))))
    if n.k in "bi" and a.k != "c":
        return Num("f", F_IPOW(zr(a.re), zi(n.re)))
    if n.k in "bi" and a.k == "c":
        f = [uf("cpow_re", REAL, REAL, INT, REAL), uf("cpow_im", REAL, REAL, INT, REAL)]
        args = (zr(a.re), zr(a.im), zi(n.re))
        return Num("c", f[0](*args), f[1](*args))
    if a.k != "c" and n.k != "c":
        return Num("f", F_POW(canon(zr(a.re)), canon(zr(n.re))))
    raise Unsupported("power")


def num_eq_formula(a, b):
    """Mathematical equality, ignoring kind."""
    if a.inf or b.inf:
        return a.inf and b.inf and a.re.sign == b.re.sign
    if a.k == "b" and b.k == "b":
        return r_eq(a.re, b.re)
    k = kmax(a.k, b.k)
    a, b = a.to(k), b.to(k)
    return b_and(r_eq(a.re, b.re), r_eq(a.im, b.im) if k == "c" else True)


# ---------------------------------------------------------------- polynomials
# polynomial := {monomial: Fraction}; monomial := tuple of (atom key) sorted;
# atoms are kept in _ATOM by key so that expressions can be rebuilt.

_ATOM = {}


def _akey(e):
    k = e.get_id()
    _ATOM[k] = e  # keeps the term alive, so the id stays unique
    return k


def poly_scale(p, c):
    return {m: v * c for m, v in p.items()} if c else {}


def poly_add(p, q):
    r = dict(p)
    for m, v in q.items():
        w = r.get(m, 0) + v
        if w:
            r[m] = w
        else:
            r.pop(m, None)
    return r


def poly_mul(p, q):
    r = {}
    for m, v in p.items():
        for n, w in q.items():
            k = tuple(sorted(m + n))
            c = v * w
            if _ROOTS:
                k, c = fold_roots(k, c)
            i = next((i for i in k if k.count(i) > 1 and norm(i) is not None), None) if len(set(k)) < len(k) else None
            if i is not None:
                ks = list(k)
                ks.remove(i)
                ks.remove(i)
                for kk, cc in poly_mul({tuple(ks): c}, norm(i)).items():
                    x = r.get(kk, 0) + cc
                    if x:
                        r[kk] = x
                    else:
                        r.pop(kk, None)
                continue
            x = r.get(k, 0) + c
            if x:
                r[k] = x
            else:
                r.pop(k, None)
    return r


_NORMS = {}


def norm(i):
    """The polynomial whose square root atom i is, when it is a sum of squares."""
    if i not in _NORMS:
        t, r = _ATOM[i], None
        if z3.is_app(t) and t.decl().name() == "sqrt":
            p = poly_of(t.arg(0))
            if p and all(v > 0 and all(m.count(a) % 2 == 0 for a in m) for m, v in p.items()):
                r = p
        _NORMS[i] = r
    return _NORMS[i]


_ROOTS = {}  # atom number of the square root of an integer -> the integer


def fold_roots(k, c):
    """The square of the square root of a numeral is the numeral."""
    for i in set(k):
        v = _ROOTS.get(i)
        if v is not None:
            q = k.count(i) // 2
            if q:
                c = c * v**q
                k = tuple(j for j in k if j != i) + (i,) * (k.count(i) - 2 * q)
                k = tuple(sorted(k))
    return k, c


def root(f):
    """Square root of a nonnegative rational, over the root of a square free integer."""
    import math

    n = f.numerator * f.denominator
    out, p = 1, 2
    while p * p <= n and p < 1000:
        while n % (p * p) == 0:
            n //= p * p
            out *= p
        p += 1
    m = math.isqrt(n)
    if m * m == n:
        return Fraction(out * m, f.denominator)
    t = F_SQRT(z3.RealVal(n))
    _ROOTS[_akey(t)] = n
    return r_mul(Fraction(out, f.denominator), t)


LIMIT = 4000


def poly_of(e):
    """z3 arithmetic expression (or raw) -> polynomial over atoms."""
    if not is_z(e):
        return {(): Fraction(e)} if e else {}
    if z3.is_int_value(e):
        v = Fraction(e.as_long())
        return {(): v} if v else {}
    if z3.is_rational_value(e):
        v = Fraction(e.numerator_as_long(), e.denominator_as_long())
        return {(): v} if v else {}
    d = e.decl().kind()
    ch = e.children()
    if d == z3.Z3_OP_ADD:
        r = {}
        for c in ch:
            r = poly_add(r, poly_of(c))
        return r
    if d == z3.Z3_OP_SUB:
        r = poly_of(ch[0])
        for c in ch[1:]:
            r = poly_add(r, poly_scale(poly_of(c), -1))
        return r
    if d == z3.Z3_OP_UMINUS:
        return poly_scale(poly_of(ch[0]), -1)
    if d == z3.Z3_OP_MUL:
        r = {(): Fraction(1)}
        for c in ch:
            r = poly_mul(r, poly_of(c))
            if len(r) > LIMIT:
                raise Unsupported("polynomial too large")
        return r
    if d == z3.Z3_OP_DIV:
        q = poly_of(ch[1])
        if set(q) == {()}:
            return poly_scale(poly_of(ch[0]), 1 / q[()])
        den = poly_expr(q)
        return poly_mul(poly_of(ch[0]), {(_akey(z3.RealVal(1) / zr(den)),): Fraction(1)})
    if d == z3.Z3_OP_POWER and z3.is_int_value(ch[1]) or (d == z3.Z3_OP_POWER and z3.is_rational_value(ch[1])):
        n = unz(ch[1])
        if n.denominator == 1 and 0 <= n <= 8:
            r = {(): Fraction(1)}
            p = poly_of(ch[0])
            for _ in range(int(n)):
                r = poly_mul(r, p)
            return r
    if d == z3.Z3_OP_TO_REAL:
        p = poly_of(ch[0])
        r = {}
        for m, v in p.items():
            t = {(): v}
            for a in m:
                t = poly_mul(t, {(_akey(z3.ToReal(_ATOM[a])),): Fraction(1)})
            r = poly_add(r, t)
        return r
    return {(_akey(e),): Fraction(1)}


def _neg_lead(p):
    return p[min(p)] < 0


def poly_expr(p):
    if not p:
        return z3.RealVal(0)
    out = []
    isint = all(_ATOM[a].sort() == INT for m in p for a in m) and all(v.denominator == 1 for v in p.values()) and any(p)
    cv = zi if isint else zr
    for m in sorted(p):
        t = [_ATOM[a] for a in m]
        v = p[m]
        e = None
        for a in t:
            a = cv(a)
            e = a if e is None else e * a
        if e is None:
            e = cv(v)
        elif v != 1:
            e = cv(v) * e
        out.append(e)
    r = out[0]
    for e in out[1:]:
        r = r + e
    return r


def canon(e):
    """Canonical polynomial form, so that equal arguments are syntactically equal."""
    if not is_z(e):
        return zr(e)
    return zr(poly_expr(poly_of(e)))


# ---------------------------------------------------------------- bound vars

_fresh = itertools.count()
_bound = set()


class Fresh:
    """Names are deterministic per run of a path."""

    n = 0
    parametric = False

    @classmethod
    def reset(cls):
        cls.n = 0

    @classmethod
    def name(cls, p):
        cls.n += 1
        return f"{p}!{cls.n}"


def fresh_int(p="k"):
    if Fresh.parametric:  # sequences take it as a parameter
        return mark_bound(z3.Int(Fresh.name(p + "^")))
    return z3.Int(Fresh.name(p))


def fresh_real(p="r"):
    return z3.Real(Fresh.name(p))


def fresh_bool(p="b"):
    return z3.Bool(Fresh.name(p))


def bound_int():
    v = z3.Int(f"!j{next(_fresh)}")
    _bound.add(str(v))
    return v


def mark_bound(v):
    _bound.add(str(v))
    return v


_fv_cache = {}


def consts(e):
    """Uninterpreted constants of an expression: {name: expr}."""
    out, seen, todo = {}, set(), [e]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[str(x)] = x
        todo.extend(x.children())
    return out


def ordered_consts(e):
    out, seen = [], set()

    def go(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
            return
        for c in x.children():
            go(c)

    go(e)
    return out


def occurs(v, e):
    return str(v) in consts(e)


# ---------------------------------------------------------------- sequences


class Template:
    __slots__ = ("name", "decl", "params", "js", "dims", "comps", "key")


TEMPLATES = {}  # decl name -> Template
_TKEY = {}


def seq(dims, comps_fn, ncomp=1):
    """Reify an indexed family of reals as a term of sort Seq.

    comps_fn(*js) -> list of raw reals (ncomp of them).  Two sequences with equal
    dimensions and equal elements are equal terms (axiom instances per query)."""
    js = [bound_int() for _ in dims]
    comps = [zr(c) for c in comps_fn(*js)]
    # elements normalized so that syntactically different writings share a template
    comps = [z3.simplify(c) for c in comps]
    return seq_of(dims, js, comps)


def seq_of(dims, js, comps):
    dims = [zi(fold(zi(d))) for d in dims]
    jn = {str(j) for j in js}
    params, seen = [], set()
    for e in itertools.chain(dims, comps):
        for c in ordered_consts(e):
            s = c.decl().name()
            if s in _bound and s not in jn and s not in seen:
                seen.add(s)
                params.append(c)
    sub = [(j, z3.Int(f"!J{i}")) for i, j in enumerate(js)] + [(p, z3.Const(f"!P{i}", p.sort())) for i, p in enumerate(params)]
    cd = [z3.substitute(d, *sub) for d in dims]
    cc = [z3.substitute(c, *sub) for c in comps]
    kd, kc = [[z3.simplify(e, sort_sums=True) for e in x] for x in (cd, cc)]  # terms equal up to the order of a sum or product
    key = (tuple(d.get_id() for d in kd), tuple(c.get_id() for c in kc), tuple(str(p.sort()) for p in params), len(js))
    t = _TKEY.get(key)
    if t is None:
        t = Template()
        t.key = kd, kc  # kept alive: the key is made of their identities
        t.name = f"seq#{len(TEMPLATES)}"
        t.params = [s[1] for s in sub[len(js) :]]
        t.js = [s[1] for s in sub[: len(js)]]
        t.dims, t.comps = cd, cc
        t.decl = z3.Function(t.name, *[p.sort() for p in t.params], SEQ)
        TEMPLATES[t.name] = t
        _TKEY[key] = t
    return t.decl(*params)


def seq_inst(app):
    """(dims, elem(js) -> comps) of a sequence application."""
    t = TEMPLATES[app.decl().name()]
    sub = list(zip(t.params, app.children()))
    dims = [z3.substitute(d, *sub) for d in t.dims] if sub else list(t.dims)

    def elem(*js):
        s = sub + list(zip(t.js, [zi(j) for j in js]))
        return [z3.substitute(c, *s) for c in t.comps]

    return dims, elem


UNROLL = 24


def r_sum(n, fn):
    """Sum of fn(0..n-1), raw reals."""
    n = unz(n) if not is_z(n) else fold(n)
    if not is_z(n):
        if n <= 0:
            return Fraction(0)
        if n <= UNROLL:
            r = Fraction(0)
            for i in range(int(n)):
                r = r_add(r, fn(i))
            return r
    j = bound_int()
    e = fn(j)
    if not is_z(e):
        return r_mul(e, r_ite(zi(n) > 0, zr(n), z3.RealVal(0)) if is_z(n) else Fraction(n))
    return sum_of(n, j, zr(e))


def sum_of(n, j, e):
    e = z3.simplify(e)
    groups = {}
    for m, v in poly_of(z3.simplify(e)).items():
        dep = tuple(a for a in m if occurs(j, _ATOM[a]))
        ind = tuple(a for a in m if not occurs(j, _ATOM[a]))
        groups.setdefault(dep, {})
        groups[dep] = poly_add(groups[dep], {ind: v})
    r = Fraction(0)
    for dep, co in groups.items():
        c = poly_expr(co)
        if not dep:
            t = z3.If(zi(n) > 0, zr(n), z3.RealVal(0)) if is_z(n) else zr(n)
        else:
            # factors in an order that does not depend on the name of the bound variable
            fs = sorted((_ATOM[a] for a in dep), key=lambda x: z3.substitute(x, (j, z3.Int("!J0"))).sexpr())
            x = zr(fs[0])
            for f in fs[1:]:
                x = x * zr(f)
            t = F_SUM(seq_of([n], [j], [x]))
        p = poly_of(c)
        if set(p) == {()}:
            c = p[()]
            r = r_add(r, r_mul(c, t))
        else:
            r = r_add(r, zr(c) * t)
    return r


def num_sum(n, fn, kind=None):
    """Sum of Num elements fn(i), i in [0, n)."""
    if not is_z(n) and n <= UNROLL:
        r = lift(0).to(kind) if kind else lift(0)
        for i in range(int(n)):
            r = num_add(r, fn(i))
        return r
    k = kind or kmax(fn(bound_int()).k, "i")
    if k in "bi":
        s = r_sum(n, lambda i: zr(fn(i).to("i").re))
        return Num("i", z3.ToInt(zr(s)))
    if k == "f":
        return Num("f", r_sum(n, lambda i: fn(i).to("f").re))
    return Num("c", r_sum(n, lambda i: fn(i).to("c").re), r_sum(n, lambda i: fn(i).to("c").im))


# ---------------------------------------------------------------- recursion


class RecFn:
    """A spec function defined by recursion on its last integer argument.

    defn(*args) -> list of raw reals, one per component; unfolded per query at
    the applications that occur in it."""

    ALL = {}

    def __init__(self, name, sorts, defn, ncomp=1, depth=1):
        self.name, self.defn, self.ncomp, self.depth = name, defn, ncomp, depth
        self.decls = [z3.Function(f"{name}.{i}", *sorts, REAL) for i in range(ncomp)]
        for i, d in enumerate(self.decls):
            RecFn.ALL[d.name()] = (self, i)

    def __call__(self, *args):
        a = [zi(x) if s == INT else zr(x) if s == REAL else x for x, s in zip(args, [self.decls[0].domain(i) for i in range(self.decls[0].arity())])]
        if self.ncomp == 1:
            return Num("f", self.decls[0](*a))
        return Num("c", self.decls[0](*a), self.decls[1](*a))


# ---------------------------------------------------------------- axioms


def apps(es):
    """All applications in a list of expressions, grouped by declaration name."""
    out, seen, todo = {}, set(), list(es)
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.setdefault(x.decl().name(), []).append(x)
            todo.extend(x.children())
    return out


SCHEMAS = {}  # decl name -> fn(app, args) -> list of axioms
RULES = {}  # decl name -> [fn(app) -> [(condition, equal term)]]
PAIRS = {}  # decl name -> fn(app1, app2) -> list of axioms


def schema(name):
    def deco(f):
        SCHEMAS.setdefault(name, []).append(f)
        return f

    return deco


def pair_schema(name):
    def deco(f):
        PAIRS.setdefault(name, []).append(f)
        return f

    return deco


@schema("pow")
def _ax_pow_sign(a, x, n):
    return [z3.Implies(x >= 0, a >= 0)]


@schema("sqrt")
def _ax_sqrt(a, x):
    return [z3.Implies(x >= 0, z3.And(a >= 0, a * a == x)), z3.Implies(x > 0, a > 0)]


@schema("cos")
def _ax_cos(a, x):
    s = F_SIN(x)
    return [a * a + s * s == 1]


def over_pi(x):
    """x / PI as a polynomial, or None when x is not a multiple of it."""
    r = {}
    for m, c in poly_of(x).items():
        at = [i for i, v in enumerate(m) if _ATOM[v].eq(PI)]
        if len(at) != 1:
            return None
        r[m[: at[0]] + m[at[0] + 1 :]] = c
    return r


@pair_schema("sin")
@pair_schema("cos")
def _ax_turn(a, b):
    """Whole turns."""
    if a.decl().name() == "sin":
        a, b = F_COS(a.arg(0)), F_COS(b.arg(0))
    p, q = over_pi(a.arg(0)), over_pi(b.arg(0))
    if not p or not q or a.eq(b):
        return []
    x, y = poly_expr(p), poly_expr(q)
    sa, sb = F_SIN(a.arg(0)), F_SIN(b.arg(0))
    half = lambda e: z3.IsInt(zr(poly_expr(poly_scale(poly_of(e), Fraction(1, 2)))))  # noqa
    return [
        z3.Implies(half(zr(x) - zr(y)), z3.And(a == b, sa == sb)),
        z3.Implies(half(zr(x) + zr(y)), z3.And(a == b, sa == -sb)),
    ]


@schema("exp")
def _ax_exp(a, x):
    return [a > 0]


@schema("round")
def _ax_round(a, x):
    return [
        z3.ToReal(a) - x <= z3.Q(1, 2),
        x - z3.ToReal(a) <= z3.Q(1, 2),
        z3.Implies(x - z3.ToReal(a) == z3.Q(1, 2), a % 2 == 0),
        z3.Implies(z3.ToReal(a) - x == z3.Q(1, 2), a % 2 == 0),
    ]


@schema("sgnpow")
def _ax_sgnpow(a, n):
    return [z3.If(n % 2 == 0, a == 1, a == -1)]


@schema("pow2")
def _ax_pow2(a, n):
    return [
        a >= 1,
        z3.Implies(n <= 0, a == 1),
        z3.Implies(n >= 1, a == 2 * F_POW2(n - 1)),
        z3.Implies(n >= 1, z3.And(F_POW2(n - 1) >= 1, a % 2 == 0)),
        z3.Implies(n == 1, a == 2),
    ]


@schema("sum")
def _ax_sum(a, s):
    dims, elem = seq_inst(s)
    return [z3.Implies(dims[0] <= 0, a == 0)]


@schema("angle")
def _ax_angle(a, x, y):
    return [a > -PI, a <= PI]


def witness(s1, s2, tag=""):
    t = TEMPLATES[s1.decl().name()]
    return [z3.Int(f"w{tag}!{s1.get_id()}!{s2.get_id()}!{i}") for i in range(len(t.js))]


def ext_axiom(s1, s2):
    """s1 == s2 unless dimensions or some element differ."""
    t1, t2 = TEMPLATES[s1.decl().name()], TEMPLATES[s2.decl().name()]
    if len(t1.js) != len(t2.js) or len(t1.comps) != len(t2.comps):
        return []
    d1, e1 = seq_inst(s1)
    d2, e2 = seq_inst(s2)
    w = witness(s1, s2)
    diff = z3.Or(*[x != y for x, y in zip(e1(*w), e2(*w))])
    inb = z3.And(*[z3.And(0 <= i, i < d) for i, d in zip(w, d1)])
    return [z3.Or(s1 == s2, *[x != y for x, y in zip(d1, d2)], z3.And(inb, diff))]


def split_axiom(a1, a2):
    """sum over n+1 elements = sum over n elements + last."""
    out = []
    for p, q in ((a1, a2), (a2, a1)):
        s, t = p.arg(0), q.arg(0)
        d1, e1 = seq_inst(s)
        d2, e2 = seq_inst(t)
        (w,) = witness(s, t, "s")
        if z3.is_false(z3.simplify(d1[0] == d2[0] + 1)):
            continue
        out.append(
            z3.Or(
                d1[0] != d2[0] + 1,
                d2[0] < 0,
                z3.And(0 <= w, w < d2[0], e1(w)[0] != e2(w)[0]),
                p == q + e1(d2[0])[0],
            )
        )
    return out


class AxiomOptions:
    def __init__(self, split=False, unfold=1, ext=True, rounds=3, timeout=0):
        self.timeout = timeout  # ms, at least
        self.split, self.unfold, self.ext, self.rounds = split, unfold, ext, rounds


def axioms_for(formulas, opt=None, extra=None):
    """Ground axiom instances for the terms occurring in the formulas."""
    opt = opt or AxiomOptions()
    out, done = [], set()
    cur = list(formulas)
    depth = {}
    for rnd in range(opt.rounds):
        ap = apps(cur)
        new = []

        def emit(key, mk):
            if key in done:
                return
            done.add(key)
            for ax in mk():
                if ax is not True and ax is not None:
                    new.append(zb(ax))

        for name, fs in SCHEMAS.items():
            for a in ap.get(name, []):
                for f in fs:
                    emit(("s", f.__name__, a.get_id()), lambda: f(a, *a.children()))
        for name, fs in PAIRS.items():
            lst = ap.get(name, [])
            if 1 < len(lst) <= 40:
                for p, q in itertools.combinations(lst, 2):
                    for f in fs:
                        emit(("p", f.__name__, p.get_id(), q.get_id()), lambda: f(p, q))
        seqs = {}
        users = {}
        for name, lst in ap.items():
            for a in lst:
                for i in range(a.num_args()):
                    c = a.arg(i)
                    if c.sort() == SEQ and c.decl().name() in TEMPLATES:
                        seqs[c.get_id()] = c
                        users.setdefault((name, i), {})[c.get_id()] = c
        if opt.ext:
            for (name, i), m in users.items():
                lst = sorted(m.values(), key=lambda s: s.get_id())
                if len(lst) > 60:
                    continue
                for s, t in itertools.combinations(lst, 2):
                    emit(("e", s.get_id(), t.get_id()), lambda: ext_axiom(s, t))
        if opt.split:
            lst = ap.get("sum", [])
            if len(lst) <= 24:
                for p, q in itertools.combinations(lst, 2):
                    emit(("sp", p.get_id(), q.get_id()), lambda: split_axiom(p, q))
        if rnd < opt.unfold:
            for name, (rf, i) in RecFn.ALL.items():
                for a in ap.get(name, []):
                    args = a.children()

                    def mk():
                        vals = rf.defn(*args)
                        return [d(*args) == zr(v) for d, v in zip(rf.decls, vals)]

                    emit(("r", rf.name, tuple(x.get_id() for x in args)), mk)
        if not new:
            break
        out.extend(new)
        cur = new
        # terms of earlier rounds still pair with new ones
        cur = list(formulas) + out
    names = set()
    for e in itertools.chain(formulas, out):
        names.update(consts(e))
    if "PI" in names:
        out.append(z3.And(PI > z3.Q(314159265, 100000000), PI < z3.Q(314159266, 100000000)))
    if "EPS" in names:
        out.append(z3.And(EPS > 0, EPS < z3.Q(1, 10**15)))
    if "FMAX" in names:
        out.append(FMAX > z3.RealVal(10**30))
    return out
