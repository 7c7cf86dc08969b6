"""Library semantics: builtins, numpy, scipy.  Each entry that is not a definition
over the reals is an assumed contract and is registered with ctx.trust."""

import ast
import itertools
import math
from fractions import Fraction

import z3

from . import terms as T
from .ctx import PyExc
from .heap import *  # noqa
from .heap import Appended, Arr, Cell, DictRef, ListRef, Obj, Opaque, Poison, SymSeq, dense_fn, full_view, view_shape
from .interp import EXC, BUILTINS, Bound, ClassVal, FuncVal, Iter, LibFn, LibMethod, ModuleVal, RangeVal, SetVal, exc_is
from .terms import (
    INT,
    REAL,
    SEQ,
    BOOL,
    Inf,
    Num,
    Unsupported,
    b_and,
    b_implies,
    b_not,
    b_or,
    fold,
    is_z,
    lift,
    num_ite,
    r_add,
    r_div,
    r_eq,
    r_ite,
    r_le,
    r_lt,
    r_mul,
    r_sub,
    uf,
    unz,
    zb,
    zi,
    zr,
)

VAL = z3.DeclareSort("Val")
FNS, METHODS, SPECIAL_ATTR = {}, {}, {}


def fn(*names):
    def deco(f):
        for n in names:
            FNS[n] = f
        return f

    return deco


def meth(*names):
    def deco(f):
        for n in names:
            METHODS[n] = f
        return f

    return deco


ALIAS = {"numpy.absolute": "numpy.abs", "np": "numpy"}


def call(I, name, args, kw):
    if name in EXC:
        return Opaque("exc:" + name)
    f = FNS.get(name)
    if f is None:
        raise Unsupported(f"library function {name}")
    return f(I, *args, **kw)


def module_attr(I, mod, name):
    full = f"{mod}.{name}"
    if full in ("math.pi", "numpy.pi"):
        return Num("f", T.PI)
    if full in ("numpy.inf", "math.inf"):
        return Num("f", T.INF if I.ctx.g.get("infinity") else Inf(1))
    if full in ("math.e",):
        return T.num_exp(lift(Fraction(1)))
    if full in SPECIAL_ATTR:
        return SPECIAL_ATTR[full](I)
    if full in FNS or full in TYPES:
        return LibFn(full)
    if full in ("numpy.fft", "numpy.linalg", "numpy.random", "scipy.signal", "sklearn.mixture"):
        return ModuleVal(full)
    return LibFn(full)


# ------------------------------------------------------------------- types
TYPES = {
    "numpy.ndarray": None,
    "float": "f",
    "int": "i",
    "complex": "c",
    "bool": "b",
    "numpy.float64": "f",
    "numpy.float32": None,
    "numpy.int64": "i",
    "numpy.complex128": "c",
    "numpy.bool_": "b",
    "numpy.inexact": None,
    "numpy.integer": None,
    "numpy.floating": None,
    "numpy.complexfloating": None,
    "numpy.number": None,
}
KTYPE = {"f": "numpy.float64", "i": "numpy.int64", "c": "numpy.complex128", "b": "numpy.bool_"}
SUPER = {
    "numpy.float64": {"numpy.float64", "numpy.floating", "numpy.inexact", "numpy.number", "float", "numpy.generic"},
    "numpy.complex128": {"numpy.complex128", "numpy.complexfloating", "numpy.inexact", "numpy.number", "complex", "numpy.generic"},
    "numpy.int64": {"numpy.int64", "numpy.signedinteger", "numpy.integer", "numpy.number", "numpy.generic"},
    "numpy.bool_": {"numpy.bool_", "numpy.generic"},
}


def dkind(I, d):
    """kind of a dtype argument"""
    if d is None:
        return "f"
    if isinstance(d, LibFn) and TYPES.get(d.name):
        return TYPES[d.name]
    if isinstance(d, Opaque) and d.tag == "dtype":
        return d.info["k"]
    if isinstance(d, str) and d in ("float", "complex", "int", "bool"):
        return d[0]
    raise Unsupported(f"dtype {d}")


def type_of(I, v):
    if isinstance(v, Num):
        return LibFn(KTYPE[v.k])
    if isinstance(v, Arr):
        return LibFn("numpy.ndarray")
    if isinstance(v, Obj):
        c = I.heap.objs[v.oid].cls
        return I.prog.classes.get(c) or LibFn(c)
    if isinstance(v, (ListRef, SymSeq)):
        return LibFn("list")
    if isinstance(v, tuple):
        return LibFn("tuple")
    if isinstance(v, str):
        return LibFn("str")
    if isinstance(v, DictRef):
        return LibFn("dict")
    if isinstance(v, Opaque):
        if v.tag.startswith("exc:"):
            return Opaque("exctype:" + v.tag[4:], v.term)
        return LibFn(v.tag)
    raise Unsupported(f"type of {type(v).__name__}")


def is_instance(I, v, t):
    if isinstance(t, tuple):
        return any(is_instance(I, v, x) for x in t)
    if isinstance(t, ClassVal):
        if isinstance(v, Obj) and I.heap.objs[v.oid].cls in I.prog.classes:
            return t in I.prog.classes[I.heap.objs[v.oid].cls].mro()
        return False
    n = t.name
    if isinstance(v, Num):
        if n in ("int",):
            return v.k in "bi"
        return n in SUPER[KTYPE[v.k]] or (n == "bool" and v.k == "b")
    if isinstance(v, Arr):
        return n == "numpy.ndarray"
    if isinstance(v, (ListRef, SymSeq)):
        return n == "list"
    if isinstance(v, tuple):
        return n == "tuple"
    if isinstance(v, str):
        return n == "str"
    if isinstance(v, bytes):
        return n == "bytes"
    if isinstance(v, DictRef):
        return n == "dict"
    if v is None:
        return False
    if isinstance(v, Opaque):
        if v.tag.startswith("exc:"):
            return n in EXC and exc_is(v.tag[4:], n)
        if n in EXC:
            return False
        return n == v.tag
    if isinstance(v, Obj):
        return n == I.heap.objs[v.oid].cls
    raise Unsupported(f"isinstance of {type(v).__name__}")


@fn("isinstance")
def _isinstance(I, v, t):
    return lift(is_instance(I, v, t))


@fn("issubclass", "numpy.issubdtype")
def _issubclass(I, a, b):
    if isinstance(a, Opaque) and a.tag == "dtype":
        a = LibFn(KTYPE[a.info["k"]])
    ts = b if isinstance(b, tuple) else (b,)
    if isinstance(a, LibFn) and a.name in SUPER:
        return lift(any(isinstance(t, LibFn) and t.name in SUPER[a.name] for t in ts))
    if isinstance(a, LibFn):
        m = {"float": "numpy.float64", "complex": "numpy.complex128"}.get(a.name)
        if m:
            return lift(any(isinstance(t, LibFn) and t.name in SUPER[m] for t in ts))
    raise Unsupported("issubclass")


@fn("type")
def _type(I, v):
    return type_of(I, v)


@fn("hasattr")
def _hasattr(I, v, name):
    if isinstance(v, Opaque):
        if ("has:" + name) in v.info:
            return lift(v.info["has:" + name])
        raise Unsupported(f"hasattr {name}")
    if isinstance(v, Obj):
        rec = I.heap.objs[v.oid]
        if rec.cls in I.prog.classes:
            c = I.prog.classes[rec.cls]
            return lift(name in rec.fields or any(I.prog.find(c, name, k) is not None for k in ("props", "methods", "attrs")))
        if ("has:" + name) in rec.fields:
            return lift(rec.fields["has:" + name])
        return lift(name in rec.fields)
    if v is None:
        return lift(False)
    if isinstance(v, Num) or isinstance(v, str):
        return lift(name in dir(0.0 if isinstance(v, Num) else ""))
    raise Unsupported("hasattr")


@fn("getattr")
def _getattr(I, v, name, default=None):
    return I.getattr(v, name)


@fn("object.__init__")
def _obj_init(I, *a, **k):
    return None


# ---------------------------------------------------------------- builtins
@fn("len")
def _len(I, v):
    if isinstance(v, Arr):
        sh = I.shape(v)
        if not sh:
            raise PyExc("TypeError")
        return lift(sh[0])
    if isinstance(v, (tuple, str, bytes)):
        return lift(len(v))
    if isinstance(v, ListRef):
        x = I.heap.lists[v.ref]
        return lift(len(x) if isinstance(x, list) else x.n)
    if isinstance(v, SymSeq):
        return lift(v.n)
    if isinstance(v, DictRef):
        return lift(len(I.heap.dicts[v.ref]))
    if isinstance(v, SetVal) and v.items is not None:
        raise Unsupported("len of set")
    if isinstance(v, Opaque) and "len" in v.info:
        return lift(v.info["len"])
    raise Unsupported(f"len of {type(v).__name__}")


@fn("range")
def _range(I, *a):
    a = [I.num(x) for x in a]
    for x in a:
        if x.k not in "bi":
            I.ctx.oblige("range-integer", False)
    a = [x.to("i").re for x in a]
    if len(a) == 1:
        return RangeVal(0, a[0], 1)
    return RangeVal(a[0], a[1], a[2] if len(a) > 2 else 1)


@fn("enumerate")
def _enumerate(I, v, start=None):
    it = I.iterate(v)
    s = start.re if start is not None else 0
    return Iter(it.n, lambda i: (lift(r_add(i, s)), it.at(i)))


@fn("zip")
def _zip(I, *vs, strict=None):
    its = [I.iterate(v) for v in vs]
    n = its[0].n
    for it in its[1:]:
        n = I.ctx.rmin(n, it.n)
    return Iter(n, lambda i: tuple(it.at(i) for it in its))


@fn("reversed")
def _reversed(I, v):
    it = I.iterate(v)
    return Iter(it.n, lambda i: it.at(r_sub(r_sub(it.n, 1), i)))


@fn("map")
def _map(I, f, *vs):
    its = [I.iterate(v) for v in vs]
    n = its[0].n
    for it in its[1:]:
        n = I.ctx.rmin(n, it.n)
    return Iter(n, lambda i: I.call(f, [it.at(i) for it in its], {}))


@fn("list", "tuple")
def _list(I, v=None):
    if v is None:
        return I.heap.new_list([])
    if isinstance(v, SetVal) and v.items is None:
        return v
    it = I.iterate(v)
    n = fold(it.n) if is_z(it.n) else it.n
    if not is_z(n):
        return I.heap.new_list([it.at(i) for i in range(int(n))])
    at = it.at
    if isinstance(v, Arr):
        snap = I.snap(v)
        if len(I.shape(v)) == 1:
            at = lambda i: snap(i)  # noqa
    return I.heap.new_list(SymSeq(n, at))


@fn("tuple")
def _tuple(I, v=None):
    if v is None:
        return ()
    it = I.iterate(v)
    if is_z(it.n):
        raise Unsupported("tuple of symbolic length")
    return tuple(it.at(i) for i in range(int(it.n)))


@fn("dict")
def _dict(I, *a, **kw):
    d = {}
    if a:
        if isinstance(a[0], DictRef):
            d.update(I.heap.dicts[a[0].ref])
        else:
            raise Unsupported("dict()")
    d.update(kw)
    return I.heap.new_dict(d)


@fn("set")
def _set(I, v=None):
    if v is None:
        return SetVal([])
    if isinstance(v, Arr) and not I.concrete_shape(v):
        return SetVal(None, v)
    it = I.iterate(v)
    if is_z(it.n):
        return SetVal(None, v)
    out = []
    for i in range(int(it.n)):
        x = it.at(i)
        out.append(x)
    return SetVal(out)


@fn("float")
def _float(I, v=None):
    if isinstance(v, str):
        return lift(float(v))
    x = I.num(v)
    if x.k == "c":
        raise PyExc("TypeError")
    return x.to("f") if not x.inf else x


@fn("int")
def _int(I, v=None):
    x = I.num(v)
    if x.inf:
        raise PyExc("OverflowError")
    return T.num_trunc(x)


@fn("bool")
def _bool(I, v=None):
    return Num("b", I.truth(v))


@fn("complex")
def _complex(I, a=None, b=None):
    x = I.num(a).to("c") if a is not None else lift(0).to("c")
    return x + I.num(b) * Num("c", 0, Fraction(1)) if b is not None else x


def emap(I, f, a, k=None):
    """Elementwise function."""
    shape = I.shape(a)
    src = I.snap(a)
    if I.concrete_shape(a) and _size(shape) <= 64:
        items = [f(x) for x in I.items(a)]
        return I.dense(items, shape, k or (items[0].k if items else I.kind(a)))
    kk = k or f(_probe(I.kind(a))).k
    return I.new(shape, kk, lambda *ix: f(src(*ix)))


def _probe(k):
    if k == "b":
        return Num("b", z3.Bool("probe.b"))
    if k == "i":
        return Num("i", z3.Int("probe.i"))
    if k == "f":
        return Num("f", z3.Real("probe.f"))
    return Num("c", z3.Real("probe.re"), z3.Real("probe.im"))


def _size(shape):
    n = 1
    for d in shape:
        n *= d
    return n


def as_arr(I, v):
    if isinstance(v, Arr):
        return v
    return call(I, "numpy.array", [v], {})


def broadcast(I, vs):
    """(shape, [element functions], kinds) of numbers and arrays."""
    shapes = [I.shape(v) if isinstance(v, Arr) else () for v in vs]
    rank = max(len(s) for s in shapes)
    out = []
    for d in range(rank):
        cand = []
        for s in shapes:
            o = d - (rank - len(s))
            if o >= 0:
                cand.append(s[o])
        big = [c for c in cand if is_z(c) or c != 1]
        if not big:
            out.append(1)
            continue
        conc = [c for c in big if not is_z(c)]
        top = conc[0] if conc else big[0]
        for c in big:
            if c is not top:
                I.ctx.oblige("broadcast-shape", r_eq(c, top))
        out.append(top)
    fns = []
    for v, s in zip(vs, shapes):
        if not isinstance(v, Arr):
            fns.append(lambda *ix, v=v: v)
            continue
        f = I.snap(v)
        off = rank - len(s)
        one = [not is_z(d) and d == 1 and not (not is_z(e) and e == 1) for d, e in zip(s, out[off:])]

        def g(*ix, f=f, off=off, one=one):
            return f(*[0 if o else i for o, i in zip(one, ix[off:])])

        fns.append(g)
    return tuple(out), fns


def ezip(I, f, *vs, k=None):
    vs = [v if isinstance(v, Arr) else (I.num(v) if not isinstance(v, (ListRef, tuple, SymSeq)) else as_arr(I, v)) for v in vs]
    if not any(isinstance(v, Arr) for v in vs):
        return f(*vs)
    shape, fns = broadcast(I, vs)
    if not shape:
        return f(*[g() for g in fns])
    if all(not is_z(d) for d in shape) and _size(shape) <= 64:
        items = [f(*[g(*ix) for g in fns]) for ix in itertools.product(*[range(int(d)) for d in shape])]
        kk = k or (items[0].k if items else T.kmax(I.kind(vs[0]) if isinstance(vs[0], Arr) else vs[0].k, "f"))
        return I.dense(items, shape, kk)
    if k is None:
        k = f(*[_probe(I.kind(v)) if isinstance(v, Arr) else v for v in vs]).k
    return I.new(shape, k, lambda *ix: f(*[g(*ix) for g in fns]))


def ebinop(I, op, a, b):
    if isinstance(op, ast.Div) or isinstance(op, (ast.FloorDiv, ast.Mod)):
        # every element of the divisor is nonzero
        v = b if isinstance(b, Arr) else (as_arr(I, b) if isinstance(b, (ListRef, tuple, SymSeq)) else I.num(b))
        if isinstance(v, Arr):
            w = [T.fresh_int("w") for _ in I.shape(v)]
            if I.concrete_shape(v) and _size(I.shape(v)) <= 64:
                for x in I.items(v):
                    I.nonzero(x)
            else:
                x = I.at(v, *w)
                inb = b_and(*[b_and(r_le(0, i), r_lt(i, d)) for i, d in zip(w, I.shape(v))])
                nz = b_or(b_not(r_eq(x.re, 0)), b_not(r_eq(x.im, 0)) if x.k == "c" else False)
                I.ctx.oblige("division", b_implies(inb, nz), assume=False)
        elif not v.inf:
            I.nonzero(v)
        b = v
        if not isinstance(op, ast.Div):
            I.ctx.dry += 1
            try:
                return ezip(I, lambda x, y: I.scalar_op(op, x, y), a, b)
            finally:
                I.ctx.dry -= 1
        return ezip(I, lambda x, y: x / y, a, b)
    if isinstance(op, ast.Pow):
        return ezip(I, T.num_pow, a, b)
    if isinstance(op, ast.Add):
        return ezip(I, T.num_add, a, b)
    if isinstance(op, ast.Sub):
        return ezip(I, T.num_sub, a, b)
    if isinstance(op, ast.Mult):
        return ezip(I, T.num_mul, a, b)
    if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
        return ezip(I, lambda x, y: I.scalar_op(op, x, y), a, b)
    raise Unsupported(f"array operator {type(op).__name__}")


def ecompare(I, o, a, b):
    return ezip(I, lambda x, y: T.num_cmp(o, x, y), a, b, k="b")


# -------------------------------------------------------------- reductions
F_ANY = uf("any", SEQ, BOOL)
F_MAX = uf("max", SEQ, REAL)
F_MIN = uf("min", SEQ, REAL)
F_PROD = uf("prod", SEQ, REAL)


@T.schema("prod")
def _ax_prod(a, s):
    """A product of elements none of which is negative is not negative."""
    dims, elem = T.seq_inst(s)
    w = z3.Int(f"wprod!{s.get_id()}")
    return [z3.Or(z3.And(0 <= w, w < dims[0], elem(w)[0] < 0), a >= 0)]


@T.schema("any")
def _ax_any(a, s):
    dims, elem = T.seq_inst(s)
    ws = [z3.Int(f"wany!{s.get_id()}!{i}") for i in range(len(dims))]
    inb = [z3.And(0 <= w, w < d) for w, d in zip(ws, dims)]
    return [z3.Implies(a, z3.And(*inb, elem(*ws)[0] == 1))]


def index_terms(fs, limit=24):
    out = {}
    for name, lst in T.apps(fs).items():
        for a in lst:
            for c in a.children():
                if c.sort() == INT and len(out) < limit:
                    out[c.get_id()] = c
    return list(out.values())


def any_of(n, cond):
    """Exists i in [0, n): cond(i) — raw boolean."""
    n = fold(n) if is_z(n) else n
    if not is_z(n) and n <= 64:
        return b_or(*[cond(i) for i in range(int(n))])
    s = T.seq([n], lambda j: [z3.If(zb(cond(j)), z3.RealVal(1), z3.RealVal(0))])
    return F_ANY(s)


def all_of(n, cond):
    return b_not(any_of(n, lambda i: b_not(cond(i))))


def forall_fact(I, n, cond):
    """Assume for every index, as a quantified hypothesis."""
    j = z3.Int(T.Fresh.name("q"))
    I.ctx.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < zi(n)), zb(cond(j)))))


def extreme(I, n, f, which):
    """max or min of Num f(0..n-1), n >= 1"""
    n = fold(n) if is_z(n) else n
    k = f(0 if not is_z(n) else T.bound_int()).k
    if not is_z(n) and n <= 64:
        r = f(0)
        for i in range(1, int(n)):
            x = f(i)
            r = num_ite(r_lt(r.re, x.re) if which == "max" else r_lt(x.re, r.re), x, r)
        return r
    s = T.seq([n], lambda j: [zr(f(j).re)])
    return Num("f", (F_MAX if which == "max" else F_MIN)(s))


def _ext_ax(a, s, which):
    dims, elem = T.seq_inst(s)
    w = z3.Int(f"w{which}!{s.get_id()}")
    return [z3.Implies(dims[0] > 0, z3.And(0 <= w, w < dims[0], a == elem(w)[0]))]


T.schema("max")(lambda a, s: _ext_ax(a, s, "max"))
T.schema("min")(lambda a, s: _ext_ax(a, s, "min"))


def flat(I, v):
    """(n, f) of a sequence or a 1-D view of an array."""
    if isinstance(v, Arr):
        sh = I.shape(v)
        if len(sh) == 1:
            return sh[0], I.snap(v)
        if all(not is_z(d) for d in sh):
            it = I.items(v)
            return len(it), lambda i: it[i] if not is_z(i) else I.select(it, i)
        if len(sh) == 2:
            f = I.snap(v)
            r, c = sh
            if is_z(c):
                return None
            return r_mul(r, c), lambda i: f(zi(i) / c, zi(i) % c)
        return None
    it = I.iterate(v)
    return it.n, it.at


def reduce_(I, v, what):
    if isinstance(v, Arr) and len(I.shape(v)) == 2 and flat(I, v) is None:
        r, c = I.shape(v)
        f = I.snap(v)
        if what == "any":
            s = T.seq([r, c], lambda i, j: [z3.If(zb(f(i, j).to("b").re), z3.RealVal(1), z3.RealVal(0))])
            return Num("b", F_ANY(s))
        if what == "all":
            s = T.seq([r, c], lambda i, j: [z3.If(zb(f(i, j).to("b").re), z3.RealVal(0), z3.RealVal(1))])
            return Num("b", b_not(F_ANY(s)))
        if what == "sum":
            return T.num_sum(r, lambda i: T.num_sum(c, lambda j: f(i, j)))
        raise Unsupported(what)
    n, f = flat(I, v)
    if what == "sum":
        if isinstance(v, Arr):
            return T.num_sum(n, f, I.kind(v) if I.kind(v) != "b" else "i")
        if not is_z(n) and n > 0 and any(isinstance(f(i), Arr) for i in range(int(n))):
            r = f(0)
            for i in range(1, int(n)):
                r = I.binop(ast.Add(), r, f(i))
            return r
        return T.num_sum(n, lambda i: I.num(f(i)))
    if what == "any":
        return Num("b", any_of(n, lambda i: I.truth(f(i))))
    if what == "all":
        return Num("b", all_of(n, lambda i: I.truth(f(i))))
    if what in ("max", "min"):
        if isinstance(v, Arr) or is_z(n):
            I.ctx.oblige(what + "-nonempty", r_lt(0, n))
        elif n == 0:
            raise PyExc("ValueError")
        return extreme(I, n, lambda i: I.num(f(i)), what)
    if what == "prod":
        if not is_z(n) and n <= 64:
            r = lift(1)
            for i in range(int(n)):
                r = r * f(i)
            return r
        s = T.seq([n], lambda j: [zr(f(j).to("f").re)])
        return Num("f", F_PROD(s))
    raise Unsupported(what)


def axis_reduce(I, a, axis, what, div=False):
    sh = I.shape(a)
    f = I.snap(a)
    ax = int(axis.re)
    ax = ax + len(sh) if ax < 0 else ax
    if len(sh) == 1:
        return reduce_(I, a, what)
    rest = [d for i, d in enumerate(sh) if i != ax]
    n = sh[ax]
    k = I.kind(a)
    if what == "sum":
        k = k if k != "b" else "i"

        def g(*ix):
            return T.num_sum(n, lambda i: f(*ix[:ax], i, *ix[ax:]), k)
    elif what in ("any", "all"):
        k = "b"

        def g(*ix):
            h = any_of if what == "any" else all_of
            return Num("b", h(n, lambda i: f(*ix[:ax], i, *ix[ax:]).to("b").re))
    else:

        def g(*ix):
            return extreme(I, n, lambda i: f(*ix[:ax], i, *ix[ax:]), what)

    return I.new(rest, k, g)


def _red(what):
    def f(I, v, axis=None, **kw):
        if kw:
            raise Unsupported(f"{what} options")
        if axis is not None:
            return axis_reduce(I, as_arr(I, v), axis, what)
        return reduce_(I, v, what)

    return f


for _n in ("sum", "any", "all", "prod"):
    fn(f"numpy.{_n}")(_red(_n))
    meth(_n)(_red(_n))
fn("numpy.max", "numpy.amax")(_red("max"))
fn("numpy.min", "numpy.amin")(_red("min"))
meth("max")(_red("max"))
meth("min")(_red("min"))


def _bsum(what):
    def f(I, *vs, start=None, key=None, default=None):
        if key is not None or default is not None:
            raise Unsupported(what + " options")
        if what in ("max", "min") and len(vs) > 1:
            r = I.num(vs[0])
            for v in vs[1:]:
                r = minmax(r, I.num(v), what)
            return r
        v = vs[0]
        if isinstance(v, Arr) and len(I.shape(v)) == 2 and what == "sum":
            return axis_reduce(I, v, lift(0), "sum")
        if isinstance(v, Arr) and len(I.shape(v)) != 1:
            raise Unsupported(what + " of a matrix")
        r = reduce_(I, v, what)
        s = vs[1] if len(vs) > 1 else start
        return r + s if s is not None else r

    return f


def minmax(a, b, what):
    """Python semantics: the first extreme is kept."""
    if a.inf or b.inf:
        c = T.num_cmp(">" if what == "max" else "<", b, a).re
        return b if c else a
    c = T.num_cmp(">" if what == "max" else "<", b, a).re
    k = a.k if a.k == b.k else T.kmax(a.k, b.k)
    return num_ite(c, b.to(k), a.to(k))


for _n in ("sum", "max", "min", "any", "all"):
    fn(_n)(_bsum(_n))


@fn("numpy.maximum")
def _maximum(I, a, b):
    return ezip(I, lambda x, y: minmax(x, y, "max"), a, b)


@fn("numpy.minimum")
def _minimum(I, a, b):
    return ezip(I, lambda x, y: minmax(x, y, "min"), a, b)


@fn("numpy.mean")
@meth("mean")
def _mean(I, a, axis=None):
    a = as_arr(I, a)
    if axis is None:
        n, _ = flat(I, a)
        I.ctx.oblige("mean-nonempty", r_lt(0, n))
        return reduce_(I, a, "sum") / lift(n)
    ax = int(axis.re) % len(I.shape(a))
    n = I.shape(a)[ax]
    I.ctx.oblige("mean-nonempty", r_lt(0, n))
    s = axis_reduce(I, a, axis, "sum")
    if isinstance(s, Num):
        return s / lift(n)
    return emap(I, lambda x: x / lift(n), s)


# ------------------------------------------------------------- elementwise
def _unary(name, f, *names):
    def g(I, v):
        if isinstance(v, (ListRef, tuple, SymSeq)):
            v = as_arr(I, v)
        if isinstance(v, Arr) and I.shape(v):
            return emap(I, f, v)
        return f(I.num(v))

    fn(*names)(g)


_unary("abs", T.num_abs, "abs", "numpy.abs", "numpy.absolute", "numpy.fabs", "math.fabs")
_unary("exp", T.num_exp, "numpy.exp", "math.exp")
_unary("conj", T.num_conj, "numpy.conj", "numpy.conjugate")
_unary("sqrt", lambda x: T.num_sqrt(x), "numpy.sqrt", "math.sqrt")
_unary("cos", lambda x: Num("f", T.cos_(T.canon(zr(x.re)))), "numpy.cos", "math.cos")
_unary("sin", lambda x: Num("f", T.sin_(T.canon(zr(x.re)))), "numpy.sin", "math.sin")
_unary("ceil", lambda x: T.num_neg(T.num_floor(T.num_neg(x))).to("f"), "numpy.ceil")
_unary("mceil", lambda x: T.num_neg(T.num_floor(T.num_neg(x))), "math.ceil")
_unary("floor", lambda x: T.num_floor(x).to("f"), "numpy.floor")
_unary("mfloor", lambda x: T.num_floor(x), "math.floor")
_unary("round", lambda x: T.num_round(x).to("f"), "numpy.round", "numpy.rint", "numpy.around")
_unary("mround", lambda x: T.num_round(x), "round")
fn("numpy.real")(lambda I, a: getattr(I, a if isinstance(a, (Arr, Num)) else as_arr(I, a), "real"))
fn("numpy.imag")(lambda I, a: getattr(I, a if isinstance(a, (Arr, Num)) else as_arr(I, a), "imag"))
_unary("square", lambda x: x * x, "numpy.square")
_unary("negative", T.num_neg, "numpy.negative")


def num_sign(x):
    if x.k == "c":
        raise Unsupported("complex sign")
    one = lift(1).to(x.k)
    return num_ite(r_lt(0, x.re), one, num_ite(r_lt(x.re, 0), -one, lift(0).to(x.k)))


_unary("sign", num_sign, "numpy.sign")


def _ufname(nm, *names, k="f"):
    def f(x):
        if x.k == "c":
            raise Unsupported(f"complex {nm}")
        return Num("f", uf(nm, REAL, REAL)(T.canon(zr(x.re))))

    _unary(nm, f, *names)


for _n in ("sinh", "cosh", "asinh", "acos", "asin", "atan", "tan", "log10", "log2", "tanh"):
    _ufname(_n, f"math.{_n}", f"numpy.{_n}")
_ufname("log", "math.log", "numpy.log")
_ufname("asinh", "numpy.arcsinh")


@fn("numpy.angle")
def _angle(I, v):
    def f(x):
        x = x.to("c")
        return Num("f", T.F_ANGLE(T.canon(zr(x.re)), T.canon(zr(x.im))))

    I.ctx.trust("numpy.angle", "a function of (re, im) with values in (-pi, pi]")
    return emap(I, f, v) if isinstance(v, Arr) else f(I.num(v))


@fn("numpy.fmod", "math.fmod")
def _fmod(I, a, b):
    def f(x, y):
        # C remainder: sign of the dividend
        q = x / y
        t = T.num_trunc(q)
        return x - t.to("f") * y if not (x.conc and y.conc) else lift(x.re - int(Fraction(x.re) / y.re) * y.re)

    for x in (b,):
        if isinstance(x, Num):
            I.nonzero(x)
    return ezip(I, f, a, b)


def isclose_raw(x, y, rtol=Fraction(1, 100000), atol=Fraction(1, 10**8)):
    """|x - y| <= atol + rtol |y|"""
    if x.inf or y.inf:
        return x.inf and y.inf and x.re.sign == y.re.sign
    d = T.num_abs(x - y)
    return r_le(d.re, r_add(atol, r_mul(rtol, T.num_abs(y).re)))


@fn("numpy.isclose")
def _isclose(I, a, b, rtol=None, atol=None):
    r = Fraction(rtol.re) if rtol is not None else Fraction(1, 100000)
    t = Fraction(atol.re) if atol is not None else Fraction(1, 10**8)
    return ezip(I, lambda x, y: Num("b", isclose_raw(x, y, r, t)), a, b, k="b")


@fn("numpy.allclose")
def _allclose(I, a, b):
    r = _isclose(I, a, b)
    return reduce_(I, r, "all") if isinstance(r, Arr) else r


@fn("numpy.isscalar")
def _isscalar(I, v):
    return lift(isinstance(v, (Num, str)))


@fn("numpy.ndim")
def _ndim(I, v):
    return lift(len(I.shape(v)) if isinstance(v, Arr) else 0)


@fn("numpy.shape")
def _npshape(I, v):
    return tuple(lift(d) for d in I.shape(as_arr(I, v))) if not isinstance(v, Num) else ()


@fn("numpy.size")
def _npsize(I, v):
    return getattr_arr(I, as_arr(I, v), "size")


@fn("numpy.iscomplex")
def _iscomplex(I, v):
    f = lambda x: Num("b", b_not(r_eq(x.im, 0)) if x.k == "c" else False)  # noqa
    return emap(I, f, v, k="b") if isinstance(v, Arr) else f(I.num(v))


@fn("numpy.isreal")
def _isreal(I, v):
    f = lambda x: Num("b", r_eq(x.im, 0) if x.k == "c" else True)  # noqa
    return emap(I, f, v, k="b") if isinstance(v, Arr) else f(I.num(v))


@fn("numpy.iscomplexobj")
def _iscomplexobj(I, v):
    return lift((I.kind(v) if isinstance(v, Arr) else I.num(v).k) == "c")


@fn("numpy.isrealobj")
def _isrealobj(I, v):
    return lift((I.kind(v) if isinstance(v, Arr) else I.num(v).k) != "c")


@fn("numpy.isnan", "math.isnan", "numpy.isinf", "math.isinf")
def _isnan(I, v):
    I.ctx.trust("finite values", "signals and coefficients are finite: no NaN or infinity arises from library results")
    if isinstance(v, Arr):
        return I.new(I.shape(v), "b", lambda *ix: Num("b", False))
    return lift(I.num(v).inf and False)


@fn("numpy.isfinite", "math.isfinite")
def _isfinite(I, v):
    if isinstance(v, Arr):
        return I.new(I.shape(v), "b", lambda *ix: Num("b", True))
    return lift(not I.num(v).inf)


@fn("numpy.errstate")
def _errstate(I, **kw):
    return Opaque("nullcontext")


@fn("numpy.finfo")
def _finfo(I, t=None):
    return Opaque("finfo")


@fn("numpy.set_printoptions")
def _spo(I, *a, **k):
    return None


# ------------------------------------------------------------ construction
@fn("numpy.array", "numpy.asarray", "numpy.ascontiguousarray", "numpy.copy")
def _array(I, v, dtype=None, copy=None):
    k = dkind(I, dtype) if dtype is not None else None
    if isinstance(v, Arr):
        src = I.snap(v)
        kk = I.kind(v)
        if k is not None and k != kk:
            return astype(I, v, k)
        if I.concrete_shape(v) and _size(I.shape(v)) <= 64:
            return I.dense(I.items(v), I.shape(v), kk)
        return I.new(I.shape(v), kk, src)
    if isinstance(v, Num):
        return I.new((), k or v.k, lambda: v.to(k or v.k))
    if isinstance(v, Iter):
        raise Unsupported("array of an iterator")
    if isinstance(v, ListRef):
        x = I.heap.lists[v.ref]
        v = x if isinstance(x, SymSeq) else tuple(x)
    if isinstance(v, SymSeq):
        p = v.fn(T.bound_int())
        if isinstance(p, Num):
            kk = k or ("i" if p.k == "b" else p.k)
            f = v.fn
            if p.k == "b":
                kk = k or "b"
            return I.new((v.n,), kk, lambda i: f(i).to(kk))
        if isinstance(p, Arr):
            sh = I.shape(p)
            f = v.fn
            kk = I.kind(p)
            if any(is_z(d) and any(str(c) in T._bound for c in T.ordered_consts(d)) for d in sh):
                raise Unsupported("ragged array")
            return I.new((v.n, *sh), kk, lambda i, *ix: I.at(f(i), *ix))
        raise Unsupported("array of a symbolic list")
    if isinstance(v, tuple):
        if not v:
            return I.new((0,), k or "f", lambda i: lift(0).to(k or "f"))
        sub = [_array(I, x) if not isinstance(x, Num) else x for x in v]
        if all(isinstance(x, Num) for x in sub):
            kk = k
            if kk is None:
                kk = sub[0].k
                for x in sub:
                    kk = T.kmax(kk, x.k, "b")
            return I.dense([x.to(kk) for x in sub], (len(sub),), kk)
        if all(isinstance(x, Arr) for x in sub):
            sh = I.shape(sub[0])
            for x in sub[1:]:
                if len(I.shape(x)) != len(sh):
                    raise PyExc("ValueError")
                for p, q in zip(I.shape(x), sh):
                    I.ctx.oblige("array-shape", r_eq(p, q))
            kk = k
            if kk is None:
                kk = I.kind(sub[0])
                for x in sub:
                    kk = T.kmax(kk, I.kind(x), "b")
            fs = [I.snap(x) for x in sub]

            def g(i, *ix):
                if not is_z(i):
                    return fs[int(i)](*ix).to(kk)
                r = fs[-1](*ix).to(kk)
                for j in range(len(fs) - 2, -1, -1):
                    r = num_ite(r_eq(i, j), fs[j](*ix).to(kk), r)
                return r

            if all(not is_z(d) for d in sh) and _size(sh) * len(sub) <= 600:
                items = [y for x in sub for y in I.items(x)]
                return I.dense([y.to(kk) for y in items], (len(sub), *sh), kk)
            return I.new((len(sub), *sh), kk, g)
    raise Unsupported(f"array of {type(v).__name__}")


@fn("numpy.asarray")
def _asarray(I, v, dtype=None):
    if isinstance(v, Arr) and (dtype is None or dkind(I, dtype) == I.kind(v)):
        return v
    return _array(I, v, dtype)


def astype(I, a, k):
    src, k0 = I.snap(a), I.kind(a)
    if T.ORDER[k] < T.ORDER[k0] and k != "b":
        sh = I.shape(a)
        w = [T.fresh_int("w") for _ in sh]
        inb = b_and(*[b_and(r_le(0, i), r_lt(i, d)) for i, d in zip(w, sh)])
        x = src(*w)
        if k0 == "c":
            I.ctx.oblige("lossy-conversion", b_implies(inb, r_eq(x.im, 0)), assume=False)
        elif k == "i" and k0 == "f":
            I.ctx.oblige("lossy-conversion", b_implies(inb, r_eq(zr(T.num_trunc(x).re), x.re)), assume=False)

    def conv(x):
        if x.k == "c" and k in "fi":
            x = Num("f", x.re)
        return x.to(k)

    if I.concrete_shape(a) and _size(I.shape(a)) <= 64:
        return I.dense([conv(x) for x in I.items(a)], I.shape(a), k)
    return I.new(I.shape(a), k, lambda *ix: conv(src(*ix)))


@meth("astype")
def _astype(I, a, dtype, copy=None):
    return astype(I, a, dkind(I, dtype))


def shape_arg(I, s):
    if isinstance(s, Num):
        s = (s,)
    if isinstance(s, ListRef):
        s = tuple(I.heap.lists[s.ref])
    out = []
    for d in s:
        if d.k not in "bi":
            I.ctx.oblige("integer-shape", False)
        d = d.to("i").re
        d = fold(d) if is_z(d) else d
        I.ctx.oblige("nonnegative-shape", r_le(0, d))
        out.append(d)
    return tuple(out)


def const_arr(I, shape, k, v):
    shape = shape_arg(I, shape)
    x = lift(v).to(k)
    if all(not is_z(d) for d in shape) and _size(shape) <= 64:
        return I.dense([x] * _size(shape), shape, k)
    return I.new(shape, k, lambda *ix: x)


@fn("numpy.zeros", "numpy.empty")
def _zeros(I, shape, dtype=None):
    return const_arr(I, shape, dkind(I, dtype), 0)


@fn("numpy.ones")
def _ones(I, shape, dtype=None):
    return const_arr(I, shape, dkind(I, dtype), 1)


@fn("numpy.full")
def _full(I, shape, v, dtype=None):
    x = I.num(v)
    k = dkind(I, dtype) if dtype is not None else x.k
    shape = shape_arg(I, shape)
    return I.new(shape, k, lambda *ix: x.to(k))


@fn("numpy.zeros_like", "numpy.empty_like")
def _zeros_like(I, a, dtype=None):
    a = as_arr(I, a)
    return const_arr(I, tuple(lift(d) for d in I.shape(a)), dkind(I, dtype) if dtype is not None else I.kind(a), 0)


@fn("numpy.ones_like")
def _ones_like(I, a, dtype=None):
    a = as_arr(I, a)
    return const_arr(I, tuple(lift(d) for d in I.shape(a)), dkind(I, dtype) if dtype is not None else I.kind(a), 1)


@fn("numpy.identity", "numpy.eye")
def _identity(I, n):
    (d,) = shape_arg(I, n)
    return I.new((d, d), "f", lambda i, j: num_ite(r_eq(i, j), lift(Fraction(1)), lift(Fraction(0))))


@fn("numpy.arange")
def _arange(I, *a, dtype=None):
    r = _range(I, *a)
    it = I.iterate(r)
    return I.new((it.n,), "i", it.at)


@fn("numpy.linspace")
def _linspace(I, a, b, num=None, endpoint=None):
    a, b = I.num(a), I.num(b)
    n = I.num(num).to("i").re if num is not None else 50
    n = fold(n) if is_z(n) else n
    I.ctx.oblige("linspace-length", r_le(0, n))
    if endpoint is not None and not endpoint.re:
        den = n
    else:
        den = r_sub(n, 1)
    a, b = a.to("f"), b.to("f")
    if not is_z(n) and n <= 64:
        if n <= 1:
            return I.dense([a] * n, (n,), "f")
        return I.dense([a + (b - a) * lift(Fraction(i, den)) for i in range(n)], (n,), "f")

    try:
        unit = not T.poly_add(T.poly_add(T.poly_of(zr(b.re)), T.poly_scale(T.poly_of(zr(a.re)), -1)), T.poly_scale(T.poly_of(zr(den)), -1))
    except Unsupported:
        unit = False
    if unit:  # unit spacing
        return I.new((n,), "f", lambda i: a + Num("i", i).to("f"))

    def f(i):
        return Num("f", r_ite(r_eq(n, 1), a.re, r_add(a.re, r_div(r_mul(r_sub(b.re, a.re), zr(i)), zr(den)))))

    return I.new((n,), "f", f)


@fn("numpy.concatenate", "numpy.hstack")
def _concatenate(I, vs, axis=None):
    if isinstance(vs, ListRef):
        vs = tuple(I.heap.lists[vs.ref])
    if axis is not None and axis.re != 0:
        raise Unsupported("concatenate axis")
    vs = [as_arr(I, v) for v in vs]
    k = I.kind(vs[0])
    for v in vs:
        k = T.kmax(k, I.kind(v), "b")
    if len(I.shape(vs[0])) != 1:
        raise Unsupported("concatenate of matrices")
    if all(I.concrete_shape(v) for v in vs):
        items = [x.to(k) for v in vs for x in I.items(v)]
        if len(items) <= 600:
            return I.dense(items, (len(items),), k)
    offs, fs, o = [], [], 0
    for v in vs:
        offs.append(o)
        fs.append(I.snap(v))
        o = r_add(o, I.shape(v)[0])

    def g(i):
        r = fs[-1](r_sub(i, offs[-1])).to(k)
        for f, lo, hi in reversed(list(zip(fs[:-1], offs[:-1], offs[1:]))):
            r = num_ite(r_lt(i, hi), f(r_sub(i, lo)).to(k), r)
        return r

    return I.new((o,), k, g)


@fn("numpy.append")
def _append(I, a, b):
    return _concatenate(I, (as_arr(I, a), as_arr(I, b) if not isinstance(b, Num) else I.dense([b])))


@fn("numpy.stack", "numpy.vstack")
def _stack(I, vs, axis=None):
    if axis is not None and axis.re != 0:
        raise Unsupported("stack axis")
    return _array(I, vs)


@fn("numpy.tile")
def _tile(I, a, n):
    a = as_arr(I, a)
    n = I.num(n).re
    (d,) = I.shape(a)
    f = I.snap(a)
    if not is_z(n) and n == 1:
        return I.new((d,), I.kind(a), f)
    return I.new((r_mul(d, n),), I.kind(a), lambda i: f(r_ite(r_eq(d, 0), 0, zi(i) % zi(d))))


@fn("numpy.roll")
def _roll(I, a, n, axis=None):
    a = as_arr(I, a)
    (d,) = I.shape(a)
    f, k = I.snap(a), I.num(n).re
    if not is_z(k) and abs(k) == 1 and I.ctx.provable(r_lt(0, d)):
        if k == 1:
            return I.new((d,), I.kind(a), lambda i: num_ite(r_eq(i, 0), f(r_sub(d, 1)), f(r_sub(i, 1))))
        return I.new((d,), I.kind(a), lambda i: num_ite(r_eq(i, r_sub(d, 1)), f(0), f(r_add(i, 1))))
    return I.new((d,), I.kind(a), lambda i: f((zi(i) - zi(k)) % zi(d)))


@fn("numpy.delete")
def _delete(I, a, i):
    a = as_arr(I, a)
    (d,) = I.shape(a)
    f = I.snap(a)
    p = I.norm_index(i, d)
    if I.concrete_shape(a) and not is_z(p):
        it = I.items(a)
        return I.dense(it[:p] + it[p + 1 :], (d - 1,), I.kind(a))
    return I.new((r_sub(d, 1),), I.kind(a), lambda j: f(r_ite(r_lt(j, p), j, r_add(j, 1))))


@fn("numpy.flip", "numpy.flipud")
def _flip(I, a, axis=None):
    a = as_arr(I, a)
    sh = I.shape(a)
    if len(sh) == 1:
        return Arr(a.ref, I.sub_view(a, slice(None, None, lift(-1))))
    if axis is None:
        raise Unsupported("flip of a matrix")
    ix = [slice(None, None, None)] * len(sh)
    ix[int(axis.re)] = slice(None, None, lift(-1))
    return Arr(a.ref, I.sub_view(a, tuple(ix)))


@fn("numpy.fliplr")
def _fliplr(I, a):
    return Arr(a.ref, I.sub_view(a, (slice(None, None, None), slice(None, None, lift(-1)))))


@fn("numpy.transpose")
def _transpose(I, a):
    return getattr_arr(I, a, "T")


def _quo(k, d):
    return zi(k) / d if is_z(k) else k // d


def _mod(k, d):
    return zi(k) % d if is_z(k) else k % d


@fn("numpy.reshape")
@meth("reshape")
def _reshape(I, a, *shape, order=None):
    if len(shape) > 1 and isinstance(shape[-1], str):
        order, shape = shape[-1], shape[:-1]
    if len(shape) == 1 and not isinstance(shape[0], Num):
        shape = shape[0]
        if isinstance(shape, ListRef):
            shape = tuple(I.heap.lists[shape.ref])
    new = [x.to("i").re for x in shape]
    old = I.shape(a)
    f = I.snap(a)
    if any(not is_z(d) and d == -1 for d in new):
        tot = 1
        for d in old:
            tot = r_mul(tot, d)
        rest = 1
        for d in new:
            if is_z(d) or d != -1:
                rest = r_mul(rest, d)
        if not is_z(rest) and rest == 1:
            q = tot
        elif not is_z(tot) and not is_z(rest):
            q = tot // rest
        else:
            raise Unsupported("reshape with -1")
        new = [q if not is_z(d) and d == -1 else d for d in new]
    if len(old) == 2 and len(new) == 1:
        if not is_z(old[0]) and old[0] == 1:
            I.ctx.oblige("reshape-size", r_eq(old[1], new[0]))
            return Arr(a.ref, I.sub_view(a, (lift(0), slice(None, None, None))))
        if is_z(old[0]) and I.ctx.provable(r_eq(old[0], 1)):
            I.ctx.oblige("reshape-size", r_eq(old[1], new[0]))
            return Arr(a.ref, I.sub_view(a, (lift(0), slice(None, None, None))))
    if len(old) == 1 and len(new) == 1:
        I.ctx.oblige("reshape-size", r_eq(old[0], new[0]))
        return a
    if len(old) == 1 and len(new) == 2:
        I.ctx.oblige("reshape-size", r_eq(old[0], r_mul(new[0], new[1])))
        if order in ("F",):
            back = (lambda g, now: lambda k: g(_mod(k, new[0]), _quo(k, new[0]))) if not is_z(new[0]) else None
            return I.derived(a, new, I.kind(a), lambda f: lambda i, j: f(r_add(i, r_mul(j, new[0]))), back)
        back = (lambda g, now: lambda k: g(_quo(k, new[1]), _mod(k, new[1]))) if not is_z(new[1]) else None
        return I.derived(a, new, I.kind(a), lambda f: lambda i, j: f(r_add(r_mul(i, new[1]), j)), back)
    if all(not is_z(d) for d in (*old, *new)):
        I.ctx.oblige("reshape-size", _size(old) == _size(new))
        if order not in (None, "C"):
            raise Unsupported("reshape order")
        dims = [int(d) for d in old]

        def shaped(f):
            items = [f(*ix) for ix in itertools.product(*[range(d) for d in dims])]
            return dense_fn(items, tuple(int(d) for d in new), I.kind(a))

        return I.derived(a, tuple(new), I.kind(a), shaped)
    if len(old) == len(new) and all(I.ctx.provable(r_eq(p, q)) for p, q in zip(old, new)):
        return a
    raise Unsupported("reshape")


@fn("numpy.atleast_2d")
def _atleast2(I, a):
    if len(I.shape(a)) == 1:
        f = I.snap(a)
        return I.derived(a, (1, *I.shape(a)), I.kind(a), lambda f: lambda i, j: f(j))
    return a


@meth("copy")
def _copy(I, a):
    if isinstance(a, ListRef):
        x = I.heap.lists[a.ref]
        return I.heap.new_list(list(x) if isinstance(x, list) else x)
    if isinstance(a, DictRef):
        return I.heap.new_dict(dict(I.heap.dicts[a.ref]))
    return _array(I, a)


@meth("ravel", "flatten")
def _ravel(I, a):
    if len(I.shape(a)) == 1:
        return _array(I, a)
    return _reshape(I, a, lift(-1))


@meth("tolist")
def _tolist(I, a):
    return _list(I, a)


@meth("item")
def _item(I, a, *ix):
    if isinstance(a, Num):
        return a
    return I.at(a, *[0] * len(I.shape(a)))


@meth("fill")
def _fill(I, a, v):
    I.store_all(a, v)


@meth("conj", "conjugate")
def _conj(I, a):
    return T.num_conj(a) if isinstance(a, Num) else emap(I, T.num_conj, a)


# ---------------------------------------------------------- linear algebra
def dot(I, a, b):
    if not isinstance(a, Arr) or not isinstance(b, Arr):
        return I.binop(ast.Mult(), a, b)
    return matmul(I, a, b)


fn("numpy.dot", "numpy.inner", "numpy.matmul")(lambda I, a, b: dot(I, as_arr(I, a) if not isinstance(a, Num) else a, as_arr(I, b) if not isinstance(b, Num) else b))
meth("dot")(lambda I, a, b: dot(I, a, as_arr(I, b) if not isinstance(b, Num) else b))


def matmul(I, a, b):
    a, b = as_arr(I, a), as_arr(I, b)
    sa, sb = I.shape(a), I.shape(b)
    f, g = I.snap(a), I.snap(b)
    k = T.kmax(I.kind(a), I.kind(b))
    if len(sa) == 1 and len(sb) == 1:
        I.ctx.oblige("dot-shape", r_eq(sa[0], sb[0]))
        n = sa[0] if not is_z(sa[0]) else sb[0]
        return T.num_sum(n, lambda i: f(i) * g(i), k)
    if len(sa) == 2 and len(sb) == 1:
        I.ctx.oblige("matmul-shape", r_eq(sa[1], sb[0]))
        n = sa[1] if not is_z(sa[1]) else sb[0]
        return I.new((sa[0],), k, lambda i: T.num_sum(n, lambda m: f(i, m) * g(m), k))
    if len(sa) == 1 and len(sb) == 2:
        I.ctx.oblige("matmul-shape", r_eq(sa[0], sb[0]))
        n = sa[0] if not is_z(sa[0]) else sb[0]
        return I.new((sb[1],), k, lambda j: T.num_sum(n, lambda m: f(m) * g(m, j), k))
    if len(sa) == 2 and len(sb) == 2:
        I.ctx.oblige("matmul-shape", r_eq(sa[1], sb[0]))
        n = sa[1] if not is_z(sa[1]) else sb[0]
        return I.new((sa[0], sb[1]), k, lambda i, j: T.num_sum(n, lambda m: f(i, m) * g(m, j), k))
    raise Unsupported("matmul")


@fn("numpy.outer")
def _outer(I, a, b):
    f, g = I.snap(a), I.snap(b)
    return I.new((I.shape(a)[0], I.shape(b)[0]), T.kmax(I.kind(a), I.kind(b)), lambda i, j: f(i) * g(j))


F_INV = uf("linalg_inv", SEQ, INT, INT, REAL)


@fn("numpy.linalg.inv")
def _inv(I, a):
    sh = I.shape(a)
    f = I.snap(a)
    if all(not is_z(d) for d in sh) and sh[0] == sh[1] and sh[0] <= 3:
        n = sh[0]
        m = [[f(i, j).to(T.kmax(I.kind(a), "f")) for j in range(n)] for i in range(n)]

        def det(mm):
            if len(mm) == 1:
                return mm[0][0]
            r = None
            for j in range(len(mm)):
                t = mm[0][j] * det([row[:j] + row[j + 1 :] for row in mm[1:]])
                t = -t if j & 1 else t
                r = t if r is None else r + t
            return r

        d = det(m)
        I.ctx.oblige("invertible", b_not(num_zero(d)))
        items = []
        for i in range(n):
            for j in range(n):
                minor = [[m[p][q] for q in range(n) if q != i] for p in range(n) if p != j]
                c = det(minor) if n > 1 else lift(Fraction(1))
                items.append((-c if (i + j) & 1 else c) / d)
        I.ctx.trust("numpy.linalg.inv (3x3)", "adjugate over determinant of a matrix with nonzero determinant")
        return I.dense(items, sh, "f" if I.kind(a) != "c" else "c")
    I.ctx.trust("numpy.linalg.inv", "a function of the matrix")
    I.ctx.oblige("square", r_eq(sh[0], sh[1]))
    s = T.seq(sh, lambda i, j: [zr(f(i, j).to("f").re)])
    return I.new(sh, "f", lambda i, j: Num("f", F_INV(s, zi(i), zi(j))))


def num_zero(x):
    return b_and(r_eq(x.re, 0), r_eq(x.im, 0) if x.k == "c" else True)


@fn("numpy.convolve")
def _convolve(I, a, b, mode=None):
    a, b = as_arr(I, a), as_arr(I, b)
    (n,), (m,) = I.shape(a), I.shape(b)
    k = T.kmax(I.kind(a), I.kind(b))
    if not is_z(n) and not is_z(m):
        x, y = I.items(a), I.items(b)
        out = [lift(0).to(k) for _ in range(n + m - 1)]
        for i in range(n):
            for j in range(m):
                out[i + j] = out[i + j] + x[i] * y[j]
        return I.dense(out, (n + m - 1,), k)
    f, g = I.snap(a), I.snap(b)
    zero = lift(0).to(k)
    if is_z(m):
        f, g, n, m = g, f, m, n
    # sum over the shorter (second) operand
    I.ctx.oblige("convolve-nonempty", b_and(r_lt(0, n), r_lt(0, m)))

    def h(i):
        def term(j):
            p = r_sub(i, j)
            return num_ite(b_and(r_le(0, p), r_lt(p, n)), f(p) * g(j), zero)

        return T.num_sum(m, term, k)

    return I.new((r_sub(r_add(n, m), 1),), k, h)


# ---------------------------------------------- operators left uninterpreted
def cseq(n, f):
    return T.seq([n], lambda j: [zr(f(j).to("c").re), zr(f(j).to("c").im)])


def rseq(n, f):
    return T.seq([n], lambda j: [zr(f(j).re)])


F_FFT = (uf("fft_re", SEQ, INT, REAL), uf("fft_im", SEQ, INT, REAL))
F_IFFT = (uf("ifft_re", SEQ, INT, REAL), uf("ifft_im", SEQ, INT, REAL))
F_HIL = (uf("hilbert_re", SEQ, INT, REAL), uf("hilbert_im", SEQ, INT, REAL))


def spectrum_op(decls, n, f):
    s = cseq(n, f)
    return lambda i: Num("c", decls[0](s, zi(i)), decls[1](s, zi(i)))


@fn("numpy.fft.fft", "scipy.fft.fft")
def _fft(I, a):
    a = as_arr(I, a)
    (n,) = I.shape(a)
    I.ctx.oblige("fft-nonempty", r_lt(0, n))
    I.ctx.trust("numpy.fft.fft", "the discrete Fourier transform: a function of the sequence, linear, inverted by ifft")
    return I.new((n,), "c", spectrum_op(F_FFT, n, I.snap(a)))


@fn("numpy.fft.ifft", "scipy.fft.ifft")
def _ifft(I, a):
    a = as_arr(I, a)
    (n,) = I.shape(a)
    I.ctx.oblige("fft-nonempty", r_lt(0, n))
    I.ctx.trust("numpy.fft.ifft", "inverse of fft")
    return I.new((n,), "c", spectrum_op(F_IFFT, n, I.snap(a)))


@fn("scipy.signal.hilbert")
def _hilbert(I, a):
    a = as_arr(I, a)
    (n,) = I.shape(a)
    I.ctx.trust("scipy.signal.hilbert", "analytic signal of a real sequence: a function of the sequence")
    if I.kind(a) == "c":
        I.ctx.oblige("hilbert-real", False)
    return I.new((n,), "c", spectrum_op(F_HIL, n, I.snap(a)))


F_ASORT = uf("argsort", SEQ, INT, INT)


def argsort_fn(n, f):
    s = rseq(n, f)
    return lambda i: Num("i", F_ASORT(s, zi(i)))


@T.schema("argsort")
def _ax_argsort(a, s, i):
    dims, _ = T.seq_inst(s)
    return [z3.Implies(z3.And(0 <= i, i < dims[0]), z3.And(0 <= a, a < dims[0]))]


@T.pair_schema("argsort")
def _ax_argsort2(a, b):
    if not a.arg(0).eq(b.arg(0)):
        return []
    dims, elem = T.seq_inst(a.arg(0))
    i, j = a.arg(1), b.arg(1)
    inb = z3.And(0 <= i, i < dims[0], 0 <= j, j < dims[0])
    ea, eb = elem(a)[0], elem(b)[0]
    return [z3.Implies(z3.And(inb, i < j), z3.And(a != b, ea <= eb)), z3.Implies(z3.And(inb, j < i), z3.And(a != b, eb <= ea))]


@fn("numpy.argsort")
@meth("argsort")
def _argsort(I, a, axis=None, kind=None):
    a = as_arr(I, a)
    sh = I.shape(a)
    if I.kind(a) == "c":
        raise Unsupported("complex argsort")
    f = I.snap(a)
    I.ctx.trust("numpy.argsort", "a permutation of indices that sorts the sequence, and a function of the sequence")
    if len(sh) == 1:
        g = argsort_fn(sh[0], f)
        return I.new(sh, "i", g)
    if axis is not None and int(axis.re) not in (1, -1):
        raise Unsupported("argsort axis")
    return I.new(sh, "i", lambda r, i: argsort_fn(sh[1], lambda j: f(r, j))(i))


@fn("numpy.sort")
def _sort(I, a, axis=None):
    a = as_arr(I, a)
    (n,) = I.shape(a)
    if I.kind(a) == "c":
        raise Unsupported("complex sort")
    f = I.snap(a)
    p = argsort_fn(n, f)
    return I.new((n,), I.kind(a), lambda i: f(p(i).re))


def gather(I, v, ix):
    """Advanced indexing by an integer array or a mask."""
    if isinstance(ix, tuple):
        if len(ix) == 1:
            ix = ix[0]
        else:
            raise Unsupported("advanced index tuple")
    ix = as_arr(I, ix)
    sh = I.shape(v)
    f = I.snap(v)
    if I.kind(ix) == "b":
        nz = nonzero(I, ix)
        ix = nz
    if len(I.shape(ix)) != 1:
        raise Unsupported("index matrix")
    (m,) = I.shape(ix)
    g = I.snap(ix)
    w = T.fresh_int("w")
    p = g(w).re
    if I.kind(ix) != "i":
        I.ctx.oblige("integer-index", False)
    I.ctx.oblige("gather-in-bounds", b_implies(b_and(r_le(0, w), r_lt(w, m)), b_and(r_le(0, p), r_lt(p, sh[0]))), assume=False)
    return I.new((m, *sh[1:]), I.kind(v), lambda i, *jx: f(g(i).re, *jx))


def scatter(I, v, ix, val):
    if isinstance(ix, tuple):
        raise Unsupported("scatter")
    ix = as_arr(I, ix)
    if I.kind(ix) != "b" or not isinstance(val, Num):
        raise Unsupported("scatter of an index array")
    (n,) = I.shape(ix)
    I.ctx.oblige("mask-shape", r_eq(n, I.shape(v)[0]))
    mask = I.snap(ix)
    cell = I.cell(v)
    if cell.frozen:
        raise Unsupported("write through a derived view")
    x = I.lossless(val, cell.k)
    if v.view != full_view(cell.shape):
        raise Unsupported("masked store through a view")
    old = cell.fn
    I.heap.cells[v.ref] = Cell(cell.shape, cell.k, lambda i, *jx: num_ite(mask(i).re, x, old(i, *jx)))


F_NZ = uf("nonzero", SEQ, INT, INT)
F_NZN = uf("nonzero_n", SEQ, INT)
F_NZI = uf("nonzero_at", SEQ, INT, INT)


def nonzero(I, a):
    (n,) = I.shape(a)
    f = I.snap(a)
    s = T.seq([n], lambda j: [z3.If(zb(f(j).to("b").re), z3.RealVal(1), z3.RealVal(0))])
    I.ctx.trust("numpy.where", "indices of the true elements, in increasing order")
    m = F_NZN(s)
    I.ctx.assume(z3.And(m >= 0, m <= zi(n)))
    return I.new((m,), "i", lambda i: Num("i", F_NZ(s, zi(i))))


@T.schema("nonzero")
def _ax_nz(a, s, i):
    dims, elem = T.seq_inst(s)
    return [z3.Implies(z3.And(0 <= i, i < F_NZN(s)), z3.And(0 <= a, a < dims[0], elem(a)[0] == 1))]


@T.schema("nonzero_n")
def _ax_nzn(a, s):
    out = [a >= 0, z3.Implies(a > 0, F_NZ(s, z3.IntVal(0)) == F_NZ(s, z3.IntVal(0)))]
    # a true element has a place: instantiated where an element equals a distinct element of a sequence
    dims, elem = T.seq_inst(s)
    for u in T.apps(elem(z3.Int("!w"))).get("unique", []):
        j = F_UNIQW(*u.children())
        p = F_NZI(s, j)
        out.append(z3.Implies(z3.And(0 <= j, j < dims[0], elem(j)[0] == 1), z3.And(0 <= p, p < a, F_NZ(s, p) == j)))
    return out


@fn("numpy.where", "numpy.nonzero", "numpy.flatnonzero")
def _where(I, c, a=None, b=None):
    if a is not None:
        return ezip(I, lambda x, y, z: num_ite(x.to("b").re, y, z), c, a, b)
    return (nonzero(I, as_arr(I, c)),)


fn("numpy.flatnonzero")(lambda I, c: nonzero(I, as_arr(I, c)))


F_POLYVAL = (uf("polyval_re", SEQ, REAL, REAL, REAL), uf("polyval_im", SEQ, REAL, REAL, REAL))


@fn("numpy.polyval")
def _polyval(I, p, x):
    p = as_arr(I, p)
    (n,) = I.shape(p)
    f = I.snap(p)

    def val(x):
        if not is_z(n) and n <= 40:
            r = lift(0).to(T.kmax(I.kind(p), x.k))
            for i in range(n):
                r = r * x + f(i)
            return r
        s = cseq(n, f)
        c = x.to("c")
        k = T.kmax(I.kind(p), x.k)
        re = F_POLYVAL[0](s, T.canon(zr(c.re)), T.canon(zr(c.im)))
        im = F_POLYVAL[1](s, T.canon(zr(c.re)), T.canon(zr(c.im)))
        return Num("c", re, im) if k == "c" else Num("f", re)

    if is_z(n):
        I.ctx.trust("numpy.polyval", "the value of the polynomial with the given coefficients: a function of coefficients and point")
    return emap(I, val, x) if isinstance(x, Arr) else val(I.num(x))


F_ROOTS = (uf("roots_re", SEQ, INT, REAL), uf("roots_im", SEQ, INT, REAL))
F_ROOTS_N = uf("roots_n", SEQ, INT)


@fn("numpy.roots")
def _roots(I, p):
    p = as_arr(I, p)
    (n,) = I.shape(p)
    f = I.snap(p)
    if not is_z(n) and n <= 1:
        return I.new((0,), "f", lambda i: lift(Fraction(0)))
    I.ctx.trust("numpy.roots", "the roots of the polynomial: a function of the coefficients")
    s = cseq(n, f)
    return I.new((F_ROOTS_N(s),), "c", lambda i: Num("c", F_ROOTS[0](s, zi(i)), F_ROOTS[1](s, zi(i))))


@T.schema("roots_n")
def _ax_rootsn(a, s):
    dims, elem = T.seq_inst(s)
    z = z3.IntVal(0)
    l = dims[0] - 1
    first = z3.Or(elem(z)[0] != 0, elem(z)[1] != 0)
    last = z3.Or(elem(l)[0] != 0, elem(l)[1] != 0)
    return [a >= 0, z3.Implies(dims[0] > 0, a <= dims[0] - 1), z3.Implies(z3.And(dims[0] > 0, first, last), a == dims[0] - 1)]


F_POLY = (uf("poly_re", SEQ, INT, REAL), uf("poly_im", SEQ, INT, REAL))


@fn("numpy.poly")
def _poly(I, r):
    r = as_arr(I, r)
    (n,) = I.shape(r)
    f = I.snap(r)
    I.ctx.trust("numpy.poly", "monic polynomial with the given roots: n + 1 coefficients, the first 1")
    if not is_z(n) and n <= 8:
        k = T.kmax(I.kind(r), "f")
        a = [lift(Fraction(1)).to(k)]
        for i in range(n):
            b = a + [lift(Fraction(0)).to(k)]
            for j in range(len(a)):
                b[j + 1] = b[j + 1] - a[j] * f(i)
            a = b
        return I.dense(a, (n + 1,), k)
    s = cseq(n, f)
    k = T.kmax(I.kind(r), "f")
    return I.new((r_add(n, 1),), k, lambda i: Num("c", F_POLY[0](s, zi(i)), F_POLY[1](s, zi(i))) if k == "c" else Num("f", F_POLY[0](s, zi(i))))


@T.schema("poly_re")
def _ax_poly(a, s, i):
    return [z3.Implies(i == 0, a == 1)]


@T.schema("poly_im")
def _ax_polyi(a, s, i):
    return [z3.Implies(i == 0, a == 0)]


F_RES = {n: (uf(f"residue_{n}_re", SEQ, SEQ, INT, REAL), uf(f"residue_{n}_im", SEQ, SEQ, INT, REAL)) for n in "rp"}
F_RES_N = uf("residue_n", SEQ, SEQ, INT)


@T.schema("residue_n")
def _ax_residue(a, b, s):
    return [a >= 0]


@fn("scipy.signal.residue")
def _residue(I, b, a):
    b, a = as_arr(I, b), as_arr(I, a)
    I.ctx.trust("scipy.signal.residue", "the residues and poles of the partial fraction expansion: as many of one as of the other, functions of the coefficients")
    s, t = [cseq(I.shape(x)[0], I.snap(x)) for x in (b, a)]
    n = F_RES_N(s, t)
    r, p = [I.new((n,), "c", lambda i, f=F_RES[k]: Num("c", f[0](s, t, zi(i)), f[1](s, t, zi(i)))) for k in "rp"]
    return r, p, I.new((1,), "c", lambda i: Num("c", uf("residue_k_re", SEQ, SEQ, INT, REAL)(s, t, zi(i)), uf("residue_k_im", SEQ, SEQ, INT, REAL)(s, t, zi(i))))


F_INTERP = uf("interp", SEQ, SEQ, REAL, REAL)


@fn("numpy.interp")
def _interp(I, x, xp, fp):
    xp, fp = as_arr(I, xp), as_arr(I, fp)
    (n,) = I.shape(xp)
    I.ctx.oblige("interp-shape", r_eq(n, I.shape(fp)[0]))
    I.ctx.oblige("interp-nonempty", r_lt(0, n))
    u, v = I.snap(xp), I.snap(fp)
    w = T.fresh_int("w")
    I.ctx.oblige("interp-increasing", b_implies(b_and(r_le(0, w), r_lt(r_add(w, 1), n)), r_lt(u(w).re, u(r_add(w, 1)).re)), assume=False)
    I.ctx.trust("numpy.interp", "piecewise linear interpolation, clamped at the ends")
    s, t = rseq(n, lambda j: u(j).to("f")), rseq(n, lambda j: v(j).to("f"))
    g = lambda p: Num("f", F_INTERP(s, t, zr(p.re)))  # noqa
    return emap(I, g, x, k="f") if isinstance(x, Arr) else g(I.num(x))


@T.schema("interp")
def _ax_interp(a, s, t, p):
    """On unit spaced knots u(j) = u(0) + j: linear between the neighbours of p."""
    dims, u = T.seq_inst(s)
    _, v = T.seq_inst(t)
    n = dims[0]
    i = z3.ToInt(p - u(z3.IntVal(0))[0])
    ui, uj = u(i)[0], u(i + 1)[0]
    vi, vj = v(i)[0], v(i + 1)[0]
    z, l = z3.IntVal(0), n - 1
    return [
        z3.Implies(z3.And(0 <= i, i < n - 1, ui <= p, p <= uj, uj > ui), (a - vi) * (uj - ui) == (vj - vi) * (p - ui)),
        z3.Implies(p >= u(l)[0], a == v(l)[0]),
        z3.Implies(p <= u(z)[0], a == v(z)[0]),
    ]


@fn("numpy.polyfit")
def _polyfit(I, x, y, deg):
    x, y = as_arr(I, x), as_arr(I, y)
    if not I.concrete_shape(x) or len(I.shape(y)) != 1 or not deg.conc:
        raise Unsupported("polyfit")
    xs, d = I.items(x), int(deg.re)
    I.ctx.oblige("polyfit-length", r_eq(I.shape(y)[0], len(xs)))
    f = I.snap(y)
    ys = [f(i) for i in range(len(xs))]
    if not all(v.conc for v in xs):
        raise Unsupported("polyfit knots")
    I.ctx.trust("numpy.polyfit", "the least squares polynomial, unique when the degree is below the number of distinct knots")
    n = len(xs)
    if d >= n:
        raise Unsupported("polyfit degree not below the number of knots")
    # exact normal equations over the rationals: c = (A'A)^-1 A' y
    import sympy

    A = sympy.Matrix([[sympy.Rational(Fraction(v.re).numerator, Fraction(v.re).denominator) ** (d - j) for j in range(d + 1)] for v in xs])
    P = (A.T * A).inv() * A.T
    out = []
    for j in range(d + 1):
        r = lift(Fraction(0))
        for i in range(n):
            q = P[j, i]
            if q != 0:
                r = r + lift(Fraction(int(q.p), int(q.q))) * ys[i]
        out.append(r.to("f") if r.k != "c" else r)
    return I.dense(out, (d + 1,))


# -------------------------------------------------------------- attributes
def getattr_arr(I, a, name):
    sh = I.shape(a)
    if name == "shape":
        return tuple(lift(d) for d in sh)
    if name == "size":
        n = 1
        for d in sh:
            n = r_mul(n, d)
        return lift(n)
    if name == "ndim":
        return lift(len(sh))
    if name == "dtype":
        return Opaque("dtype", None, {"k": I.kind(a)})
    f = I.snap(a)
    if name == "T":
        if len(sh) < 2:
            return a
        return I.derived(a, tuple(reversed(sh)), I.kind(a), lambda f: lambda *ix: f(*reversed(ix)))
    if name == "real":
        if I.kind(a) != "c":
            return a
        back = lambda g, c: lambda *ix: Num("c", g(*ix).re, c.fn(*ix).im)  # noqa
        return I.derived(a, sh, "f", lambda f: lambda *ix: Num("f", f(*ix).re), back)
    if name == "imag":
        if I.kind(a) != "c":
            return I.new(sh, "f", lambda *ix: lift(Fraction(0)), frozen=True)
        back = lambda g, c: lambda *ix: Num("c", c.fn(*ix).re, g(*ix).re)  # noqa
        return I.derived(a, sh, "f", lambda f: lambda *ix: Num("f", f(*ix).im), back)
    return None


def getattr(I, v, name):
    if isinstance(v, Arr):
        r = getattr_arr(I, v, name)
        if r is not None:
            return r
        if name in METHODS:
            return LibMethod(v, name)
        raise Unsupported(f"array attribute {name}")
    if isinstance(v, Num):
        if name == "real":
            return Num("f", v.re) if v.k == "c" else v
        if name == "imag":
            return Num("f", v.im) if v.k == "c" else lift(0).to(v.k)
        if name == "dtype":
            return Opaque("dtype", None, {"k": v.k})
        if name in ("conjugate", "conj", "item", "astype", "any", "all"):
            return LibMethod(v, name)
        if _b.hasattr("", name) and not _b.hasattr(0.0, name):
            raise PyExc("AttributeError")
    if isinstance(v, Opaque):
        if v.tag == "dtype":
            if name == "type":
                return LibFn(KTYPE[v.info["k"]])
            if name == "kind":
                return v.info["k"]
        if v.tag == "finfo":
            if name == "eps":
                return Num("f", T.EPS)
            if name == "max":
                return Num("f", T.FMAX)
        if v.tag.startswith("exctype:") and name == "__name__":
            return Opaque("str", None)
        if v.tag == "traceback" and name == "tb_next":
            return effects.traceback(v.info["depth"] - 1)
        if ("attr:" + name) in v.info:
            return v.info["attr:" + name]
        return LibMethod(v, name)
    if isinstance(v, Obj):
        rec = I.heap.objs[v.oid]
        if name in rec.fields:
            return rec.fields[name]
        return LibMethod(v, name)
    if isinstance(v, (str, bytes, ListRef, DictRef, SetVal, tuple, SymSeq)):
        return LibMethod(v, name)
    if isinstance(v, LibFn):
        full = f"{v.name}.{name}"
        return LibFn(full)
    raise Unsupported(f"attribute {name} of {type(v).__name__}")


OBJ_METHODS = {}


def method(I, recv, name, args, kw):
    if isinstance(recv, (str, bytes)):
        if name == "join":
            return OBJ_METHODS["str", "join"](I, recv, *args)
        if all(isinstance(a, (str, int)) for a in args) and not kw:
            r = getattr_py(recv, name)(*args)
            if isinstance(r, (str, bytes)):
                return r
            if isinstance(r, bool) or isinstance(r, int):
                return lift(r)
            if isinstance(r, list):
                return I.heap.new_list(r)
        raise Unsupported(f"string method {name}")
    if isinstance(recv, ListRef):
        x = I.heap.lists[recv.ref]
        if name == "append":
            if isinstance(x, list):
                I.heap.lists[recv.ref] = x + [args[0]]
            else:
                f, n, v = x.fn, x.n, args[0]
                if not isinstance(v, Num):
                    I.heap.lists[recv.ref] = Appended(x, v, lambda i: v if I.ctx.branch(r_eq(i, n)) else f(i))
                else:
                    I.heap.lists[recv.ref] = SymSeq(r_add(n, 1), lambda i: num_ite(r_eq(i, n), v, f(i)))
            return None
        if name == "extend" and isinstance(x, list):
            it = I.iterate(args[0])
            if not is_z(it.n):
                I.heap.lists[recv.ref] = x + [it.at(i) for i in range(int(it.n))]
                return None
        if name == "index" and isinstance(x, list):
            for i, y in enumerate(x):
                if I.ctx.branch(I.equal(y, args[0])):
                    return lift(i)
            raise PyExc("ValueError")
        if name == "clear":
            I.heap.lists[recv.ref] = []
            return None
        if name == "copy":
            return _copy(I, recv)
        raise Unsupported(f"list method {name}")
    if isinstance(recv, DictRef):
        d = I.heap.dicts[recv.ref]
        if name == "keys":
            return tuple(I.unkey(k) for k in d)
        if name == "values":
            return tuple(d.values())
        if name == "items":
            return tuple((I.unkey(k), v) for k, v in d.items())
        if name == "get":
            k = I.key(args[0])
            return d.get(k, args[1] if len(args) > 1 else None)
        if name == "copy":
            return _copy(I, recv)
        raise Unsupported(f"dict method {name}")
    if isinstance(recv, (Arr, Num)):
        return METHODS[name](I, recv, *args, **kw)
    if isinstance(recv, Opaque):
        f = OBJ_METHODS.get((recv.tag, name))
        if f is not None:
            return f(I, recv, *args, **kw)
        raise Unsupported(f"method {recv.tag}.{name}")
    if isinstance(recv, Obj):
        f = OBJ_METHODS.get((I.heap.objs[recv.oid].cls, name))
        if f is not None:
            return f(I, recv, *args, **kw)
        raise Unsupported(f"method {I.heap.objs[recv.oid].cls}.{name}")
    raise Unsupported(f"method {name}")


import builtins as _b  # noqa


def getattr_py(o, n):
    return _b.getattr(o, n)


def iterate(I, v):
    return None


def index(I, v, ix):
    if isinstance(v, Num):
        raise PyExc("TypeError")
    raise Unsupported(f"subscript of {type(v).__name__}")


@fn("sorted")
def _sorted(I, v, key=None, reverse=None):
    if isinstance(v, SetVal) and v.items is None:
        return sorted_unique(I, v.of)
    it = I.iterate(v)
    if is_z(it.n):
        raise Unsupported("sorted of symbolic length")
    xs = [it.at(i) for i in range(int(it.n))]
    if _b.all(isinstance(x, str) for x in xs) or _b.all(isinstance(x, Num) and x.conc for x in xs):
        xs = _b.sorted(xs, key=lambda x: x.re if isinstance(x, Num) else x)
        return I.heap.new_list(xs)
    raise Unsupported("sorted")


F_UNIQ = uf("unique", SEQ, INT, INT)
F_UNIQN = uf("unique_n", SEQ, INT)
F_UNIQW = uf("unique_w", SEQ, INT, INT)


def sorted_unique(I, a):
    """Distinct elements of an integer array in increasing order."""
    n, f = flat(I, a)
    p = f(T.bound_int())
    if p.k != "i":
        raise Unsupported("unique of non integers")
    s = T.seq([n], lambda j: [zr(f(j).re)])
    m = F_UNIQN(s)
    I.ctx.trust("sorted(set(y))", "the distinct elements in increasing order")
    I.ctx.assume(z3.And(m >= 0, m <= zi(n), z3.Implies(zi(n) > 0, m > 0)))
    return I.heap.new_list(SymSeq(m, lambda i: Num("i", F_UNIQ(s, zi(i)))))


@fn("numpy.unique")
def _unique(I, a):
    r = sorted_unique(I, a)
    return _array(I, r)


@T.schema("unique")
def _ax_uniq(a, s, i):
    dims, elem = T.seq_inst(s)
    w = F_UNIQW(s, i)
    return [z3.Implies(z3.And(0 <= i, i < F_UNIQN(s)), z3.And(0 <= w, w < dims[0], elem(w)[0] == z3.ToReal(a)))]


@T.pair_schema("unique")
def _ax_uniq2(a, b):
    if not a.arg(0).eq(b.arg(0)):
        return []
    i, j = a.arg(1), b.arg(1)
    return [z3.Implies(z3.And(0 <= i, i < j, j < F_UNIQN(a.arg(0))), a < b), z3.Implies(z3.And(0 <= j, j < i, i < F_UNIQN(a.arg(0))), b < a)]


# ------------------------------------------------------------ opaque values
def op_apply(name, *args, tag="val", info=None):
    """Opaque result of a library function: an uninterpreted function of its arguments."""
    ts = []
    for a in args:
        ts.append(val_term(a))
    f = uf("op:" + name, *[VAL for _ in ts], VAL)
    return Opaque(tag, f(*ts), info)


def val_term(a):
    if isinstance(a, Opaque):
        if a.term is None:
            raise Unsupported(f"opaque value {a.tag} without a term")
        return a.term
    if isinstance(a, (str, bytes)):
        from .effects import literal_term

        return literal_term(a)
    if a is None:
        return z3.Const("None", VAL)
    if isinstance(a, Num):
        if a.k in "bi":
            return uf("val_int", INT, VAL)(zi(a.re))
        return uf("val_real", REAL, REAL, VAL)(zr(a.re), zr(a.im))
    raise Unsupported(f"term of {type(a).__name__}")


def opaque_eq(I, a, b):
    if a is None or b is None:
        x = b if a is None else a
        if isinstance(x, Opaque) and "none" in x.info:
            return x.info["none"]
        return False
    return val_term(a) == val_term(b)


def opaque_binop(I, op, a, b):
    if isinstance(a, str) and isinstance(b, str) and isinstance(op, ast.Add):
        return a + b
    if isinstance(a, str) and isinstance(op, ast.Mod):
        return Opaque("str", None)
    if isinstance(op, ast.Add) and _b.all(isinstance(x, str) or isinstance(x, Opaque) and x.tag == "str" for x in (a, b)):
        from .effects import concat

        return concat([a, b])
    raise Unsupported("operator on opaque values")


def fstring(I, parts):
    if _b.all(isinstance(p, str) or isinstance(p, Opaque) and p.tag == "str" for p in parts):
        from .effects import concat

        return concat(parts)
    return Opaque("str", None)


# ---------------------------------------------------------------- contexts
CONTEXTS = {}


def context(I, v):
    if isinstance(v, Opaque):
        c = CONTEXTS.get(v.tag)
        if c is not None:
            return c(I, v)
        if v.tag == "nullcontext":
            return (lambda: v), (lambda ex: False)
    if isinstance(v, Obj):
        c = CONTEXTS.get(I.heap.objs[v.oid].cls)
        if c is not None:
            return c(I, v)
    raise Unsupported(f"context manager {v}")


@fn("warnings.catch_warnings")
def _cw(I, *a, **k):
    return Opaque("nullcontext")


@fn("warnings.simplefilter", "warnings.filterwarnings", "warnings.warn")
def _sf(I, *a, **k):
    return None


@fn("contextlib.suppress")
def _suppress(I, *excs):
    return Opaque("suppress", None, {"names": [I.exc_name(e) for e in excs]})


CONTEXTS["suppress"] = lambda I, v: ((lambda: None), (lambda ex: ex is not None and any(exc_is(ex.name, n) for n in v.info["names"])))
any = _b.any


# ------------------------------------------------------------ scipy.signal
F_WIN = uf("window", VAL, INT, INT, REAL)


@fn("scipy.signal.get_window", "scipy.signal.windows.get_window")
def _get_window(I, window, nx, fftbins=None):
    n = I.num(nx).to("i").re
    I.ctx.oblige("window-length", r_le(1, n))
    I.ctx.trust("scipy.signal.get_window", "n real samples, a function of the window name, length and symmetry flag; symmetric windows of the four styles have a positive sum of magnitudes")
    name = window_term(window)
    sym = "sym" if fftbins is not None and not I.truth(fftbins) else "per"
    f = uf("window_" + sym, VAL, INT, INT, REAL)
    return I.new((n,), "f", lambda i: Num("f", f(name, zi(n), zi(i))))


def window_term(w):
    if isinstance(w, tuple):
        return uf("pair", VAL, VAL, VAL)(val_term(w[0]), val_term(w[1]))
    return val_term(w)


F_FIRWIN = uf("firwin", VAL, INT, REAL, INT, REAL)


@fn("scipy.signal.firwin")
def _firwin(I, numtaps, cutoff, width=None, window="hamming", pass_zero=lift(True), scale=lift(True), fs=lift(2)):
    n = I.num(numtaps).to("i").re
    c = I.num(cutoff)
    I.ctx.oblige("firwin-length", r_le(1, n))
    I.ctx.oblige("firwin-cutoff", b_and(r_lt(0, c.re), r_lt(r_mul(2, c.re), I.num(fs).to("f").re)))
    if width is not None:
        raise Unsupported("firwin width")
    ok = I.truth(scale) is True and I.truth(pass_zero) is True
    I.ctx.trust("scipy.signal.firwin", "numtaps real taps, symmetric; with scale and pass_zero their sum is 1")
    s = window_term(window)
    f = lambda i: Num("f", F_FIRWIN(s, zi(n), zr(c.re), zi(i)))  # noqa
    a = I.new((n,), "f", f)
    if ok:
        I.ctx.assume(r_eq(T.num_sum(n, f, "f").re, 1))
    return a


F_FREQ = (uf("freq_re", SEQ, SEQ, REAL, REAL), uf("freq_im", SEQ, SEQ, REAL, REAL))
F_GDELAY = uf("group_delay", SEQ, SEQ, REAL, REAL)


def _periodic(a, b):
    """Functions of a frequency normalized to Nyquist have period 2."""
    if not (a.arg(0).eq(b.arg(0)) and a.arg(1).eq(b.arg(1))):
        return []
    p, q = a.arg(2), b.arg(2)
    return [z3.Implies(z3.Or(p == q, p == q + 2, p == q - 2), a == b)]


for _n in ("freq_re", "freq_im", "group_delay"):
    T.pair_schema(_n)(_periodic)


def coefficient_seq(I, a):
    """Coefficients without trailing concrete zeros, which change no response."""
    (n,) = I.shape(a)
    f = I.snap(a)
    while not is_z(n) and n > 1 and f(n - 1).conc and f(n - 1).re == 0 and f(n - 1).im == 0:
        n -= 1
    return cseq(n, f)


def freq_points(I, worN, whole):
    n = I.num(worN).to("i").re
    w = Fraction(2) if I.truth(whole) is True else Fraction(1)
    f = lambda i: r_div(r_mul(w, zr(i)), zr(n))  # noqa
    return n, f, I.new((n,), "f", lambda i: Num("f", r_mul(T.PI, f(i))))


@fn("scipy.signal.freqz")
def _freqz(I, b, a=lift(1), worN=lift(512), whole=lift(False)):
    b, a = as_arr1(I, b), as_arr1(I, a)
    I.ctx.trust("scipy.signal.freqz", "H(b, a, f) at n equally spaced points of the circle; a function of coefficients and frequency, of period 2")
    s, t = coefficient_seq(I, b), coefficient_seq(I, a)
    n, f, w = freq_points(I, worN, whole)
    return (w, I.new((n,), "c", lambda i: freq_response(s, t, f(i))))


def freq_response(s, t, f):
    return Num("c", F_FREQ[0](s, t, zr(f)), F_FREQ[1](s, t, zr(f)))


def as_arr1(I, v):
    return I.dense([v], (1,), v.k) if isinstance(v, Num) else as_arr(I, v)


@fn("scipy.signal.group_delay")
def _group_delay(I, system, w=lift(512), whole=lift(False)):
    b, a = [as_arr1(I, x) for x in (system if isinstance(system, tuple) else tuple(I.heap.lists[system.ref]))]
    I.ctx.trust("scipy.signal.group_delay", "group delay of b, a at n equally spaced points of the circle; a function of coefficients and frequency, of period 2")
    s, t = coefficient_seq(I, b), coefficient_seq(I, a)
    n, f, wv = freq_points(I, w, whole)
    return (wv, I.new((n,), "f", lambda i: Num("f", F_GDELAY(s, t, zr(f(i))))))


@fn("scipy.signal.lfilter")
def _lfilter(I, b, a, x, zi=None):
    raise Unsupported("scipy.signal.lfilter")


from . import effects  # noqa: E402,F401
