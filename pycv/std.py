"""Helpers for writing contracts: symbolic arguments and spec arrays."""

import ast

import z3

from . import terms as T
from .contract import ANY, Contract, Where  # noqa
from .heap import Arr, ListRef, Obj, Opaque, SymSeq, dense_fn
from .interp import LibFn  # noqa
from .loops import ArrForm, LoopSpec, Pred, SeqForm  # noqa
from .terms import (  # noqa
    AxiomOptions, Num, RecFn, Unsupported, b_and, b_implies, b_not, b_or, is_z, lift, num_eq_formula, num_ite,
    r_add, r_eq, r_ite, r_le, r_lt, r_mul, r_sub, zb, zi, zr,
)

I_, R_, B_ = T.INT, T.REAL, z3.BoolSort()


def fname(I, cls, name):
    """Private field behind a public property: the name in `return self.X`."""
    c = I.prog.classes[cls]
    p = I.prog.find(c, name, "props")
    if p is not None:
        body = [s for s in p.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        for s in body:
            if isinstance(s, ast.Return) and isinstance(s.value, ast.Attribute) and isinstance(s.value.value, ast.Name) and s.value.value.id == "self":
                return s.value.attr
    return "_" + name


def sym_num(name, k="f"):
    if k == "c":
        return Num("c", z3.Real(name + ".re"), z3.Real(name + ".im"))
    s = {"f": T.REAL, "i": T.INT, "b": B_}[k]
    return Num(k, z3.Const(name, s))


def sym_fn(name, k, rank):
    ds = [T.INT] * rank
    if k == "c":
        f, g = z3.Function(name + ".re", *ds, T.REAL), z3.Function(name + ".im", *ds, T.REAL)
        return lambda *ix: Num("c", f(*[zi(i) for i in ix]), g(*[zi(i) for i in ix]))
    s = {"f": T.REAL, "i": T.INT, "b": B_}[k]
    f = z3.Function(name, *ds, s)
    return lambda *ix: Num(k, f(*[zi(i) for i in ix]))


def sym_arr(I, name, shape, k="f"):
    shape = tuple(shape)
    return I.heap.new_cell(shape, k, sym_fn(name, k, len(shape)))


def sym_obj(I, cls, fields):
    o = I.heap.new_obj(cls)
    I.prog.classes[cls]
    for n, v in fields.items():
        I.heap.objs[o.oid].fields[fname(I, cls, n)] = v
    return o


def get(I, o, name):
    """Field of an object by public name."""
    rec = I.heap.objs[o.oid]
    return rec.fields[fname(I, rec.cls, name)]


def put(I, o, name, v):
    rec = I.heap.objs[o.oid]
    rec.fields[fname(I, rec.cls, name)] = v


def set_cell(I, arr, fn, shape=None, k=None):
    """Contents of a whole array after the call."""
    from .heap import Cell

    c = I.heap.cells[arr.ref]
    I.heap.cells[arr.ref] = Cell(shape or c.shape, k or c.k, fn)


def length(I, a):
    return I.shape(a)[0]


def raise_(name):
    from .ctx import PyExc

    raise PyExc(name)


def arg_seq(I, v):
    """(length, element function, kind, rank) of an incident signal argument."""
    if isinstance(v, Arr):
        sh = I.shape(v)
        return sh[0], I.snap(v), I.kind(v), len(sh)
    x = I.heap.lists[v.ref] if isinstance(v, ListRef) else v
    if isinstance(x, (list, tuple)):
        k = "i"
        for e in x:
            k = T.kmax(k, e.k)
        x = list(x) or [lift(0)]
        if v is not None and not (I.heap.lists[v.ref] if isinstance(v, ListRef) else v):
            return 0, (lambda i: lift(0)), "i", 1
        return len(x), (lambda i: I.select([e.to(k) for e in x], i) if is_z(i) else x[i].to(k)), k, 1
    return x.n, x.fn, x.fn(T.bound_int()).k, 1


def sym_list(I, name, n, k="f"):
    return I.heap.new_list(SymSeq(n, sym_fn(name, k, 1)))


def signal(I, name, n, k, form="array"):
    return sym_arr(I, name, (n,), k) if form == "array" else sym_list(I, name, n, k)


def reify(n, fn, kind):
    """Sequence term of Num elements fn(i), i < n."""
    if kind == "c":
        return T.seq([n], lambda i: [zr(fn(i).to("c").re), zr(fn(i).to("c").im)])
    return T.seq([n], lambda i: [zr(fn(i).to("f").re)])


def seq_num(s):
    """Element function of a reified one dimensional sequence."""
    _, e = T.seq_inst(s)

    def fn(i):
        c = e(i)
        return Num("f", c[0]) if len(c) == 1 else Num("c", c[0], c[1])

    return fn


def raw_sum(n, fn):
    """(term, fact): a sum with its element kept as written, and its linear form."""
    j = T.bound_int()
    e = zr(fn(j))
    t = T.F_SUM(T.seq_of([n], [j], [z3.simplify(e)]))
    return t, t == zr(T.sum_of(n, j, e))


def constrained(I, make, check):
    """A result the contract determines only up to check: a predicate when the body is
    verified, an arbitrary value satisfying it at a call site."""
    if getattr(I, "impl", None) is not None:
        return Where(check)
    v = make()
    for _, f in check(I, I.heap, v):
        I.ctx.assume(zb(f))
    return v


def vec(I, h, a, k="f"):
    """(length, element function) of a one dimensional array value in a heap, or None."""
    from .heap import view_index, view_shape

    if not isinstance(a, Arr):
        return None
    c = h.cells[a.ref]
    sh = view_shape(a.view)
    if len(sh) != 1 or c.k != k:
        return None
    return sh[0], (lambda i: c.fn(*view_index(a.view, (i,))))


def vsum(n, fn, k="f"):
    return T.num_sum(n, fn, k)
