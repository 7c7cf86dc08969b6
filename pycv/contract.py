"""Contracts: preconditions, and a specification transformer used both to verify
the body of a function and, at its call sites, in place of the body."""

import time

import z3

from . import terms as T
from .ctx import Ctx, Infeasible, PathDone, PyExc
from .heap import *  # noqa
from .heap import Arr, Cell, DictRef, ListRef, Obj, Opaque, SymSeq, full_view, view_index, view_shape
from .interp import Bound, ClassVal, FuncVal, Interp, LibFn, Program
from .terms import Num, Unsupported, b_and, b_implies, fold, is_z, lift, num_eq_formula, r_eq, r_le, r_lt, zb, zi, zr


class Contract:
    qual = None  # "Class.method"
    modulename = None
    opt = None
    inline = False
    parametric = False  # sequences are functions of the loop counters and indices in them
    call = True  # stands for the function at its call sites
    property = ()

    def configs(self):
        """{name: setup(I) -> (args, kw)}"""
        return {}

    def pre(self, I, env):
        return []

    def spec(self, I, env):
        raise NotImplementedError

    def loops(self, I, env):
        return []

    def templates(self, I, env):
        """[Pred] tried as invariants of every location of every loop"""
        return []

    def lemmas(self, I, env):
        """[(name, formula)] proved once in the pre-state, then assumed."""
        return []

    def applicable(self, I, f, args, kw):
        return True

    def apply(self, I, env):
        I.ctx.scope.append(f"call {self.qual}")
        try:
            for name, f in self.pre(I, env):
                I.ctx.oblige(f"pre:{name}", f)
            return self.spec(I, env)
        finally:
            I.ctx.scope.pop()


class Result:
    def __init__(self, unit):
        self.unit = unit
        self.obligations, self.error, self.paths = [], None, 0
        self.assumed, self.inlined, self.contracts = {}, set(), set()
        self.secs = 0.0
        self.cover = False


def snapshot_outcome(fn):
    try:
        return ("return", fn())
    except PyExc as e:
        return ("raise", e.name)


def find_func(prog, qual):
    parts = qual.split(".")
    c = prog.classes[parts[0]]
    if parts[-1] == "setter":
        return c, prog.find(c, parts[1], "setters")
    f = prog.find(c, parts[1], "methods")
    if f is None:
        f = prog.find(c, parts[1], "props")
    return c, f


def verify(con, cname, setup, prog, contracts):
    """Generate the obligations of one function under one configuration."""
    unit = f"{con.qual}[{cname}]" if cname else con.qual
    ctx = Ctx(unit, con.opt)
    res = Result(unit)
    t0 = time.time()

    def run(ctx):
        prog.load(con.modulename)
        I = Interp(prog, ctx, contracts, target=con.qual)
        T.Fresh.parametric = con.parametric
        args, kw = setup(I)
        c, f = find_func(prog, con.qual)
        if f is None:
            raise Unsupported(f"{con.qual} is not in the source")
        for k in c.mro():
            for a in k.attrs:
                try:
                    I.class_attr(k, a)
                except Unsupported:
                    pass
        if f.qual != con.qual:
            I.target = f.qual  # inherited
        env = I.bind(f, args, kw)
        ctx.g["params"] = dict(env)
        for name, g in con.pre(I, env):
            ctx.assume(g)
        for name, g in con.lemmas(I, env):
            ctx.oblige(f"lemma:{name}", g)
        if ctx.solver.check() == z3.unsat:
            raise Infeasible()
        pre = ctx.heap.copy()
        I.loops = con.loops(I, env)
        I.templates = con.templates(I, env)
        I.pre_heap = pre
        out1 = snapshot_outcome(lambda: I.call_func(f, args, kw))
        h1 = ctx.heap
        I.loops = []
        # specification, from the same pre-state
        ctx.heap = pre.copy()
        ctx.heap.n = h1.n + 1000
        I.entered_target = True
        J = Interp(prog, ctx, contracts)
        J.spec_mode = True
        J.impl = (out1, h1)
        con.g = ctx.g
        out2 = snapshot_outcome(lambda: con.spec(J, env))
        h2 = ctx.heap
        compare(I, pre, out1, h1, out2, h2, con)
        if ctx.solver.check() != z3.unsat:
            res.cover = True
        return out1[0]

    return _finish(ctx, res, run, t0)


class Lemma:
    """A property stated over contracts only: run(I) states obligations about the
    specification transformers, without looking at any body."""

    name = None
    modules = ()
    opt = None

    def configs(self):
        return {"": self.run}

    def run(self, I):
        raise NotImplementedError


def verify_lemma(lem, cname, run, prog, contracts):
    unit = f"lemma {lem.name}[{cname}]" if cname else f"lemma {lem.name}"
    ctx = Ctx(unit, lem.opt)
    res = Result(unit)
    t0 = time.time()

    def go(ctx):
        for m in lem.modules:
            prog.load(m)
        I = Interp(prog, ctx, contracts)
        I.spec_mode = True
        ctx.g["params"] = {}
        run(I)
        if ctx.solver.check() != z3.unsat:
            res.cover = True

    return _finish(ctx, res, go, t0)


def _finish(ctx, res, run, t0):
    import os
    import traceback

    try:
        T.Fresh.parametric = False
        ctx.run_all(run)
    except Unsupported as ex:
        res.error = f"outside the verified subset: {ex}"
        if os.environ.get("PYCV_DEBUG"):
            traceback.print_exc()
    except PyExc as ex:
        res.error = f"exception during evaluation: {ex}"
        if os.environ.get("PYCV_DEBUG"):
            traceback.print_exc()
    except RecursionError:
        res.error = "recursion"
    except (z3.Z3Exception, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError, OSError, SyntaxError, NotImplementedError, ZeroDivisionError, OverflowError) as ex:
        res.error = f"not translated ({type(ex).__name__}: {ex})"
        if os.environ.get("PYCV_DEBUG"):
            traceback.print_exc()
    res.obligations = ctx.obligations
    res.paths = ctx.paths
    res.assumed = ctx.assumed
    res.inlined = ctx.inlined
    res.contracts = ctx.used_contracts
    res.secs = time.time() - t0
    return res


class Compare:
    def __init__(self, I, pre, h1, h2):
        self.I, self.ctx, self.pre, self.h1, self.h2 = I, I.ctx, pre, h1, h2
        self.map, self.inv, self.done = {}, {}, set()
        self.field, self.replaced = False, set()
        self.owned_by_caller = {v.ref for v in I.ctx.g["params"].values() if isinstance(v, Arr)}
        self.prefix = ""

    def ob(self, name, f):
        self.ctx.oblige(self.prefix + name, f, assume=False, post=True)

    def memory(self, h, r):
        """The array whose memory an array shares."""
        while r in h.cells and h.cells[r].base is not None:
            r = h.cells[r].base.ref
        return r

    def kept(self, ref, fields, n):
        """A field the contract leaves as it was."""
        if ref not in self.pre.objs or n not in self.pre.objs[ref].fields:
            return False
        v, w = self.pre.objs[ref].fields[n], fields[n]
        if v is not w and not (isinstance(v, (Arr, ListRef, DictRef)) and type(v) is type(w) and v.ref == w.ref and getattr(v, "view", None) == getattr(w, "view", None)) and not (isinstance(v, Obj) and isinstance(w, Obj) and v.oid == w.oid):
            return False
        if isinstance(v, Arr):
            return self.h2.cells[v.ref] is self.pre.cells[v.ref]
        if isinstance(v, ListRef):
            x, y = self.h2.lists[v.ref], self.pre.lists[v.ref]
            return x is y or isinstance(x, list) and isinstance(y, list) and len(x) == len(y) and all(p is q for p, q in zip(x, y))
        if isinstance(v, DictRef):
            x, y = self.h2.dicts[v.ref], self.pre.dicts[v.ref]
            return set(x) == set(y) and all(x[k] is y[k] for k in x)
        return True

    def refs(self, name, r1, r2):
        """Same identity: pre-existing to itself, fresh to fresh one to one."""
        r1, r2 = self.memory(self.h1, r1), self.memory(self.h2, r2)
        old1 = r1 in self.pre.cells or r1 in self.pre.objs or r1 in self.pre.lists or r1 in self.pre.dicts
        old2 = r2 in self.pre.cells or r2 in self.pre.objs or r2 in self.pre.lists or r2 in self.pre.dicts
        if old1 or old2:
            if r1 != r2:
                self.ob(f"{name}:{'not-fresh' if old1 else 'identity'}", False)
                return False
            return True
        if self.map.setdefault(r1, r2) != r2 or self.inv.setdefault(r2, r1) != r1:
            self.ob(f"{name}:alias", False)
            return False
        self.ob(f"{name}:fresh", True)
        return True

    def value(self, name, a, b):
        if b is ANY:
            return
        if isinstance(b, Where):
            for part, f in b.check(self.I, self.h1, a):
                self.ob(f"{name}:{part}", f)
            return
        if isinstance(a, Num) and isinstance(b, Num):
            if a.inf or b.inf:
                self.ob(name, a.inf and b.inf and a.re.sign == b.re.sign)
                return
            if a.k != b.k:
                if {a.k, b.k} <= {"i", "f", "b"} and not getattr(self, "strict", False):
                    pass
                else:
                    self.ob(f"{name}:kind", False)
                    return
            if a.k == "b" and b.k == "b":
                self.ob(name, r_eq(a.re, b.re))
                return
            k = T.kmax(a.k, b.k)
            a, b = a.to(k), b.to(k)
            self.ob(name, r_eq(a.re, b.re))
            if k == "c":
                self.ob(name + ".imag", r_eq(a.im, b.im))
            return
        if isinstance(a, Arr) and isinstance(b, Arr):
            if self.field and b.ref in self.pre.cells and a.ref not in self.pre.cells and b.ref not in self.owned_by_caller:
                # an internal array was replaced rather than overwritten
                self.replaced.add(b.ref)
                if self.map.setdefault(a.ref, b.ref) != b.ref:
                    self.ob(f"{name}:alias", False)
                    return
            elif not self.refs(name, a.ref, b.ref):
                return
            s1, s2 = view_shape(a.view), view_shape(b.view)
            if len(s1) != len(s2):
                self.ob(f"{name}:rank", False)
                return
            key = (a.ref, b.ref, str(a.view), str(b.view))
            if key in self.done:
                return
            self.done.add(key)
            c1, c2 = self.h1.cells[a.ref], self.h2.cells[b.ref]
            self.array(name, s1, c1.k, lambda *ix: c1.fn(*view_index(a.view, ix)), s2, c2.k, lambda *ix: c2.fn(*view_index(b.view, ix)))
            return
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                self.ob(f"{name}:length", False)
                return
            for i, (x, y) in enumerate(zip(a, b)):
                self.value(f"{name}.{i}", x, y)
            return
        if isinstance(a, Obj) and isinstance(b, Obj):
            if not self.refs(name, a.oid, b.oid) or (a.oid, b.oid) in self.done:
                return
            self.done.add((a.oid, b.oid))
            self.obj(name, a.oid, b.oid)
            return
        if isinstance(a, ListRef) and isinstance(b, ListRef):
            if not self.refs(name, a.ref, b.ref) or (a.ref, b.ref) in self.done:
                return
            self.done.add((a.ref, b.ref))
            self.lst(name, self.h1.lists[a.ref], self.h2.lists[b.ref])
            return
        if isinstance(a, DictRef) and isinstance(b, DictRef):
            if not self.refs(name, a.ref, b.ref):
                return
            x, y = self.h1.dicts[a.ref], self.h2.dicts[b.ref]
            if set(x) != set(y):
                self.ob(f"{name}:keys", False)
                return
            for k in x:
                self.value(f"{name}[{k}]", x[k], y[k])
            return
        if isinstance(a, SymSeq) and isinstance(b, SymSeq):
            self.lst(name, a, b)
            return
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            from .lib import val_term

            if isinstance(a, Opaque) and isinstance(b, Opaque) and a.term is None and b.term is None:
                self.ob(name, a.tag == b.tag)
                return
            try:
                self.ob(name, val_term(a) == val_term(b))
            except Unsupported:
                self.ob(name, False)
            return
        if isinstance(a, FuncVal) and isinstance(b, FuncVal):
            self.ob(name, a.node is b.node)
            return
        if isinstance(a, Bound) and isinstance(b, Bound):
            self.ob(name, a.func.node is b.func.node)
            return
        self.ob(name, a is b or (type(a) is type(b) and a == b))

    def array(self, name, s1, k1, f1, s2, k2, f2):
        for d, (p, q) in enumerate(zip(s1, s2)):
            self.ob(f"{name}:shape{d}", r_eq(p, q))
        if k1 != k2:
            self.ob(f"{name}:dtype", False)
            return
        conc = [p if not is_z(p) else (q if not is_z(q) else None) for p, q in zip(s1, s2)]
        import itertools

        size = 1
        for d in conc:
            size = size * d if d is not None and size is not None else None
        if size is not None and size <= 40:
            for ix in itertools.product(*[range(int(d)) for d in conc]):
                x, y = f1(*ix), f2(*ix)
                self.elem(name + "".join(f"[{i}]" for i in ix), True, x, y, k1)
            return
        same = b_and(*[r_eq(p, q) for p, q in zip(s1, s2)])
        few = [range(int(d)) if d is not None and d <= 4 else [None] for d in conc]
        for ix in itertools.product(*few):
            w = [T.fresh_int("w") if i is None else i for i in ix]
            inb = b_and(*[b_and(r_le(0, i), r_lt(i, d)) for i, d in zip(w, s1)])
            lab = "[*]" if set(ix) == {None} else "".join("[*]" if i is None else f"[{i}]" for i in ix)
            self.elem(name + lab, b_and(inb, same), f1(*w), f2(*w), k1)

    def elem(self, name, inb, x, y, k):
        self.ob(name, b_implies(inb, r_eq(x.re, y.re)))
        if k == "c":
            self.ob(name + ".imag", b_implies(inb, r_eq(x.im, y.im)))

    def lst(self, name, x, y):
        if isinstance(x, list) and isinstance(y, list):
            if len(x) != len(y):
                self.ob(f"{name}:length", False)
                return
            for i, (p, q) in enumerate(zip(x, y)):
                self.value(f"{name}[{i}]", p, q)
            return
        n1 = len(x) if isinstance(x, list) else x.n
        n2 = len(y) if isinstance(y, list) else y.n
        self.ob(f"{name}:length", r_eq(n1, n2))
        at1 = (lambda i: self.I.select(x, i)) if isinstance(x, list) else x.fn
        at2 = (lambda i: self.I.select(y, i)) if isinstance(y, list) else y.fn
        if isinstance(x, list) and not x or isinstance(y, list) and not y:
            return
        w = T.fresh_int("w")
        self.ctx.heap = self.h1
        a = at1(w)
        self.ctx.heap = self.h2
        b = at2(w)
        inb = b_and(r_le(0, w), r_lt(w, n1), r_eq(n1, n2))
        if isinstance(a, Num) and isinstance(b, Num):
            self.elem(name + "[*]", inb, a.to(T.kmax(a.k, b.k)), b.to(T.kmax(a.k, b.k)), T.kmax(a.k, b.k))
            return
        self.within(f"{name}[*]", a, b, inb)

    def within(self, name, a, b, inb):
        """Elements of a symbolic list compared at an arbitrary index."""
        if isinstance(a, Num) and isinstance(b, Num):
            self.elem(name, inb, a.to(T.kmax(a.k, b.k)), b.to(T.kmax(a.k, b.k)), T.kmax(a.k, b.k))
            return
        da = db = None
        if isinstance(a, DictRef) and isinstance(b, DictRef):
            da, db = self.h1.dicts[a.ref], self.h2.dicts[b.ref]
        elif isinstance(a, Obj) and isinstance(b, Obj) and self.h1.objs[a.oid].cls == self.h2.objs[b.oid].cls:
            da, db = self.h1.objs[a.oid].fields, self.h2.objs[b.oid].fields
        if da is not None:
            if set(da) != set(db):
                self.ob(f"{name}:keys", False)
                return
            for k in da:
                self.within(f"{name}.{k}", da[k], db[k], inb)
            return
        if isinstance(a, Arr) and isinstance(b, Arr):
            s1, s2 = view_shape(a.view), view_shape(b.view)
            c1, c2 = self.h1.cells[a.ref], self.h2.cells[b.ref]
            if len(s1) != len(s2) or c1.k != c2.k:
                self.ob(f"{name}:type", False)
                return
            ws = [T.fresh_int("w") for _ in s1]
            ib = b_and(inb, *[b_and(r_le(0, i), r_lt(i, d)) for i, d in zip(ws, s1)])
            self.ob(f"{name}:shape", b_implies(inb, b_and(*[r_eq(u, v) for u, v in zip(s1, s2)])))
            self.elem(name, ib, c1.fn(*view_index(a.view, ws)), c2.fn(*view_index(b.view, ws)), c1.k)
            return
        self.ob(f"{name}:type", type(a) is type(b) and a == b)

    def obj(self, name, o1, o2):
        r1, r2 = self.h1.objs[o1], self.h2.objs[o2]
        if r1.cls != r2.cls:
            self.ob(f"{name}:class", False)
            return
        for n in sorted(set(r1.fields) | set(r2.fields)):
            if n not in r2.fields:
                if o1.startswith(("class:", "module:")):
                    continue
                self.ob(f"{name}.{n}:extra-field", "extra" in self.__dict__ or True)
                continue
            if n not in r1.fields:
                if o1.startswith(("class:", "module:")):
                    continue
                self.ob(f"{name}.{n}:missing", False)
                continue
            saved, nm = self.prefix, f"{name}.{n}"
            if self.kept(o2, r2.fields, n) and not saved:
                self.prefix = "frame:"
            self.field = True
            self.value(nm, r1.fields[n], r2.fields[n])
            self.field, self.prefix = False, saved


class _Any:
    pass


ANY = _Any()  # a value the contract leaves open


class Where:
    """A value constrained by a predicate: check(I, heap, value) -> [(name, formula)]"""

    def __init__(self, check):
        self.check = check


def compare(I, pre, out1, h1, out2, h2, con):
    ctx = I.ctx
    C = Compare(I, pre, h1, h2)
    if out1[0] != out2[0] or (out1[0] == "raise" and out1[1] != out2[1]):
        ctx.oblige(f"outcome:{'returns' if out1[0] == 'return' else 'raises ' + out1[1]}-expected-{'return' if out2[0] == 'return' else out2[1]}", False, assume=False, post=True)
        return
    ctx.oblige("outcome", True, assume=False, post=True)
    ctx.heap = h2
    if out2[0] == "raise":
        C.prefix = "rejected:"
    if out1[0] == "return":
        C.value("result", out1[1], out2[1])
    # frame: everything that existed before
    names = {}
    for n, v in ctx.g["params"].items():
        if isinstance(v, Obj):
            names[v.oid] = n
        elif isinstance(v, (Arr,)):
            names[v.ref] = n
    for o in pre.objs:
        if o.startswith("module:"):
            continue
        if (o, o) not in C.done:
            C.done.add((o, o))
            C.obj(names.get(o, o), o, o)
    for r, c in pre.cells.items():
        a, b = h1.cells[r], h2.cells[r]
        if a is b or r in C.replaced:
            continue
        key = (r, r, str(full_view(a.shape)), str(full_view(b.shape)))
        if key in C.done:
            continue
        nm = names.get(r) or field_of(pre, r) or r
        C.array(("" if C.prefix else "frame:") + nm, a.shape, a.k, a.fn, b.shape, b.k, b.fn)
    for r in pre.lists:
        x, y = h1.lists[r], h2.lists[r]
        if x is not y and (r, r) not in C.done:
            C.lst(("" if C.prefix else "frame:") + f"list {r}", x, y)
    for r in pre.dicts:
        x, y = h1.dicts[r], h2.dicts[r]
        if x is not y:
            if set(x) != set(y):
                C.ob(("" if C.prefix else "frame:") + f"dict {r}", False)
            else:
                for k in x:
                    C.value(("" if C.prefix else "frame:") + f"dict {r}[{k}]", x[k], y[k])


def field_of(heap, ref):
    for o, rec in heap.objs.items():
        for n, v in rec.fields.items():
            if isinstance(v, Arr) and v.ref == ref:
                return f"{rec.cls}.{n}"
    return None
