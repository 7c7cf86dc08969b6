"""Symbolic interpreter for the Python subset used by the package under test."""

import ast
import os
from fractions import Fraction

import z3

from . import terms as T
from .ctx import Infeasible, PathDone, PyExc
from .heap import *  # noqa
from .heap import Arr, Cell, DictRef, ListRef, Obj, Opaque, Base, Poison, SymSeq, full_view, view_index, view_shape
from .terms import Inf, Num, Unsupported, b_and, b_not, b_or, fold, is_z, lift, num_ite, r_add, r_eq, r_ite, r_le, r_lt, r_mul, r_sub, zb, zi, zr

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "diamondback"


class ModuleVal:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"Module({self.name})"


class LibFn:
    """A library function or type, known by its qualified name."""

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, LibFn) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f"Lib({self.name})"


class ClassVal:
    def __init__(self, name, module, node, bases):
        self.name, self.module, self.node, self.bases = name, module, node, bases
        self.methods = {}
        self.props = {}
        self.setters = {}
        self.static = set()
        self.clsm = set()
        self.attrs = {}  # class attribute name -> ast expression
        self.order = []

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassVal):
                out += [c for c in b.mro() if c not in out]
        return out

    def __repr__(self):
        return f"Class({self.name})"


class FuncVal:
    def __init__(self, node, module, cls=None, env=None, qual=None):
        self.node, self.module, self.cls, self.env = node, module, cls, env
        self.qual = qual or (f"{cls.name}.{node.name}" if cls else getattr(node, "name", "<lambda>"))

    def __repr__(self):
        return f"Func({self.qual})"


class Bound:
    def __init__(self, self_, func):
        self.self_, self.func = self_, func


class LibMethod:
    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class SuperVal:
    def __init__(self, self_, cls):
        self.self_, self.cls = self_, cls


class RangeVal:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Iter:
    """length (raw) and element function."""

    def __init__(self, n, at):
        self.n, self.at = n, at


class SetVal:
    """Set of concrete values or, with items None, the set of elements of an array."""

    def __init__(self, items, of=None):
        self.items, self.of = items, of


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        with open(path) as f:
            self.source = f.read()
        self.tree = ast.parse(self.source)
        self.names = {}


class Program:
    """The package source, parsed from the working tree on every run."""

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.classes = {}
        self.functions = {}

    def load(self, dotted):
        if dotted in self.modules:
            return self.modules[dotted]
        p = os.path.join(self.repo, *dotted.split("."))
        path = p + ".py" if os.path.exists(p + ".py") else os.path.join(p, "__init__.py")
        m = Module(dotted, path)
        self.modules[dotted] = m
        for st in m.tree.body:
            self._top(m, st)
        return m

    def _top(self, m, st):
        if isinstance(st, ast.Import):
            for a in st.names:
                top = a.asname or a.name.split(".")[0]
                m.names[top] = ModuleVal(a.name if a.asname else a.name.split(".")[0])
        elif isinstance(st, ast.ImportFrom):
            mod = st.module or ""
            if st.level:
                base = m.name.split(".")[: -st.level]
                mod = ".".join(base + ([mod] if mod else []))
            for a in st.names:
                nm = a.asname or a.name
                if mod.split(".")[0] == PKG:
                    m.names[nm] = self.resolve_import(mod, a.name)
                else:
                    m.names[nm] = LibFn(f"{mod}.{a.name}")
        elif isinstance(st, ast.ClassDef):
            self._class(m, st)
        elif isinstance(st, ast.FunctionDef):
            m.names[st.name] = FuncVal(st, m)
            self.functions[st.name] = m.names[st.name]
        elif isinstance(st, (ast.Assign, ast.AnnAssign)):
            t = st.targets[0] if isinstance(st, ast.Assign) else st.target
            if isinstance(t, ast.Name) and st.value is not None:
                m.names[t.id] = ("const", st.value)
        elif isinstance(st, (ast.If, ast.Try)):
            for s in st.body:
                self._top(m, s)

    def resolve_import(self, mod, name):
        sub = self.load(mod)
        if name in sub.names:
            return sub.names[name]
        try:
            self.load(mod + "." + name)
            return ModuleVal(mod + "." + name)
        except FileNotFoundError:
            raise Unsupported(f"import {mod}.{name}") from None

    def _class(self, m, st):
        bases = []
        for b in st.bases:
            if isinstance(b, ast.Name):
                v = m.names.get(b.id)
                bases.append(v if isinstance(v, ClassVal) else b.id)
            else:
                bases.append(ast.unparse(b))
        c = ClassVal(st.name, m, st, bases)
        for s in st.body:
            if isinstance(s, ast.FunctionDef):
                decos = [ast.unparse(d) for d in s.decorator_list]
                f = FuncVal(s, m, c)
                if "property" in decos:
                    c.props[s.name] = f
                    f.qual = f"{c.name}.{s.name}"
                elif any(d.endswith(".setter") for d in decos):
                    c.setters[s.name] = f
                    f.qual = f"{c.name}.{s.name}.setter"
                else:
                    if "staticmethod" in decos:
                        c.static.add(s.name)
                    elif "classmethod" in decos:
                        c.clsm.add(s.name)
                    elif decos:
                        raise Unsupported(f"decorator {decos}")
                    c.methods[s.name] = f
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                c.attrs[s.target.id] = s.value
                c.order.append(s.target.id)
            elif isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                c.attrs[s.targets[0].id] = s.value
                c.order.append(s.targets[0].id)
        m.names[st.name] = c
        self.classes[st.name] = c

    def find(self, cls, name, kind="methods"):
        for c in cls.mro():
            d = getattr(c, kind)
            if name in d:
                return d[name]
        return None


BUILTINS = {
    n
    for n in (
        "len range abs sum min max all any isinstance issubclass type int float complex bool str list tuple dict set sorted "
        "enumerate zip reversed hasattr getattr setattr super bytes round map filter print repr iter next pow divmod object slice id callable format"
    ).split()
}
EXC = {
    n: b
    for n, b in {
        "BaseException": None,
        "Exception": "BaseException",
        "ValueError": "Exception",
        "TypeError": "Exception",
        "RuntimeError": "Exception",
        "KeyError": "LookupError",
        "LookupError": "Exception",
        "IndexError": "LookupError",
        "AttributeError": "Exception",
        "ArithmeticError": "Exception",
        "ZeroDivisionError": "ArithmeticError",
        "OverflowError": "ArithmeticError",
        "StopIteration": "Exception",
        "NotImplementedError": "RuntimeError",
        "OSError": "Exception",
        "AssertionError": "Exception",
        "UnicodeError": "ValueError",
        "LibError": "Exception",
    }.items()
}


def exc_is(name, base):
    while name is not None:
        if name == base:
            return True
        name = EXC.get(name)
    return False


class Frame:
    __slots__ = ("env", "module", "cls", "self_", "func")

    def __init__(self, env, module, cls, self_, func):
        self.env, self.module, self.cls, self.self_, self.func = env, module, cls, self_, func


class Interp:
    UNROLL = 40

    def __init__(self, prog, ctx, contracts=None, target=None, loops=None):
        from . import lib

        self.prog, self.ctx, self.lib = prog, ctx, lib
        self.contracts = contracts or {}
        self.target = target  # qualified name being verified: its body is executed, not its contract
        self.loops = loops or []
        self.depth = 0
        self.outer = []
        self.entered_target = False

    # ------------------------------------------------------------ helpers
    @property
    def heap(self):
        return self.ctx.heap

    def cell(self, a):
        return self.heap.cells[a.ref]

    def shape(self, a):
        return view_shape(a.view)

    def at(self, a, *idx):
        return self.cell(a).fn(*view_index(a.view, idx))

    def snap(self, a):
        """Element function of the current contents."""
        fn, view = self.cell(a).fn, a.view
        return lambda *idx: fn(*view_index(view, idx))

    def kind(self, a):
        return self.cell(a).k

    def new(self, shape, k, fn, frozen=False):
        return self.heap.new_cell(shape, k, fn, frozen)

    def derived(self, a, shape, k, g, back=None):
        """An array sharing the memory of a: its elements are g(element function of a)."""
        view = a.view

        def take(cell):
            return g(lambda *ix: cell.fn(*view_index(view, ix)))

        cell = self.cell(a)
        if cell.base is not None:
            back = None
        if back is not None and view != full_view(cell.shape):
            back = None
        return self.heap.new_cell(shape, k, take(cell), back is None, Base(a.ref, cell, take, back))

    def dense(self, items, shape=None, k=None):
        items = [lift(x) for x in items]
        if k is None:
            k = "i" if items else "f"
            for x in items:
                k = x.k if items.index(x) == 0 else T.kmax(k, x.k, "b")
        shape = (len(items),) if shape is None else shape
        return self.new(shape, k, dense_fn(items, shape, k))

    def concrete_shape(self, a):
        return all(not is_z(d) for d in self.shape(a))

    def items(self, a):
        """Row major elements of an array of concrete shape."""
        import itertools

        f = self.snap(a)
        return [f(*ix) for ix in itertools.product(*[range(int(d)) for d in self.shape(a)])]

    def truth(self, v):
        """Raw boolean of a value."""
        if isinstance(v, Num):
            if v.inf:
                return True
            return v.to("b").re
        if v is None:
            return False
        if isinstance(v, (str, tuple)):
            return bool(len(v))
        if isinstance(v, ListRef):
            x = self.heap.lists[v.ref]
            return bool(x) if isinstance(x, list) else b_not(r_eq(x.n, 0))
        if isinstance(v, DictRef):
            return bool(self.heap.dicts[v.ref])
        if isinstance(v, SymSeq):
            return b_not(r_eq(v.n, 0))
        if isinstance(v, Arr):
            sh = self.shape(v)
            if not sh:
                return self.at(v).to("b").re
            n = 1
            for d in sh:
                n = r_mul(n, d)
            self.ctx.oblige("truth-of-array", r_eq(n, 1))
            return self.at(v, *[0] * len(sh)).to("b").re
        if isinstance(v, Opaque):
            if "truth" in v.info:
                return v.info["truth"]
            t = self.lib.effects.truth_of(self, v)
            if t is not None:
                return t
            raise Unsupported(f"truth of {v.tag}")
        if isinstance(v, (Obj, ClassVal, LibFn, FuncVal, Bound, ModuleVal)):
            return True
        raise Unsupported(f"truth of {type(v).__name__}")

    def test(self, v):
        return self.ctx.branch(self.truth(v))

    def raise_(self, name, value=None):
        raise PyExc(name, value)

    # ------------------------------------------------------- class objects
    def class_obj(self, c):
        """The heap object holding the attributes of a class."""
        oid = f"class:{c.name}"
        if oid not in self.heap.objs:
            from .heap import ObjRec

            self.heap.objs[oid] = ObjRec("type", {})
        return self.heap.objs[oid]

    def class_attr(self, c, name):
        for k in c.mro():
            rec = self.class_obj(k)
            if name in rec.fields:
                return rec.fields[name]
            if name in k.attrs:
                v = self.eval_in_class(k, k.attrs[name])
                self.class_obj(k).fields[name] = v
                return v
            if name in k.methods:
                f = k.methods[name]
                if name in k.clsm:
                    return Bound(c, f)
                return f
        return None

    def eval_in_class(self, c, expr):
        env = {}

        class Env(dict):
            def __contains__(s, n):
                return n in c.attrs or dict.__contains__(s, n)

            def __getitem__(s, n):
                if dict.__contains__(s, n):
                    return dict.__getitem__(s, n)
                return self.class_attr(c, n)

        fr = Frame(Env(env), c.module, c, None, None)
        self.ctx.dry += 1
        try:
            return self.ev(expr, fr)
        finally:
            self.ctx.dry -= 1

    def instantiate(self, c, args, kw):
        o = self.heap.new_obj(c.name)
        init = self.prog.find(c, "__init__")
        if init is not None:
            self.call_func(init, [o, *args], kw, cls_of=c)
        elif args or kw:
            raise Unsupported(f"constructor of {c.name}")
        return o

    def cls_of(self, o):
        return self.prog.classes[self.heap.objs[o.oid].cls]

    # ------------------------------------------------------------- calling
    def bind(self, f, args, kw):
        a = f.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        if len(args) > len(names) and not a.vararg:
            raise Unsupported(f"arguments of {f.qual}")
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg:
            env[a.vararg.arg] = tuple(args[len(names) :])
        kw = dict(kw)
        for n in names + [p.arg for p in a.kwonlyargs]:
            if n in kw:
                if n in env:
                    raise Unsupported(f"duplicate argument {n}")
                env[n] = kw.pop(n)
        if kw:
            if a.kwarg:
                env[a.kwarg.arg] = self.heap.new_dict(kw)
            else:
                raise PyExc("TypeError")
        fr = Frame(f.env or {}, f.module, f.cls, None, f)
        for p, d in zip(reversed(a.posonlyargs + a.args), reversed(a.defaults)):
            if p.arg not in env:
                env[p.arg] = self.ev(d, fr)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in env and d is not None:
                env[p.arg] = self.ev(d, fr)
        for n in names:
            if n not in env:
                raise PyExc("TypeError")
        return env

    def call_func(self, f, args, kw, cls_of=None):
        """Call a function of the package: through its contract when it has one,
        otherwise by executing its body (an uncontracted helper is inlined)."""
        c = self.contracts.get(f.qual)
        first = not self.entered_target and f.qual == self.target
        if c is not None and not first and not getattr(c, "inline", False):
            if c.applicable(self, f, args, kw):
                self.ctx.used_contracts.add(f.qual)
                env = self.bind(f, args, kw)
                return c.apply(self, env)
        if first:
            self.entered_target = True
        else:
            self.ctx.inlined.add(f.qual)
        self.depth += 1
        if self.depth > 30:
            raise Unsupported("recursion without a contract")
        try:
            return self.run_body(f, self.bind(f, args, kw), args)
        finally:
            self.depth -= 1

    def run_body(self, f, env, args):
        if isinstance(f.node, ast.Lambda):
            e = dict(f.env or {})
            e.update(env)
            return self.ev(f.node.body, Frame(e, f.module, f.cls, None, f))
        if f.env:
            e = dict(f.env)
            e.update(env)
            env = e
        fr = Frame(env, f.module, f.cls, args[0] if args else None, f)
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal)):
                raise Unsupported(type(n).__name__)
        try:
            self.block(f.node.body, fr)
        except _Return as r:
            return r.v
        return None

    def call(self, fn, args, kw):
        if isinstance(fn, FuncVal):
            return self.call_func(fn, args, kw)
        if isinstance(fn, Bound):
            return self.call_func(fn.func, [fn.self_, *args], kw)
        if isinstance(fn, ClassVal):
            return self.instantiate(fn, args, kw)
        if isinstance(fn, LibFn):
            return self.lib.call(self, fn.name, args, kw)
        if isinstance(fn, LibMethod):
            return self.lib.method(self, fn.recv, fn.name, args, kw)
        if isinstance(fn, Opaque) and "call" in fn.info:
            return fn.info["call"](self, *args, **kw)
        raise Unsupported(f"call of {type(fn).__name__}")

    # ---------------------------------------------------------- attributes
    def getattr(self, v, name, fr=None):
        if isinstance(v, Obj):
            rec = self.heap.objs[v.oid]
            if rec.cls in self.prog.classes:
                c = self.prog.classes[rec.cls]
                p = self.prog.find(c, name, "props")
                if p is not None:
                    return self.call_func(p, [v], {})
                if name in rec.fields:
                    return rec.fields[name]
                for k in c.mro():
                    if name in k.methods:
                        if name in k.static:
                            return k.methods[name]
                        if name in k.clsm:
                            return Bound(c, k.methods[name])
                        return Bound(v, k.methods[name])
                    if name in k.attrs:
                        return self.class_attr(c, name)
                if name == "__class__":
                    return c
                raise Unsupported(f"attribute {rec.cls}.{name}")
            return self.lib.getattr(self, v, name)
        if isinstance(v, SuperVal):
            c = self.cls_of(v.self_) if isinstance(v.self_, Obj) else v.self_
            mro = c.mro()
            i = mro.index(v.cls) + 1
            for k in mro[i:]:
                if name in k.props:
                    return self.call_func(k.props[name], [v.self_], {})
                if name in k.methods:
                    return Bound(v.self_, k.methods[name])
            if name == "__init__":
                return LibFn("object.__init__")
            raise Unsupported(f"super().{name}")
        if isinstance(v, ClassVal):
            if name == "__name__":
                return v.name
            self.guard(v, name)
            r = self.class_attr(v, name)
            if r is None:
                raise Unsupported(f"attribute {v.name}.{name}")
            return r
        if isinstance(v, ModuleVal):
            if v.name.split(".")[0] == PKG:
                m = self.prog.load(v.name)
                if name in m.names:
                    return self.modname(m, name)
                return ModuleVal(f"{v.name}.{name}")
            return self.lib.module_attr(self, v.name, name)
        return self.lib.getattr(self, v, name)

    def guard(self, c, name):
        """Shared state is accessed under its lock."""
        g = self.heap.objs.get("ghost")
        if g is not None and name in g.fields.get("guarded", ()):
            self.lib.effects.locked(self, f"{c.name}.{name}")

    def modname(self, m, name):
        v = m.names[name]
        if isinstance(v, LibFn) and v.name in self.lib.SPECIAL_ATTR:
            return self.lib.SPECIAL_ATTR[v.name](self)
        if isinstance(v, tuple) and v and v[0] == "const":
            key = f"module:{m.name}"
            from .heap import ObjRec

            rec = self.heap.objs.setdefault(key, ObjRec("module", {}))
            if name not in rec.fields:
                self.ctx.dry += 1
                try:
                    rec.fields[name] = self.ev(v[1], Frame({}, m, None, None, None))
                finally:
                    self.ctx.dry -= 1
            return rec.fields[name]
        return v

    def setattr(self, v, name, val):
        if isinstance(v, Obj):
            rec = self.heap.objs[v.oid]
            c = self.prog.classes.get(rec.cls)
            if c is None:
                raise Unsupported(f"store to {rec.cls}.{name}")
            s = self.prog.find(c, name, "setters")
            if s is not None:
                self.call_func(s, [v, val], {})
                return
            if self.prog.find(c, name, "props") is not None:
                raise PyExc("AttributeError")
            rec.fields[name] = val
            return
        if isinstance(v, ClassVal):
            self.guard(v, name)
            self.class_attr(v, name)
            self.class_obj(v).fields[name] = val
            return
        raise Unsupported(f"attribute store on {type(v).__name__}")

    # ---------------------------------------------------------- statements
    def block(self, body, fr):
        for st in body:
            self.stmt(st, fr)

    def stmt(self, st, fr):
        m = getattr(self, "st_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__} at line {st.lineno}")
        return m(st, fr)

    def st_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, fr)

    def st_Pass(self, st, fr):
        pass

    def st_Return(self, st, fr):
        raise _Return(self.ev(st.value, fr) if st.value is not None else None)

    def st_Break(self, st, fr):
        raise _Break()

    def st_Continue(self, st, fr):
        raise _Continue()

    def st_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)

    def st_Import(self, st, fr):
        for a in st.names:
            fr.env[a.asname or a.name.split(".")[0]] = ModuleVal(a.name if a.asname else a.name.split(".")[0])

    def st_ImportFrom(self, st, fr):
        for a in st.names:
            if (st.module or "").split(".")[0] == PKG:
                fr.env[a.asname or a.name] = self.prog.resolve_import(st.module, a.name)
            else:
                fr.env[a.asname or a.name] = LibFn(f"{st.module}.{a.name}")

    def st_Assert(self, st, fr):
        if not self.test(self.ev(st.test, fr)):
            self.raise_("AssertionError")

    def st_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
            else:
                raise Unsupported("del")

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, vs):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, fr)
            self.store(base, self.ev_index(t.slice, fr), v)
        else:
            raise Unsupported(f"target {type(t).__name__}")

    def unpack(self, v, n):
        if isinstance(v, tuple):
            if len(v) != n:
                raise PyExc("ValueError")
            return list(v)
        if isinstance(v, ListRef) and isinstance(self.heap.lists[v.ref], list):
            if len(self.heap.lists[v.ref]) != n:
                raise PyExc("ValueError")
            return list(self.heap.lists[v.ref])
        if isinstance(v, Arr) and not is_z(self.shape(v)[0]) and self.shape(v)[0] == n:
            return [self.index(v, lift(i)) for i in range(n)]
        raise Unsupported("unpacking")

    def st_AugAssign(self, st, fr):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, fr)
            fr.env[t.id] = self.iop(st.op, cur, self.ev(st.value, fr))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.iop(st.op, cur, self.ev(st.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            ix = self.ev_index(t.slice, fr)
            cur = self.index(o, ix)
            val = self.ev(st.value, fr)
            r = self.binop(st.op, cur, val) if not isinstance(cur, Arr) else self.iop(st.op, cur, val)
            self.store(o, ix, r)
        else:
            raise Unsupported("augmented target")

    def iop(self, op, cur, val):
        if isinstance(cur, Arr):
            r = self.binop(op, cur, val)
            k0, k1 = self.kind(cur), self.kind(r) if isinstance(r, Arr) else r.k
            if T.ORDER[k1] > T.ORDER[k0]:
                self.ctx.oblige("in-place-cast", False)
            self.store_all(cur, r)
            return cur
        if isinstance(cur, ListRef) and isinstance(op, ast.Add):
            self.lib.method(self, cur, "extend", [val], {})
            return cur
        return self.binop(op, cur, val)

    def st_If(self, st, fr):
        if self.test(self.ev(st.test, fr)):
            self.block(st.body, fr)
        else:
            self.block(st.orelse, fr)

    def exc_name(self, e):
        if isinstance(e, LibFn):
            return e.name.split(".")[-1]
        if isinstance(e, Opaque) and e.tag.startswith("exc:"):
            return e.tag[4:]
        raise Unsupported("exception value")

    def st_Raise(self, st, fr):
        if st.exc is None:
            raise Unsupported("bare raise")
        e = st.exc
        if isinstance(e, ast.Call):
            f = self.ev(e.func, fr)
            if isinstance(f, LibFn) and f.name.split(".")[-1] in EXC:
                # message arguments are dropped (formatting has no effect on state)
                raise PyExc(f.name.split(".")[-1])
        raise PyExc(self.exc_name(self.ev(e, fr)))

    def st_Try(self, st, fr):
        def handlers(ex):
            for h in st.handlers:
                if h.type is None:
                    names = ["BaseException"]
                elif isinstance(h.type, ast.Tuple):
                    names = [self.exc_name(self.ev(x, fr)) for x in h.type.elts]
                else:
                    names = [self.exc_name(self.ev(h.type, fr))]
                if any(exc_is(ex.name, n) for n in names):
                    if h.name:
                        fr.env[h.name] = Opaque("exc:" + ex.name)
                    self.block(h.body, fr)
                    return True
            return False

        try:
            try:
                self.block(st.body, fr)
            except PyExc as ex:
                if not handlers(ex):
                    raise
            else:
                self.block(st.orelse, fr)
        except (Infeasible, PathDone, Unsupported):
            raise
        except BaseException:
            self.block(st.finalbody, fr)
            raise
        else:
            self.block(st.finalbody, fr)

    def st_With(self, st, fr):
        self.with_items(st.items, st.body, fr)

    def with_items(self, items, body, fr):
        if not items:
            self.block(body, fr)
            return
        it = items[0]
        v = self.ev(it.context_expr, fr)
        enter, exit_ = self.lib.context(self, v)
        e = enter()
        if it.optional_vars is not None:
            self.assign(it.optional_vars, e, fr)
        try:
            self.with_items(items[1:], body, fr)
        except PyExc as ex:
            if exit_(ex):
                return
            raise
        except (_Return, _Break, _Continue):
            exit_(None)
            raise
        exit_(None)

    def st_FunctionDef(self, st, fr):
        if st.decorator_list:
            raise Unsupported("decorated nested function")
        fr.env[st.name] = FuncVal(st, fr.module, fr.cls, fr.env, f"<local>.{st.name}")

    # --------------------------------------------------------------- loops
    def iterate(self, v):
        if isinstance(v, RangeVal):
            lo, hi, s = v.lo, v.hi, v.step
            if s == 1:
                n = r_sub(hi, lo)
            elif s == -1:
                n = r_sub(lo, hi)
            elif not is_z(s) and s > 1:
                d = r_add(r_sub(hi, lo), s - 1)
                n = d // s if not is_z(d) else zi(d) / s
            elif is_z(s):
                self.ctx.oblige("range-step", r_lt(0, s))
                d = zi(fold(r_sub(r_sub(hi, lo), 1)))
                n = d / s + 1
            else:
                raise Unsupported("range step")
            n = fold(n) if is_z(n) else n
            n = self.ctx.rmax(n, 0)
            return Iter(n, lambda i: lift(r_add(lo, r_mul(i, s))))
        if isinstance(v, Arr):
            return Iter(self.shape(v)[0], lambda i: self.index(v, lift(i)))
        if isinstance(v, tuple):
            return Iter(len(v), lambda i: v[i])
        if isinstance(v, ListRef):
            x = self.heap.lists[v.ref]
            if isinstance(x, list):
                x = list(x)
                return Iter(len(x), lambda i: x[i])
            return Iter(x.n, x.fn)
        if isinstance(v, SymSeq):
            return Iter(v.n, v.fn)
        if isinstance(v, DictRef):
            ks = [self.unkey(k) for k in self.heap.dicts[v.ref]]
            return Iter(len(ks), lambda i: ks[i])
        if isinstance(v, Iter):
            return v
        if isinstance(v, str):
            return Iter(len(v), lambda i: v[i])
        if isinstance(v, SetVal) and v.items is not None:
            its = list(v.items)
            return Iter(len(its), lambda i: its[i])
        r = self.lib.iterate(self, v)
        if r is not None:
            return r
        raise Unsupported(f"iteration over {type(v).__name__}")

    def key(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, Num) and v.conc:
            return int(v.re) if v.k in "bi" else ("f", v.re)
        if isinstance(v, tuple):
            return tuple(self.key(x) for x in v)
        raise Unsupported("dictionary key")

    def unkey(self, k):
        if isinstance(k, (str,)):
            return k
        if isinstance(k, bool) or isinstance(k, int):
            return lift(k)
        raise Unsupported("dictionary key")

    def st_For(self, st, fr):
        it = self.iterate(self.ev(st.iter, fr))
        n = fold(it.n) if is_z(it.n) else it.n
        if not is_z(n) and n <= self.UNROLL_FOR(st):
            broke = False
            for i in range(int(n)):
                self.assign(st.target, it.at(i), fr)
                try:
                    self.block(st.body, fr)
                except _Break:
                    broke = True
                    break
                except _Continue:
                    pass
            if not broke:
                self.block(st.orelse, fr)
            return
        from .loops import cut_loop

        cut_loop(self, st, fr, it=it)

    def UNROLL_FOR(self, st):
        return self.UNROLL

    def st_While(self, st, fr):
        # concrete conditions are unrolled, anything else is cut by an invariant
        n = 0
        while True:
            c = self.concrete_cond(st.test, fr)
            if c is None:
                from .loops import cut_loop

                cut_loop(self, st, fr)
                return
            if not c:
                self.block(st.orelse, fr)
                return
            n += 1
            if n > self.UNROLL:
                raise Unsupported("long concrete loop")
            try:
                self.block(st.body, fr)
            except _Break:
                return
            except _Continue:
                pass

    def concrete_cond(self, test, fr):
        outs = self.ctx.explore(lambda env: self.truth(self.ev(test, Frame(env, fr.module, fr.cls, fr.self_, fr.func))), lambda: dict(fr.env))
        vals = set()
        for r, pc, _ in outs:
            r = fold(r) if is_z(r) else r
            if is_z(r):
                return None
            vals.add(bool(r))
        if len(vals) == 1 and len(outs) == 1:
            # evaluate for real, for its obligations
            self.truth(self.ev(test, fr))
            return vals.pop()
        return None

    # --------------------------------------------------------- expressions
    def ev(self, e, fr):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} at line {getattr(e, 'lineno', '?')}")
        return m(e, fr)

    def ev_Constant(self, e, fr):
        v = e.value
        if v is None or isinstance(v, (str, bytes)):
            return v
        if v is Ellipsis:
            return Ellipsis
        return lift(v)

    def name(self, n, fr):
        if n in fr.env:
            v = fr.env[n]
            if isinstance(v, Poison):
                raise Unsupported(f"variable {n}: {v.why}")
            return v
        if n in fr.module.names:
            return self.modname(fr.module, n)
        if n in EXC or n in BUILTINS:
            return LibFn(n)
        if n == "__name__":
            return fr.module.name
        raise Unsupported(f"name {n}")

    def ev_Name(self, e, fr):
        return self.name(e.id, fr)

    def ev_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr, fr)

    def ev_Tuple(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                it = self.iterate(self.ev(x.value, fr))
                if is_z(it.n):
                    raise Unsupported("starred")
                out += [it.at(i) for i in range(it.n)]
            else:
                out.append(self.ev(x, fr))
        return tuple(out)

    def ev_List(self, e, fr):
        return self.heap.new_list(list(self.ev_Tuple(e, fr)))

    def ev_Set(self, e, fr):
        return SetVal(list(self.ev_Tuple(e, fr)))

    def ev_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported("dict expansion")
            d[self.key(self.ev(k, fr))] = self.ev(v, fr)
        return self.heap.new_dict(d)

    def ev_JoinedStr(self, e, fr):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            elif isinstance(p, ast.FormattedValue):
                parts.append(self.ev(p.value, fr))
        return self.lib.fstring(self, parts)

    def ev_Lambda(self, e, fr):
        return FuncVal(e, fr.module, fr.cls, fr.env, "<lambda>")

    def ev_IfExp(self, e, fr):
        return self.ev(e.body if self.test(self.ev(e.test, fr)) else e.orelse, fr)

    def ev_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        fr.env[e.target.id] = v
        return v

    def ev_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if not is_z(t):
                if bool(t) != is_and:
                    return v
                continue
            if all(self.pure(y) for y in e.values[i + 1 :]):
                # no effect and no failure possible: keep one path
                ts = [t] + [self.truth(self.ev(y, fr)) for y in e.values[i + 1 :]]
                return Num("b", b_and(*ts) if is_and else b_or(*ts))
            if self.ctx.branch(t) != is_and:
                return v
        return v

    def pure(self, e):
        """Comparisons of names, attributes and constants: nothing can fail."""
        if isinstance(e, (ast.Constant, ast.Name)):
            return True
        if isinstance(e, ast.Compare):
            return self.pure(e.left) and all(self.pure(c) for c in e.comparators) and all(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)) for o in e.ops)
        if isinstance(e, ast.UnaryOp):
            return self.pure(e.operand)
        if isinstance(e, ast.BoolOp):
            return all(self.pure(v) for v in e.values)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub, ast.Mult, ast.BitAnd)):
            return self.pure(e.left) and self.pure(e.right)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len":
            return all(self.pure(a) for a in e.args)
        return False

    def ev_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return Num("b", b_not(self.truth(v)))
        if isinstance(e.op, ast.USub):
            if isinstance(v, Arr):
                return self.lib.emap(self, T.num_neg, v)
            return T.num_neg(self.num(v))
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, Arr) and self.kind(v) == "b":
                return self.lib.emap(self, lambda x: Num("b", b_not(x.re)), v, k="b")
        raise Unsupported("unary operator")

    def num(self, v):
        if isinstance(v, Num):
            return v
        if isinstance(v, Arr) and not self.shape(v):
            return self.at(v)
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        raise Unsupported(f"number expected, got {type(v).__name__}")

    def ev_BinOp(self, e, fr):
        return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr))

    def binop(self, op, a, b):
        if isinstance(a, str) or isinstance(b, str) or isinstance(a, Opaque) or isinstance(b, Opaque):
            return self.lib.opaque_binop(self, op, a, b)
        if isinstance(op, ast.MatMult):
            return self.lib.matmul(self, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(op, ast.Add):
            return a + b
        if isinstance(a, ListRef) or isinstance(b, ListRef):
            if isinstance(a, ListRef) and isinstance(b, ListRef) and isinstance(op, ast.Add):
                x, y = self.heap.lists[a.ref], self.heap.lists[b.ref]
                if isinstance(x, list) and isinstance(y, list):
                    return self.heap.new_list(x + y)
            if isinstance(op, ast.Mult):
                l, c = (a, b) if isinstance(a, ListRef) else (b, a)
                x = self.heap.lists[l.ref]
                if isinstance(c, Num) and isinstance(x, list):
                    if c.conc:
                        return self.heap.new_list(x * int(c.re))
                    if len(x) == 1:
                        v = x[0]
                        return self.heap.new_list(SymSeq(self.ctx.rmax(c.re, 0), lambda i: v))
            if isinstance(a, Arr) or isinstance(b, Arr):
                if isinstance(a, ListRef):
                    a = self.lib.call(self, "numpy.array", [a], {})
                if isinstance(b, ListRef):
                    b = self.lib.call(self, "numpy.array", [b], {})
            else:
                raise Unsupported("list operator")
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.lib.ebinop(self, op, a, b)
        return self.scalar_op(op, self.num(a), self.num(b))

    def nonzero(self, b, what="division"):
        """Obligation: a divisor is not zero."""
        f = b_or(b_not(r_eq(b.re, 0)), b_not(r_eq(b.im, 0)) if b.k == "c" else False)
        self.ctx.oblige(what, f)

    def scalar_op(self, op, a, b):
        if isinstance(op, ast.Add):
            return a + b
        if isinstance(op, ast.Sub):
            return a - b
        if isinstance(op, ast.Mult):
            return a * b
        if isinstance(op, ast.Div):
            if not b.inf:
                self.nonzero(b)
            return a / b
        if isinstance(op, ast.Pow):
            return T.num_pow(a, b)
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            if a.k in "bi" and b.k in "bi":
                a, b = a.to("i"), b.to("i")
                if a.conc and b.conc:
                    if b.re == 0:
                        self.raise_("ZeroDivisionError")
                    return lift(a.re // b.re if isinstance(op, ast.FloorDiv) else a.re % b.re)
                self.ctx.oblige("positive-divisor", r_lt(0, b.re))
                x, y = zi(a.re), zi(b.re)
                return lift(x / y if isinstance(op, ast.FloorDiv) else x % y)
            self.ctx.oblige("positive-divisor", r_lt(0, b.re))
            q = T.num_floor(a / b)
            if isinstance(op, ast.FloorDiv):
                return q.to("f")
            return a - q.to("f") * b
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            if a.k == "b" and b.k == "b":
                if isinstance(op, ast.BitAnd):
                    return Num("b", b_and(a.re, b.re))
                if isinstance(op, ast.BitOr):
                    return Num("b", b_or(a.re, b.re))
                return Num("b", b_not(r_eq(a.re, b.re)))
            if a.conc and b.conc and a.k in "bi" and b.k in "bi":
                x, y = int(a.re), int(b.re)
                return lift({ast.BitAnd: x & y, ast.BitOr: x | y, ast.BitXor: x ^ y}[type(op)])
            if isinstance(op, ast.BitAnd) and b.conc and b.re >= 0 and (b.re & (b.re + 1)) == 0:
                return lift(zi(a.re) % (b.re + 1))
            raise Unsupported("bit operator")
        if isinstance(op, (ast.LShift, ast.RShift)) and b.conc:
            m = 2 ** int(b.re)
            return self.scalar_op(ast.Mult() if isinstance(op, ast.LShift) else ast.FloorDiv(), a, lift(m))
        if isinstance(op, ast.LShift) and a.conc and a.re == 1:
            return Num("i", T.F_POW2(zi(b.re)))
        raise Unsupported(f"operator {type(op).__name__}")

    def ev_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            v = self.compare(op, left, right)
            if len(e.ops) == 1:
                return v
            t = self.truth(v)
            if not is_z(t) and not t:
                return Num("b", False)
            out.append(t)
            left = right
        return Num("b", b_and(*out))

    OPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is None or b is None:
                r = a is None and b is None
            elif isinstance(a, (ClassVal, LibFn, str)) or isinstance(b, (ClassVal, LibFn, str)):
                r = a == b
            elif isinstance(a, Num) and isinstance(b, Num) and a.k == "b" and b.k == "b":
                return Num("b", r_eq(a.re, b.re) if isinstance(op, ast.Is) else b_not(r_eq(a.re, b.re)))
            elif isinstance(a, Obj) and isinstance(b, Obj):
                r = a.oid == b.oid
            else:
                raise Unsupported("identity comparison")
            return Num("b", r if isinstance(op, ast.Is) else not r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return Num("b", r if isinstance(op, ast.In) else b_not(r))
        o = self.OPS[type(op)]
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.lib.ecompare(self, o, a, b)
        if isinstance(a, Num) and isinstance(b, Num):
            return T.num_cmp(o, a, b)
        if o in ("==", "!="):
            r = self.equal(a, b)
            return Num("b", r if o == "==" else b_not(r))
        raise Unsupported(f"comparison of {type(a).__name__} and {type(b).__name__}")

    def equal(self, a, b):
        if isinstance(a, Num) and isinstance(b, Num):
            return T.num_cmp("==", a, b).re
        if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)) or a is None or b is None:
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                return self.lib.opaque_eq(self, a, b)
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return b_and(*[self.equal(x, y) for x, y in zip(a, b)])
        if isinstance(a, (LibFn, ClassVal)) or isinstance(b, (LibFn, ClassVal)):
            return a == b
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return self.lib.opaque_eq(self, a, b)
        if isinstance(a, ListRef) and isinstance(b, ListRef):
            x, y = self.heap.lists[a.ref], self.heap.lists[b.ref]
            if isinstance(x, list) and isinstance(y, list):
                return len(x) == len(y) and b_and(*[self.equal(p, q) for p, q in zip(x, y)])
        if isinstance(a, (str, Num, tuple)) and isinstance(b, (str, Num, tuple)) and type(a) is not type(b):
            return False
        raise Unsupported("equality")

    def contains(self, c, v):
        if isinstance(c, DictRef):
            d = self.heap.dicts[c.ref]
            if isinstance(v, Num) and not v.conc:
                return b_or(*[r_eq(v.re, k) for k in d if isinstance(k, int)])
            if isinstance(v, Opaque):
                return b_or(*[self.lib.opaque_eq(self, v, self.unkey(k)) for k in d])
            return self.key(v) in d
        if isinstance(c, LibMethod) and c.name == "keys":
            return self.contains(c.recv, v)
        if isinstance(c, str) and isinstance(v, str):
            return v in c
        if isinstance(c, SetVal) and c.items is not None:
            return b_or(*[self.equal(x, v) for x in c.items])
        it = self.iterate(c)
        if is_z(it.n):
            raise Unsupported("membership in a symbolic sequence")
        return b_or(*[self.equal(it.at(i), v) for i in range(int(it.n))])

    def ev_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in fr.env and not e.args:
            return SuperVal(fr.self_, fr.cls)
        fn = self.ev(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                it = self.iterate(self.ev(a.value, fr))
                if is_z(it.n):
                    raise Unsupported("starred argument")
                args += [it.at(i) for i in range(int(it.n))]
            else:
                args.append(self.ev(a, fr))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if isinstance(v, DictRef):
                    kw.update(self.heap.dicts[v.ref])
                else:
                    raise Unsupported("keyword expansion")
            else:
                kw[k.arg] = v
        return self.call(fn, args, kw)

    # ------------------------------------------------------ comprehensions
    def ev_ListComp(self, e, fr):
        return self.comp(e, fr)

    def ev_GeneratorExp(self, e, fr):
        return self.comp(e, fr)

    def ev_SetComp(self, e, fr):
        v = self.comp(e, fr)
        x = self.heap.lists[v.ref]
        if isinstance(x, list):
            return SetVal(x)
        raise Unsupported("set comprehension")

    def ev_DictComp(self, e, fr):
        v = self.comp(ast.ListComp(elt=ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), generators=e.generators), fr)
        x = self.heap.lists[v.ref]
        if isinstance(x, list):
            return self.heap.new_dict({self.key(k): w for k, w in x})
        raise Unsupported("dict comprehension")

    def comp(self, e, fr):
        g = e.generators[0]
        it = self.iterate(self.ev(g.iter, fr))
        n = fold(it.n) if is_z(it.n) else it.n
        env = dict(fr.env)
        f2 = Frame(env, fr.module, fr.cls, fr.self_, fr.func)
        if not is_z(n) and n <= 600:
            out = []
            for i in range(int(n)):
                self.assign(g.target, it.at(i), f2)
                if all(self.test(self.ev(c, f2)) for c in g.ifs):
                    if len(e.generators) > 1:
                        sub = ast.ListComp(elt=e.elt, generators=e.generators[1:])
                        out += self.heap.lists[self.comp(sub, f2).ref]
                    else:
                        out.append(self.ev(e.elt, f2))
            return self.heap.new_list(out)
        if g.ifs or len(e.generators) > 1:
            raise Unsupported("filtered comprehension of symbolic length")
        from .loops import comp_loop

        return comp_loop(self, e, g, it, n, f2)

    # ------------------------------------------------------------ indexing
    def ev_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(
                self.ev(s.lower, fr) if s.lower is not None else None,
                self.ev(s.upper, fr) if s.upper is not None else None,
                self.ev(s.step, fr) if s.step is not None else None,
            )
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(x, fr) for x in s.elts)
        return self.ev(s, fr)

    def ev_Subscript(self, e, fr):
        return self.index(self.ev(e.value, fr), self.ev_index(e.slice, fr))

    def norm_index(self, i, n, what="index"):
        """Python index -> raw index in [0, n), with the obligation."""
        if isinstance(i, Arr) and not self.shape(i):
            i = self.at(i)
        if not isinstance(i, Num) or i.k not in "bi":
            if isinstance(i, Num):
                self.ctx.oblige("integer-index", False)
            raise Unsupported("index")
        i = i.to("i").re
        i = fold(i) if is_z(i) else i
        if not is_z(i):
            r = i if i >= 0 else r_add(n, i)
        elif self.ctx.provable(r_le(0, i)):
            r = i
        elif self.ctx.provable(r_lt(i, 0)):
            r = r_add(n, i)
        elif self.ctx.prove_now(r_le(0, i), timeout=1000):
            r = i
        else:
            r = r_ite(r_lt(i, 0), r_add(i, n), i)
        r = fold(r) if is_z(r) else r
        self.ctx.oblige(what + "-in-bounds", b_and(r_le(0, r), r_lt(r, n)))
        return r

    def norm_slice(self, s, n):
        st = 1
        if s.step is not None:
            if not s.step.conc:
                raise Unsupported("symbolic slice step")
            st = int(s.step.re)
        c = self.ctx

        def bound(v, default):
            if v is None:
                return default
            v = self.num(v)
            if v.k not in "bi":
                self.ctx.oblige("integer-slice", False)
            v = v.to("i").re
            v = fold(v) if is_z(v) else v
            if is_z(v):
                if c.provable(r_le(0, v)):
                    pass
                elif c.provable(r_lt(v, 0)):
                    v = c.rmax(r_add(n, v), 0)
                else:
                    v = r_ite(r_lt(v, 0), r_ite(r_lt(r_add(v, n), 0), 0, r_add(v, n)), v)
            elif v < 0:
                v = c.rmax(r_add(n, v), 0)
            return c.rmin(v, n)

        if st > 0:
            lo, hi = bound(s.start, 0), bound(s.stop, n)
            d = r_sub(hi, lo)
            d = fold(d) if is_z(d) else d
            if st == 1:
                ln = c.rmax(d, 0)
            else:
                d = r_add(d, st - 1)
                ln = c.rmax(zi(d) / st if is_z(d) else d // st, 0)
            return lo, st, fold(ln) if is_z(ln) else ln
        if s.start is None and s.stop is None and st == -1:
            return r_sub(n, 1), -1, n
        raise Unsupported("negative slice step")

    def sub_view(self, a, ix):
        """View of basic indexing; None when advanced."""
        if not isinstance(ix, tuple):
            ix = (ix,)
        dims = [d for d in range(len(a.view)) if a.view[d][0] == "s"]
        if any(x is Ellipsis for x in ix):
            p = [i for i, x in enumerate(ix) if x is Ellipsis][0]
            ix = ix[:p] + (slice(None, None, None),) * (len(dims) - len(ix) + 1) + ix[p + 1 :]
        if any(x is None for x in ix):
            raise Unsupported("newaxis")
        if any(isinstance(x, (ListRef,)) or (isinstance(x, Arr) and self.shape(x)) for x in ix):
            return None
        if len(ix) > len(dims):
            self.ctx.oblige("index-rank", False)
            raise PathDone()
        view = list(a.view)
        for d, x in zip(dims, ix):
            _, s0, st, n = view[d]
            if isinstance(x, slice):
                lo, sp, ln = self.norm_slice(x, n)
                view[d] = ("s", r_add(s0, r_mul(st, lo)), st * sp, ln)
            else:
                i = self.norm_index(x, n)
                view[d] = ("i", r_add(s0, r_mul(st, i)))
        return tuple(view)

    def index(self, v, ix):
        if isinstance(v, Arr):
            view = self.sub_view(v, ix)
            if view is None:
                return self.lib.gather(self, v, ix)
            a = Arr(v.ref, view)
            if not view_shape(view):
                return self.at(a)
            return a
        if isinstance(v, (tuple, str)):
            if isinstance(ix, slice):
                b = [None if x is None else int(x.re) for x in (ix.start, ix.stop, ix.step)]
                return v[slice(*b)]
            if not ix.conc:
                i = self.norm_index(ix, len(v))
                return self.select(list(v), i)
            i = int(ix.re)
            if not -len(v) <= i < len(v):
                self.raise_("IndexError")
            return v[i]
        if isinstance(v, ListRef):
            x = self.heap.lists[v.ref]
            if isinstance(x, list):
                if isinstance(ix, slice):
                    b = [None if y is None else int(y.re) for y in (ix.start, ix.stop, ix.step)]
                    return self.heap.new_list(x[slice(*b)])
                if ix.conc:
                    i = int(ix.re)
                    if not -len(x) <= i < len(x):
                        self.raise_("IndexError")
                    return x[i]
                return self.select(x, self.norm_index(ix, len(x)))
            if isinstance(ix, slice):
                raise Unsupported("slice of a symbolic list")
            return x.fn(self.norm_index(ix, x.n))
        if isinstance(v, SymSeq):
            if isinstance(ix, slice):
                lo, st, ln = self.norm_slice(ix, v.n)
                return SymSeq(ln, lambda i: v.fn(r_add(lo, r_mul(st, i))), v.tag)
            return v.fn(self.norm_index(ix, v.n))
        if isinstance(v, DictRef):
            d = self.heap.dicts[v.ref]
            if isinstance(ix, Num) and not ix.conc:
                for k in d:
                    if self.ctx.branch(r_eq(ix.re, k)):
                        return d[k]
                self.raise_("KeyError")
            k = self.key(ix)
            if k not in d:
                self.raise_("KeyError")
            return d[k]
        return self.lib.index(self, v, ix)

    def select(self, items, i):
        if all(isinstance(x, Num) for x in items):
            r = items[-1]
            for j in range(len(items) - 2, -1, -1):
                r = num_ite(r_eq(i, j), items[j], r)
            return r
        for j in range(len(items)):
            if self.ctx.branch(r_eq(i, j)):
                return items[j]
        raise Infeasible()

    # -------------------------------------------------------------- stores
    def lossless(self, x, k):
        """Value of x stored as kind k, with the obligation that nothing is lost."""
        if x.k == k:
            return x
        if x.inf:
            if k not in "f":
                self.ctx.oblige("lossy-store", False)
            return x
        if T.ORDER[x.k] > T.ORDER[k]:
            if x.k == "c":
                self.ctx.oblige("lossy-store", r_eq(x.im, 0))
                return Num("f", x.re).to(k) if k == "f" else self.lossless(Num("f", x.re), k)
            if x.k == "f" and k in "i":
                y = T.num_trunc(x)
                self.ctx.oblige("lossy-store", r_eq(zr(y.re), x.re))
                return y
        return x.to(k)

    def store(self, v, ix, val):
        if isinstance(v, Arr):
            view = self.sub_view(v, ix)
            if view is None:
                self.lib.scatter(self, v, ix, val)
                return
            self.store_all(Arr(v.ref, view), val)
            return
        if isinstance(v, ListRef):
            x = self.heap.lists[v.ref]
            if isinstance(x, list) and isinstance(ix, Num) and ix.conc:
                i = int(ix.re)
                if not -len(x) <= i < len(x):
                    self.raise_("IndexError")
                y = list(x)
                y[i] = val
                self.heap.lists[v.ref] = y
                return
            if isinstance(x, SymSeq) and isinstance(ix, Num):
                i = self.norm_index(ix, x.n)
                f = x.fn
                self.heap.lists[v.ref] = SymSeq(x.n, lambda j: num_ite(r_eq(j, i), val, f(j)))
                return
        if isinstance(v, DictRef):
            if v.ref in self.heap.frozen:
                raise Unsupported("store in an element of a symbolic list")
            d = dict(self.heap.dicts[v.ref])
            d[self.key(ix)] = val
            self.heap.dicts[v.ref] = d
            return
        raise Unsupported(f"item store on {type(v).__name__}")

    def store_all(self, a, val):
        """a[...] = val with broadcasting."""
        cell = self.cell(a)
        if cell.frozen:
            raise Unsupported("write through a derived view")
        shape = self.shape(a)
        if isinstance(val, (ListRef, tuple, SymSeq)):
            val = self.lib.call(self, "numpy.array", [val], {})
        if isinstance(val, Arr) and self.shape(val):
            vs = self.shape(val)
            src = self.snap(val)
            sk = self.kind(val)
            off = len(shape) - len(vs)
            if off < 0:
                if all(not is_z(d) and d == 1 for d in vs[:-off]):
                    f0 = src
                    src = lambda *ix: f0(*([0] * -off), *ix)  # noqa
                    vs = vs[-off:]
                    off = 0
                else:
                    raise Unsupported("store of higher rank")
            bc = []
            for d, e in zip(vs, shape[off:]):
                if not is_z(d) and d == 1 and not (not is_z(e) and e == 1):
                    bc.append(True)
                else:
                    bc.append(False)
                    self.ctx.oblige("store-shape", r_eq(d, e))

            def value(*ix):
                jx = [0 if b else i for b, i in zip(bc, ix[off:])]
                return src(*jx)

            if T.ORDER[sk] > T.ORDER[cell.k]:
                # lossy unless shown otherwise, at an arbitrary element
                w = [T.fresh_int("w") for _ in shape]
                inb = b_and(*[b_and(r_le(0, i), r_lt(i, d)) for i, d in zip(w, shape)])
                x = value(*w)
                if x.k == "c":
                    self.ctx.oblige("lossy-store", T.b_implies(inb, r_eq(x.im, 0)), assume=False)
                else:
                    self.ctx.oblige("lossy-store", T.b_implies(inb, r_eq(zr(T.num_trunc(x).re), x.re)), assume=False)
            k = cell.k

            def conv(x):
                if x.k == "c" and k != "c":
                    x = Num("f", x.re)
                return x.to(k)

            vfn = lambda *ix: conv(value(*ix))  # noqa
        elif isinstance(val, (Num, Arr)):
            x = self.lossless(self.num(val), cell.k)
            vfn = lambda *ix: x  # noqa
        else:
            raise Unsupported(f"store of {type(val).__name__}")
        old = cell.fn
        view = a.view

        def fn(*idx):
            conds, jx = [], []
            for v, i, dim in zip(view, idx, cell.shape):
                if v[0] == "i":
                    conds.append(r_eq(i, v[1]))
                    continue
                if v[2] == 1 and not is_z(v[1]):
                    # bounds that hold of every index of the array are left out
                    e = r_eq(r_add(v[1], v[3]), dim)
                    e = fold(e) if is_z(e) else e
                    whole = not is_z(e) and bool(e)
                    j = r_sub(i, v[1])
                    if v[1] != 0 or v[1] is True:
                        conds.append(r_le(0, j))
                    if not whole:
                        conds.append(r_lt(j, v[3]))
                    jx.append(fold(j) if is_z(j) else j)
                    continue
                _, s0, st, n = v
                d = r_sub(i, s0)
                if st == 1:
                    j = d
                elif st == -1:
                    j = T.r_neg(d)
                else:
                    d = fold(d) if is_z(d) else d
                    if is_z(d):
                        m = abs(st)
                        q = zi(d if st > 0 else T.r_neg(d))
                        conds.append(q % m == 0)
                        j = q / m
                    else:
                        if d % st:
                            return old(*idx)
                        j = d // st
                j = fold(j) if is_z(j) else j
                conds.append(r_le(0, j))
                conds.append(r_lt(j, n))
                jx.append(j)
            c = b_and(*[fold(x) if is_z(x) else x for x in conds])
            c = fold(c) if is_z(c) else c
            if not is_z(c):
                return vfn(*jx) if c else old(*idx)
            return num_ite(c, vfn(*jx), old(*idx))

        self.heap.cells[a.ref] = Cell(cell.shape, cell.k, fn)
