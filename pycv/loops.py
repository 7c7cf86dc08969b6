"""Loops: cut by functional invariants.

A loop invariant gives, for every location the body modifies, its value as a
closed form of the ghost iteration number k, or (for a location nobody names)
nothing at all: it is then arbitrary at the loop head.  The forms come from the
contract, or are guessed from one symbolic iteration (counters, sums, element by
element stores, last values) and are then checked like any other."""

import ast

import z3

from . import terms as T
from .ctx import Infeasible, PathDone, PyExc
from .heap import *  # noqa
from .heap import Appended, Arr, Cell, DictRef, ListRef, Obj, Opaque, Poison, SymSeq, full_view, view_shape
from .terms import Num, Unsupported, b_and, b_implies, b_not, b_or, fold, is_z, lift, num_eq_formula, num_ite, r_add, r_eq, r_le, r_lt, r_sub, zb, zi, zr


class ArrForm:
    """Contents of an array: shape, kind, element function.  Without a shape: a one
    dimensional array of the shape it had before the loop."""

    def __init__(self, shape, k, fn):
        self.shape, self.k, self.fn = None if shape is None else tuple(shape), k, fn


class Pred:
    """A location known only through a predicate.

    make(I, k) -> value (may assume facts); holds(I, k, value) -> [(name, formula)]"""

    def __init__(self, make, holds, match=None):
        self.make, self.holds, self.match = make, holds, match


class SeqForm:
    """A list of n elements made by elem(I, i): numbers, arrays, mappings and tuples of these."""

    def __init__(self, n, elem):
        self.n, self.elem = n, elem

    def value(self, I):
        def at(i):
            v = self.elem(I, i)
            freeze(I, v)
            return v

        return SymSeq(self.n, at)

    def equal(self, I, cur):
        """[(part, formula)]: a list is this one; None when the types do not fit."""
        if isinstance(cur, list):
            obs = [("length", r_eq(len(cur), self.n))]
            for i, v in enumerate(cur):
                obs += differ(parts_equal(I, f"element {i}", v, self.elem(I, i), True))
            return obs
        if not isinstance(cur, SymSeq):
            return None
        obs = [("length", r_eq(cur.n, self.n))]
        while isinstance(cur, Appended):
            obs += differ(parts_equal(I, "element", cur.item, self.elem(I, cur.base.n), True))
            cur = cur.base
        w = T.fresh_int("w")
        obs += differ(parts_equal(I, "elements before", cur.fn(w), self.elem(I, w), b_and(r_le(0, w), r_lt(w, cur.n))))
        return obs


def freeze(I, v):
    """Elements of a list known by a form are made when they are read: no stores through them."""
    if isinstance(v, Arr):
        c = I.heap.cells[v.ref]
        I.heap.cells[v.ref] = Cell(c.shape, c.k, c.fn, True, c.base)
    elif isinstance(v, DictRef):
        I.heap.frozen.add(v.ref)
        for x in I.heap.dicts[v.ref].values():
            freeze(I, x)
    elif isinstance(v, Obj):
        I.heap.frozen.add(v.oid)
        for x in I.heap.objs[v.oid].fields.values():
            freeze(I, x)
    elif isinstance(v, tuple):
        for x in v:
            freeze(I, x)


def differ(obs):
    return [("type", False)] if obs is None else obs


def parts_equal(I, name, a, b, inb):
    """[(part, formula)]: two values are equal; None when their types differ."""
    if isinstance(a, Num) and isinstance(b, Num):
        return [(name, b_implies(inb, num_eq_formula(a, b)))]
    if isinstance(a, Arr) and isinstance(b, Arr):
        s1, s2 = I.shape(a), I.shape(b)
        if len(s1) != len(s2) or I.kind(a) != I.kind(b):
            return None
        f, g = I.snap(a), I.snap(b)
        fit = b_and(*[r_eq(p, q) for p, q in zip(s1, s2)])
        w = [T.fresh_int("w") for _ in s1]
        here = b_and(inb, fit, *[b_and(r_le(0, i), r_lt(i, d)) for i, d in zip(w, s1)])
        return [(name + ".shape", b_implies(inb, fit)), (name + ".element", b_implies(here, num_eq_formula(f(*w), g(*w))))]
    if isinstance(a, DictRef) and isinstance(b, DictRef):
        x, y = I.heap.dicts[a.ref], I.heap.dicts[b.ref]
        if set(x) != set(y):
            return None
        ps = [parts_equal(I, f"{name}[{k}]", x[k], y[k], inb) for k in x]
    elif isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        ps = [parts_equal(I, f"{name}.{i}", x, y, inb) for i, (x, y) in enumerate(zip(a, b))]
    elif isinstance(a, Opaque) and isinstance(b, Opaque):
        from .lib import val_term

        return [(name, b_implies(inb, val_term(a) == val_term(b)))]
    elif isinstance(a, Obj) and isinstance(b, Obj):
        p, q = I.heap.objs[a.oid], I.heap.objs[b.oid]
        if p.cls != q.cls or set(p.fields) != set(q.fields):
            return None
        ps = [parts_equal(I, f"{name}.{k}", p.fields[k], q.fields[k], inb) for k in p.fields]
    else:
        return [] if same(a, b) else None
    return None if any(p is None for p in ps) else [o for p in ps for o in p]


class LoopSpec:
    """forms(I, k) -> {label: Num | ArrForm | Pred}; `where` optionally ties a label
    to a heap field ("self", "_s").  facts(I, k) -> formulas assumed at the head
    (definitional unfoldings only)."""

    def __init__(self, name, forms, where=None, facts=None, optional=(), peel=0, final=None, depth=None, claims=None):
        self.name, self.forms, self.where, self.facts, self.optional, self.peel = name, forms, where or {}, facts, optional, peel
        self.claims = claims  # claims(I, k) -> [(name, formula)] proved after the test, then used in the body
        self.depth = depth  # of the nest the loop is in, when that matters
        self.final = final  # final(I) -> {label: form}: what a location is once a while loop ends


def mentions_havoc(e, seen=None):
    if not is_z(e):
        return False
    seen = set() if seen is None else seen
    todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            n = x.decl().name()
            if n.startswith("h!"):
                return True
            t = T.TEMPLATES.get(n)
            if t is not None:
                for c in list(t.comps) + list(t.dims):
                    if mentions_havoc(c, seen):
                        return True
            todo.extend(x.children())
    return False


def num_mentions(v):
    return mentions_havoc(v.re) or mentions_havoc(v.im) if not v.inf else False


def sub_num(v, pairs):
    if v.inf:
        return v
    s = lambda e: z3.substitute(e, *pairs) if is_z(e) else e  # noqa
    return Num(v.k, s(v.re), s(v.im) if v.k == "c" else 0)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Num) and isinstance(b, Num):
        if a.k != b.k:
            return False
        f = num_eq_formula(a, b)
        return not is_z(f) and bool(f)
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a.ref == b.ref and a.view == b.view
    if isinstance(a, (ListRef, DictRef)) and type(a) is type(b):
        return a.ref == b.ref
    if isinstance(a, Obj) and isinstance(b, Obj):
        return a.oid == b.oid
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (str, bytes)) and a == b:
        return True
    return False


class State:
    """Access to locations: ("var", name) ("cell", ref) ("field", oid, name) ("list", ref) ("dict", ref)"""

    def __init__(self, env, heap):
        self.env, self.heap = env, heap

    def get(self, loc):
        k = loc[0]
        if k == "var":
            return self.env.get(loc[1], Poison(f"{loc[1]} may be unbound"))
        if k == "cell":
            return self.heap.cells[loc[1]]
        if k == "field":
            return self.heap.objs[loc[1]].fields.get(loc[2], Poison("unset field"))
        if k == "list":
            return self.heap.lists[loc[1]]
        return self.heap.dicts[loc[1]]

    def put(self, loc, v):
        k = loc[0]
        if k == "var":
            self.env[loc[1]] = v
        elif k == "cell":
            self.heap.cells[loc[1]] = v
        elif k == "field":
            self.heap.objs[loc[1]].fields[loc[2]] = v
        elif k == "list":
            self.heap.lists[loc[1]] = v
        else:
            self.heap.dicts[loc[1]] = v


def modified(env0, heap0, env1, heap1):
    out = []
    for n in set(env0) | set(env1):
        if n not in env0 or n not in env1 or not same(env0[n], env1[n]):
            out.append(("var", n))
    for r, c in heap0.cells.items():
        if heap1.cells.get(r) is not c:
            out.append(("cell", r))
    for o, rec in heap0.objs.items():
        f1 = heap1.objs[o].fields
        for n in set(rec.fields) | set(f1):
            if n not in rec.fields:
                if o.startswith(("class:", "module:")):
                    continue  # lazily evaluated class constants
                out.append(("field", o, n))
            elif n not in f1 or not same(rec.fields[n], f1[n]):
                out.append(("field", o, n))
    for r, x in heap0.lists.items():
        y = heap1.lists.get(r)
        if y is x:
            continue
        if isinstance(x, list) and isinstance(y, list) and len(x) == len(y) and all(same(p, q) for p, q in zip(x, y)):
            continue
        out.append(("list", r))
    for r, x in heap0.dicts.items():
        y = heap1.dicts.get(r)
        if y is not x and (y is None or set(x) != set(y) or not all(same(x[q], y[q]) for q in x)):
            out.append(("dict", r))
    return out


def havoc_cell(ctx, shape, k):
    n = T.Fresh.name("h!a")
    ds = [z3.IntSort()] * len(shape)
    if k == "c":
        f, g = z3.Function(n + "r", *ds, z3.RealSort()), z3.Function(n + "i", *ds, z3.RealSort())
        return Cell(shape, k, lambda *ix: Num("c", f(*[zi(i) for i in ix]), g(*[zi(i) for i in ix])))
    s = {"f": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}[k]
    if not shape:
        c = z3.Const(n, s)
        return Cell(shape, k, lambda: Num(k, c))
    f = z3.Function(n, *ds, s)
    return Cell(shape, k, lambda *ix: Num(k, f(*[zi(i) for i in ix])))


def havoc_num(k):
    n = T.Fresh.name("h!v")
    if k == "c":
        return Num("c", z3.Real(n + "r"), z3.Real(n + "i"))
    s = {"f": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}[k]
    return Num(k, z3.Const(n, s))


class Loop:
    def __init__(self, I, st, fr, it):
        self.I, self.st, self.fr, self.it = I, st, fr, it
        self.ctx = I.ctx
        self.targets = set()
        if it is not None:
            for n in ast.walk(st.target):
                if isinstance(n, ast.Name):
                    self.targets.add(n.id)

    # run the body once; returns "next" or "break", anything else propagates
    def body(self, env, k):
        from .interp import Frame, _Break, _Continue

        I = self.I
        fr = Frame(env, self.fr.module, self.fr.cls, self.fr.self_, self.fr.func)
        if self.it is not None:
            I.assign(self.st.target, self.it.at(k), fr)
        else:
            if not I.test(I.ev(self.st.test, fr)):
                raise PathDone()
        if getattr(self, "after", None):
            self.after()
        I.outer.append(r_add(k, getattr(self, "offset", 0)))  # the iteration, for the specifications of inner loops
        try:
            I.block(self.st.body, fr)
        except _Continue:
            pass
        except _Break:
            return "break"
        finally:
            I.outer.pop()
        return "next"

    def dry(self, install, k):
        """Explore one iteration from the state made by install(state)."""
        from .interp import _Return

        ctx = self.ctx

        def run(env):
            st = State(env, ctx.heap)
            install(st)
            ctx.assume(zi(k) >= 0)
            if self.it is not None:
                ctx.assume(r_lt(k, self.it.n))
            env0, heap0 = dict(env), ctx.heap.copy()
            try:
                how = self.body(env, k)
            except (_Return, PyExc):
                how = "exit"
            return how, env0, heap0, env

        return ctx.explore(run, lambda: dict(self.fr.env))

    def discover(self):
        """Set of modified locations with a prototype for each."""
        if not self.ctx.shallow:
            return self.discover_()
        # the same loop met again with values of the same types
        key, refs = self.signature()
        memo = self.ctx.discovered
        back = {r: i for i, r in enumerate(refs)}
        if key in memo:
            if memo[key] is not None:
                return {(l[0], refs[l[1]], *l[2:]) if l[0] != "var" else l: p for l, p in memo[key].items()}
            return self.discover_()
        protos = self.discover_()
        try:
            memo[key] = {(l[0], back[l[1]], *l[2:]) if l[0] != "var" else l: p for l, p in protos.items()}
        except KeyError:
            memo[key] = None
        return protos

    def signature(self):
        """(types and identities of everything reachable, references in order of appearance)"""
        h, refs, ids, out = self.ctx.heap, [], {}, [id(self.st)]

        def ref(r):
            if r in ids:
                return ids[r], True
            ids[r] = len(refs)
            refs.append(r)
            return ids[r], False

        def dim(d):
            return None if is_z(d) else d

        def sig(v):
            if isinstance(v, Num):
                return ("inf", v.re.sign) if v.inf else (v.k, dim(v.re), dim(v.im) if v.k == "c" else 0)
            if isinstance(v, Arr):
                c, known = h.cells[v.ref], ref(v.ref)
                return ("arr", known[0], c.k, tuple(map(dim, c.shape)), tuple(map(dim, view_shape(v.view))), c.base is not None)
            if isinstance(v, Obj):
                i, known = ref(v.oid)
                rec = h.objs[v.oid]
                return ("obj", i, rec.cls) + (() if known else tuple((n, sig(x)) for n, x in sorted(rec.fields.items())))
            if isinstance(v, ListRef):
                i, known = ref(v.ref)
                x = h.lists[v.ref]
                return ("list", i) + (() if known else tuple(map(sig, x)) if isinstance(x, list) else (type(x).__name__,))
            if isinstance(v, DictRef):
                i, known = ref(v.ref)
                return ("dict", i) + (() if known else tuple((n, sig(x)) for n, x in h.dicts[v.ref].items()))
            if isinstance(v, tuple):
                return ("tuple",) + tuple(map(sig, v))
            if v is None or isinstance(v, (str, bool, int)):
                return ("value", v)
            if isinstance(v, Opaque):
                self.ctx.kept.append(v)
                return ("opaque", v.tag, id(v) if v.info else 0)
            self.ctx.kept.append(v)
            return (type(v).__name__, 0 if isinstance(v, Poison) else id(v))

        self.ctx.kept.append(self.st)
        for n, v in sorted(self.fr.env.items()):
            out.append((n, sig(v)))
        out.append(dim(self.it.n) if self.it is not None else "while")
        out.append(sig(self.fr.self_) if self.fr.self_ is not None else None)
        return tuple(out), refs

    def discover_(self):
        protos = {}
        k = z3.Int(T.Fresh.name("kd"))
        for _ in range(8):
            self.ctx.shallow += 1  # types only: inner loops need no invariant
            try:
                outs = self.dry(lambda st: self.havoc_all(st, protos), k)
            finally:
                self.ctx.shallow -= 1
            changed = False
            for (how, env0, heap0, env1), _pc, heap1 in outs:
                for loc in modified(env0, heap0, env1, heap1):
                    if loc[0] == "var" and loc[1] in self.targets:
                        continue
                    if loc[0] in ("cell", "list", "dict") and loc[1] not in self.heap0_refs(loc[0]):
                        continue
                    if loc[0] == "field" and loc[1] not in self.ctx.heap.objs:
                        continue
                    p = self.proto(loc, env1, heap1, protos.get(loc))
                    if loc not in protos or protos[loc] != p:
                        protos[loc] = p
                        changed = True
            if not changed:
                return protos
        raise Unsupported("loop state does not stabilize")

    def heap0_refs(self, kind):
        h = self.ctx.heap
        return {"cell": h.cells, "list": h.lists, "dict": h.dicts}[kind]

    def proto(self, loc, env1, heap1, old):
        """Type of a location over all iterations: ("num", kind) ("arr", rank, kind) ("cell",) or ("poison",)"""
        if loc[0] == "cell":
            return ("cell",)
        if loc[0] in ("list", "dict"):
            return (loc[0],)
        st0 = State(self.fr.env, self.ctx.heap)
        vs = [st0.get(loc), State(env1, heap1).get(loc)]
        hs = [self.ctx.heap, heap1]
        p = old
        unbound = False
        for v, h in zip(vs, hs):
            if isinstance(v, Poison):
                unbound = True
                continue
            q = self.type_of(v, h)
            if p is None or p == q or p[0] == "unbound":
                p = q if p is None or p[0] != "unbound" else ("unbound", q if p[1] in (None, q) else ("poison",))
            elif p[0] == q[0] == "num":
                p = ("num", T.kmax(p[1], q[1], "b"))
            elif p[0] == q[0] == "arr" and p[1] == q[1]:
                p = ("arr", p[1], T.kmax(p[2], q[2], "b"))
            else:
                p = ("poison",)
        if unbound and p is not None and p[0] != "unbound":
            p = ("unbound", p)
        return p or ("poison",)

    def type_of(self, v, h):
        if isinstance(v, Num):
            return ("inf",) if v.inf else ("num", v.k)
        if isinstance(v, Arr):
            return ("arr", len(view_shape(v.view)), h.cells[v.ref].k)
        if isinstance(v, str) or isinstance(v, Opaque) and v.tag == "str":
            return ("text",)
        if isinstance(v, Opaque) and v.tag == "traceback":
            return ("traceback",)
        return ("poison",)

    def havoc_all(self, st, protos, forms=None, k=None):
        # an array that shares the memory of another one after that one
        shares = lambda loc: loc[0] == "cell" and loc[1] in st.heap.cells and st.heap.cells[loc[1]].base is not None  # noqa
        for loc, p in sorted(protos.items(), key=lambda x: (shares(x[0]), str(x[0]))):
            f = (forms or {}).get(loc)
            if f is not None:
                st.put(loc, self.value(f, k, loc, st))
                continue
            self.havoc(st, loc, p)

    def havoc(self, st, loc, p):
        if p[0] == "cell":
            c = st.heap.cells[loc[1]]
            st.put(loc, havoc_cell(self.ctx, c.shape, c.k))
        elif p[0] == "num":
            st.put(loc, havoc_num(p[1]))
        elif p[0] == "arr":
            shape = []
            for _ in range(p[1]):
                d = z3.Int(T.Fresh.name("h!d"))
                self.ctx.assume(d >= 0)
                shape.append(d)
            c = havoc_cell(self.ctx, tuple(shape), p[2])
            st.put(loc, st.heap.new_cell(shape, p[2], c.fn))
        elif p[0] == "list":
            x = st.heap.lists[loc[1]]
            if not (isinstance(x, list) and not x):
                st.heap.lists[loc[1]] = [Poison("list modified in a loop")]
        elif p[0] == "dict":
            st.heap.dicts[loc[1]] = {"?": Poison("dict modified in a loop")}
        elif p[0] == "text":
            st.put(loc, Opaque("str", None))
        elif p[0] == "traceback":
            d = z3.Int(T.Fresh.name("h!d"))
            self.ctx.assume(d >= 0)
            st.put(loc, self.I.lib.effects.traceback(d))
        elif p[0] in ("unbound", "poison", "inf"):
            if loc[0] == "var":
                st.put(loc, Poison(f"value of {loc[1]} at a loop head"))
            else:
                st.put(loc, Poison(f"value of {loc[2]} at a loop head"))

    def value(self, f, k, loc, st):
        v = f(k)
        if isinstance(v, Pred):
            return v.make(self.I, k)
        if isinstance(v, SeqForm):
            return v.value(self.I)
        if isinstance(v, ArrForm):
            if loc[0] == "cell":
                return Cell(st.heap.cells[loc[1]].shape if v.shape is None else v.shape, v.k, v.fn)
            if v.shape is None:
                raise Unsupported("form without a shape for a variable")
            return st.heap.new_cell(v.shape, v.k, v.fn)
        if v is None:
            return Poison(f"value of {loc[1]} before the loop")
        return v

    # equality of a location with a form at k
    def equal_obs(self, loc, f, k, st):
        """[(part, formula)]; None when the types do not fit."""
        v = f(k)
        cur = st.get(loc)
        if isinstance(v, Pred):
            if v.match is not None and not v.match(self.I, cur):
                return None
            return v.holds(self.I, k, cur)
        if isinstance(v, SeqForm):
            return v.equal(self.I, cur)
        if isinstance(v, Num):
            if not isinstance(cur, Num):
                return None
            return [("value", num_eq_formula(cur, v)), ("kind", T.ORDER[cur.k] <= T.ORDER[v.k])]
        if isinstance(v, SymSeq):
            if not isinstance(cur, (list, SymSeq)):
                return None
            n = len(cur) if isinstance(cur, list) else cur.n
            at = (lambda i: self.I.select(cur, i) if is_z(i) else cur[i]) if isinstance(cur, list) else cur.fn
            w = T.fresh_int("w")
            inb = b_and(r_le(0, w), r_lt(w, n))
            if isinstance(cur, list) and not cur:
                return [("length", r_eq(n, v.n))]
            x, y = at(w), v.fn(w)
            if isinstance(x, Poison):
                return None
            return [("length", r_eq(n, v.n)), ("element", b_implies(inb, num_eq_formula(x, y)))]
        if isinstance(v, ArrForm):
            if isinstance(cur, Cell):
                shape, kk, fn = cur.shape, cur.k, cur.fn
            elif isinstance(cur, Arr):
                I = self.I
                c = st.heap.cells[cur.ref]
                shape, kk = view_shape(cur.view), c.k
                fn = lambda *ix: c.fn(*view_index_(cur.view, ix))  # noqa
            else:
                return None
            want = v.shape
            if want is None:
                if not isinstance(cur, Cell) or len(shape) != 1:
                    return None
                want = shape
            if len(shape) != len(want) or kk != v.k:
                return None
            obs = [("shape", b_and(*[r_eq(p, q) for p, q in zip(shape, want)]))]
            if len(shape) == 1 and not is_z(shape[0]) and shape[0] <= 4:
                for i in range(int(shape[0])):
                    x, y = fn(i), v.fn(i)
                    obs.append((f"element {i}", r_eq(x.re, y.re)))
                    if kk == "c":
                        obs.append((f"element {i}.imag", r_eq(x.im, y.im)))
                return obs
            w = [T.fresh_int("w") for _ in shape]
            inb = b_and(*[b_and(r_le(0, i), r_lt(i, d)) for i, d in zip(w, shape)])
            x, y = fn(*w), v.fn(*w)
            obs.append(("element", b_implies(inb, r_eq(x.re, y.re))))
            if kk == "c":
                obs.append(("element.imag", b_implies(inb, r_eq(x.im, y.im))))
            return obs
        return None


def view_index_(view, ix):
    from .heap import view_index

    return view_index(view, ix)


def label(I, loc):
    if loc[0] == "var":
        return loc[1]
    if loc[0] == "field":
        return f"{loc[1]}.{loc[2]}"
    if loc[0] in ("cell", "list"):
        for o, rec in I.heap.objs.items():
            for n, v in rec.fields.items():
                if isinstance(v, (Arr, ListRef)) and v.ref == loc[1]:
                    return f"{rec.cls}.{n}"
    return str(loc[1])


def cut_loop(I, st, fr, it=None):
    ctx = I.ctx
    L = Loop(I, st, fr, it)
    n = it.n if it is not None else None
    I.loopno = getattr(I, "loopno", 0) + 1
    saved_specs = list(I.loops)
    here = [sp for sp in I.loops if sp.depth is None or sp.depth == len(I.outer)]
    peel = max([sp.peel for sp in here] or [0])
    if peel and it is not None:
        # the first iterations one by one, the others by invariant
        from .interp import Iter

        for i in range(peel):
            if not ctx.branch(r_lt(i, it.n)):
                I.block(st.orelse, fr)
                return
            if L.body(fr.env, i) == "break":
                return
        full = it
        it = Iter(r_sub(full.n, peel), lambda i: full.at(r_add(i, peel)))
        n, L.it, L.offset = it.n, it, peel

    protos = L.discover()
    s0 = State(fr.env, ctx.heap)
    entry = {loc: s0.get(loc) for loc in protos}
    forms, labels = {}, {}
    spec = choose_spec(I, L, protos, s0, forms, labels) if not ctx.shallow else None
    auto = {} if ctx.shallow else guess(I, L, protos, forms, entry) if any(loc not in forms and p[0] != "unbound" for loc, p in protos.items()) else {}

    # invariant templates of the contract, for every location they hold of at entry
    for loc in protos if not ctx.shallow else ():
        for pred in getattr(I, "templates", ()):
            if loc in forms or loc in auto:
                break
            try:
                obs = pred.holds(I, 0, s0.get(loc)) if pred.match(I, s0.get(loc)) else None
            except Unsupported:
                obs = None
            if obs is not None and all(ctx.prove_now(g, timeout=1500) for _, g in obs):
                auto[loc] = lambda k, pred=pred: pred

    # keep only guesses that are inductive
    for _ in range(len(auto) + 1):
        bad = check_guesses(I, L, protos, forms, auto, s0)
        if not bad:
            break
        for loc in bad:
            auto.pop(loc)
    probe = z3.Int(T.Fresh.name("kp"))
    auto = {loc: f for loc, f in auto.items() if f(probe) is not None}
    allf = dict(auto)
    allf.update(forms)
    split_opt = T.AxiomOptions(split=True, unfold=ctx.opt.unfold, ext=True, rounds=ctx.opt.rounds)
    name = spec.name if spec else f"loop{I.loopno}"
    ctx.scope.append(name)
    try:
        # entry
        for loc, f in allf.items():
            if loc in forms:
                for part, g in L.equal_obs(loc, f, 0, s0):
                    ctx.oblige(f"entry:{labels[loc]}.{part}", g)
        # types only: what the body leaves is known from the discovery
        step = not (ctx.shallow and it is not None) and ctx.choose(2) == 0
        if step or it is None:
            k = T.fresh_int("k")
            ctx.assume(k >= 0)
            if it is not None:
                ctx.assume(r_lt(k, n))
        else:
            k = n
        if it is None:
            prev_cond(I, L, protos, allf, k)
        L.havoc_all(s0, protos, allf, k)
        if spec is not None and spec.facts is not None:
            for g in spec.facts(I, k):
                ctx.assume(g)
        if step:
            def claims():
                for nm, g in spec.claims(I, k):
                    ctx.oblige(f"claim:{nm}", g)

            if spec is not None and spec.claims is not None:
                L.after = claims
            env0, heap0 = dict(fr.env), ctx.heap.copy()
            ctx.scope.append("body")
            try:
                how = L.body(fr.env, k)
            finally:
                ctx.scope.pop()
                L.after = None
            for loc in modified(env0, heap0, fr.env, ctx.heap):
                if loc not in protos and not (loc[0] == "var" and loc[1] in L.targets):
                    raise Unsupported("loop modifies an undiscovered location")
                if loc in protos and loc not in allf and L.proto(loc, fr.env, ctx.heap, protos[loc]) != protos[loc]:
                    raise Unsupported("loop changes the type of a location")
            if how == "break":
                return
            s1 = State(fr.env, ctx.heap)
            # numbers first, then used for what is left when the specification says so
            chain = spec is not None and spec.claims is not None
            isnum = lambda f: isinstance(f(r_add(k, 1)), Num)  # noqa
            for loc, f in sorted(allf.items(), key=lambda x: not isnum(x[1])) if chain else allf.items():
                obs = L.equal_obs(loc, f, r_add(k, 1), s1)
                if obs is None:
                    ctx.oblige(f"preserve:{labels.get(loc, label(I, loc))}.type", False)
                for part, g in obs or []:
                    ctx.oblige(f"preserve:{labels.get(loc, label(I, loc))}.{part}", g, split_opt if loc in auto else None, assume=chain and isnum(f))
            raise PathDone()
        # exit
        if it is not None:
            for t in L.targets:
                fr.env[t] = Poison(f"loop variable {t} after the loop")
            if ctx.provable(r_lt(0, n)):
                I.assign(st.target, it.at(r_sub(n, 1)), fr)
        else:
            if I.test(I.ev(st.test, fr)):
                raise PathDone()
            if spec is not None and spec.final is not None:
                end = State(fr.env, ctx.heap)
                last = spec.final(I)
                for loc, lab in labels.items():
                    if lab in last:
                        f = lambda k, lab=lab: last[lab]  # noqa
                        for part, g in L.equal_obs(loc, f, 0, end):
                            ctx.oblige(f"exit:{lab}.{part}", g, assume=False)
                        end.put(loc, L.value(f, 0, loc, end))
    finally:
        ctx.scope.pop()
        I.loops = saved_specs
    I.block(st.orelse, fr)


def prev_cond(I, L, protos, forms, k):
    """A while loop at its k-th test passed the test before: (k = 0 or cond at k - 1)."""
    from .interp import Frame

    ctx = I.ctx
    fr = L.fr

    def run(env):
        st = State(env, ctx.heap)
        L.havoc_all(st, protos, forms, k - 1)
        return I.truth(I.ev(L.st.test, Frame(env, fr.module, fr.cls, fr.self_, fr.func)))

    try:
        outs = ctx.explore(run, lambda: dict(fr.env))
    except Unsupported:
        return
    alts = [b_and(*pc, t) for t, pc, _ in outs]
    ctx.assume(b_or(k == 0, *alts))


def choose_spec(I, L, protos, s0, forms, labels):
    """Match the labels of a loop specification of the contract to modified locations."""
    for spec in I.loops:
        if spec.depth is not None and spec.depth != len(I.outer):
            continue
        try:
            fs = spec.forms(I, 0)
        except Unsupported:
            continue
        got, used = {}, set()
        ok = True
        for lab in fs:
            cands = []
            want = spec.where.get(lab)
            for loc, p in protos.items():
                if loc in got:
                    continue
                if want is not None:
                    if not at_field(I, loc, want):
                        continue
                elif loc[0] == "field":
                    continue
                f = form_fn(I, spec, lab)
                try:
                    obs = L.equal_obs(loc, f, 0, s0)
                except Unsupported:
                    obs = None
                if obs is None:
                    continue
                if all(I.ctx.prove_now(g, timeout=4000) for _, g in obs):
                    cands.append(loc)
            v = fs[lab]
            if len(cands) > 1 and isinstance(v, Num):
                cands = [loc for loc in cands if protos[loc] == ("num", v.k)] or cands
            if len(cands) > 1:
                cands = best_candidates(I, L, protos, spec, lab, cands, got)
            if not cands:
                if want is not None and not optional(spec, lab):
                    # the location is there but does not satisfy the form: keep it, so
                    # that the failed entry obligation carries the name
                    for loc in protos:
                        if at_field(I, loc, want) and L.equal_obs(loc, form_fn(I, spec, lab), 0, s0) is not None:
                            cands = [loc]
                if not cands:
                    if optional(spec, lab):
                        continue
                    ok = False
                    break
            got[cands[0]] = lab
        if ok:
            for loc, lab in got.items():
                forms[loc] = form_fn(I, spec, lab)
                labels[loc] = lab
            return spec
    return None


def best_candidates(I, L, protos, spec, lab, cands, got):
    """Several locations have the right entry value: keep those for which the form
    is preserved by a trial iteration (types and unchanged shape only when cheap)."""
    ctx = I.ctx
    k = T.mark_bound(z3.Int(T.Fresh.name("kt")))
    keep = []
    for c in cands:
        forms = {loc: form_fn(I, spec, lb) for loc, lb in got.items()}
        forms[c] = form_fn(I, spec, lab)
        res = []

        def run(env, forms=forms, c=c):
            from .interp import _Return

            stt = State(env, ctx.heap)
            L.havoc_all(stt, protos, forms, k)
            ctx.assume(k >= 0)
            if L.it is not None:
                ctx.assume(r_lt(k, L.it.n))
            try:
                how = L.body(env, k)
            except (_Return, PyExc):
                return True
            if how == "break":
                return True
            obs = L.equal_obs(c, forms[c], k + 1, State(env, ctx.heap))
            return obs is not None and all(ctx.prove_now(g, timeout=1500) for _, g in obs)

        try:
            res = ctx.explore(run, lambda: dict(L.fr.env))
        except Unsupported:
            continue
        if all(r for r, _, _ in res):
            keep.append(c)
    return keep or cands


def optional(spec, lab):
    return lab in spec.optional


def form_fn(I, spec, lab):
    return lambda k: spec.forms(I, k)[lab]


def at_field(I, loc, path):
    """Is loc the field path[1] of parameter path[0] (or the array stored there)?"""
    o = I.ctx.g["params"].get(path[0]) if isinstance(path[0], str) else path[0]
    if not isinstance(o, Obj):
        return False
    name = field_name(I, o, path[1])
    if loc[0] == "field":
        return loc[1] == o.oid and loc[2] == name
    if loc[0] in ("cell", "list"):
        v = I.heap.objs[o.oid].fields.get(name)
        return isinstance(v, (Arr, ListRef)) and v.ref == loc[1]
    return False


def field_name(I, o, name):
    from .std import fname

    return fname(I, I.heap.objs[o.oid].cls, name)


def merge(vals):
    """[(cond, value)] -> one value, or None."""
    if not vals:
        return None
    v = vals[-1][1]
    for c, w in reversed(vals[:-1]):
        if isinstance(v, Num) and isinstance(w, Num):
            if v.inf or w.inf:
                if v.inf and w.inf:
                    continue
                return None
            v = num_ite(c, w, v)
        elif isinstance(v, Cell) and isinstance(w, Cell) and v.k == w.k and len(v.shape) == len(w.shape):
            v = Cell(v.shape, v.k, (lambda p, q, c: lambda *ix: num_ite(c, p.fn(*ix), q.fn(*ix)))(w, v, c))
        elif same(v, w):
            continue
        else:
            return None
    return v


def guess(I, L, protos, forms, entry):
    ctx = I.ctx
    auto = {}
    kk = T.mark_bound(z3.Int(T.Fresh.name("!jk")))

    def run(counters, entry_cells=False, skip=()):
        """One iteration; returns {loc: (start value, merged end value)}"""
        fs = dict(forms)
        fs.update(counters)

        def install(st):
            if entry_cells:
                keep = {loc: p for loc, p in protos.items() if loc in fs}
                L.havoc_all(st, keep, fs, kk)
            else:
                L.havoc_all(st, protos, fs, kk)

        outs = [(r, pc, h) for r, pc, h in L.dry(install, kk) if r[0] == "next"]
        if not outs or len(outs) > 12:
            return {}
        res = {}
        for loc in protos:
            vals = []
            for (_, env0, heap0, env1), pc, h in outs:
                vals.append((b_and(*pc), State(env1, h).get(loc)))
            (_, env0, heap0, _), _, _ = outs[0]
            res[loc] = (State(env0, heap0).get(loc), merge(vals) if len(vals) > 1 else vals[0][1], outs[0][2] if len(outs) == 1 else None)
        return res

    try:
        r1 = run({})
    except Unsupported:
        return auto
    # counters
    for loc, (a, b, _) in r1.items():
        if loc in forms or not (isinstance(a, Num) and isinstance(b, Num)) or a.inf or b.inf or a.k == "c":
            continue
        v0 = entry[loc]
        if not isinstance(v0, Num) or v0.inf or is_z(a.re) is False:
            continue
        d = difference(b, a)
        if d is not None and not mentions_havoc(d) and not (is_z(d) and T.occurs(kk, d)):
            auto[loc] = (lambda v0, d, kd: lambda k: (v0 + lift(k) * lift(d)).to(kd))(v0, d, a.k)
    try:
        r2 = run(auto) if auto else r1
        r3 = run(auto, entry_cells=True)
    except Unsupported:
        return auto
    for loc, (a, b, h) in r2.items():
        if loc in forms or loc in auto:
            continue
        v0 = entry[loc]
        if isinstance(b, Num) and not b.inf:
            if isinstance(a, Num) and isinstance(v0, Num) and not v0.inf:
                d = num_difference(b, a)
                if d is not None and not num_mentions(d):
                    kd = a.k

                    def acc(k, v0=v0, d=d, kd=kd):
                        if not is_z(k) and k == 0:
                            return v0.to(kd)
                        return (v0 + T.num_sum(k, lambda i: sub_num(d, [(kk, zi(i))]), d.k)).to(kd)

                    auto[loc] = acc
                    continue
            if not num_mentions(b):
                auto[loc] = last_num(v0, b, kk)
                continue
        if isinstance(b, Arr) and h is not None and loc[0] in ("var", "field"):
            c = h.cells[b.ref]
            f = last_arr(I, c, b, kk, v0, entry, ctx)
            if f is not None:
                auto[loc] = f
            continue
        if isinstance(b, Cell):
            c = r3.get(loc, (None, None, None))[1]
            if isinstance(c, Cell):
                f = map_cell(I, L, c, b, entry[loc], kk)
                if f is not None:
                    auto[loc] = f
            continue
        if loc[0] == "list" and isinstance(b, list) and isinstance(v0, list):
            if not v0 and len(b) == 1 and isinstance(b[0], Num) and not num_mentions(b[0]):
                x = b[0]
                auto[loc] = lambda k, x=x: SymSeq(k, lambda i: sub_num(x, [(kk, zi(i))]))
    return auto


def difference(b, a):
    try:
        p = T.poly_add(T.poly_of(b.re), T.poly_scale(T.poly_of(a.re), -1))
    except Unsupported:
        return None
    return T.unz(T.fold(T.poly_expr(p))) if p else 0


def num_difference(b, a):
    k = T.kmax(b.k, a.k)
    a, b = a.to(k), b.to(k)
    re = difference(b, a)
    if re is None:
        return None
    if k != "c":
        return Num(k, re) if not (k == "f" and not is_z(re)) else Num("f", T.Fraction(re))
    im = difference(Num("f", b.im), Num("f", a.im))
    return Num("c", re, im) if im is not None else None


def last_num(v0, b, kk):
    def f(k):
        if not is_z(k) and k == 0:
            return v0 if isinstance(v0, Num) else None
        x = sub_num(b, [(kk, zi(r_sub(k, 1)))])
        if isinstance(v0, Num) and not v0.inf:
            return num_ite(r_eq(k, 0), v0, x)
        return x if not is_z(k) else LastValue(k, x)

    return f


def LastValue(k, x):
    # unbound before the first iteration: unknown at the head
    return None


def last_arr(I, c, b, kk, v0, entry, ctx):
    return None


def map_cell(I, L, c, ch, c0, kk):
    """Element by element stores: row d = kk is written in iteration kk."""
    rank = len(c.shape)
    js = [T.bound_int() for _ in range(rank)]
    try:
        e = c.fn(*js)
        e0 = c0.fn(*js)
    except Unsupported:
        return None
    for d in range(rank):
        other = b_implies(js[d] != kk, num_eq_formula(e, e0))
        if I.ctx.prove_now(other, timeout=1000):
            w = sub_num(e, [(js[d], kk)])
            w = Num(w.k, fold(w.re), fold(w.im) if w.k == "c" else 0)

            def form(k, d=d, w=w):
                def fn(*ix):
                    pairs = [(kk, zi(ix[d]))] + [(js[i], zi(ix[i])) for i in range(rank) if i != d]
                    return num_ite(b_and(r_le(0, ix[d]), r_lt(ix[d], k)), sub_num(w, pairs), c0.fn(*ix))

                return ArrForm(c.shape, c.k, fn)

            return form
    return None


def check_guesses(I, L, protos, forms, auto, s0):
    if not auto:
        return []
    ctx = I.ctx
    allf = dict(auto)
    allf.update(forms)
    bad = set()
    for loc, f in auto.items():
        try:
            obs = L.equal_obs(loc, f, 0, s0) if f(0) is not None else []
        except Unsupported:
            obs = None
        if obs is None or not all(ctx.prove_now(g, timeout=1000) for _, g in obs):
            bad.add(loc)
    if bad:
        return bad
    k = z3.Int(T.Fresh.name("kg"))

    def run(env):
        from .interp import _Return

        st = State(env, ctx.heap)
        L.havoc_all(st, protos, allf, k)
        ctx.assume(k >= 0)
        if L.it is not None:
            ctx.assume(r_lt(k, L.it.n))
        try:
            how = L.body(env, k)
        except (_Return, PyExc):
            return set()
        if how == "break":
            return set()
        out = set()
        s1 = State(env, ctx.heap)
        for loc, f in auto.items():
            try:
                obs = L.equal_obs(loc, f, k + 1, s1) if f(k + 1) is not None else []
            except Unsupported:
                obs = None
            if obs is None or not all(ctx.prove_now(g, T.AxiomOptions(split=True), timeout=1500) for _, g in obs):
                out.add(loc)
        return out

    try:
        for r, _, _ in ctx.explore(run, lambda: dict(L.fr.env)):
            bad |= r
    except Unsupported:
        return set(auto)
    return bad


def comp_loop(I, e, g, it, n, fr):
    """[elt for target in iter] of symbolic length, elt without side effects."""
    from .interp import Frame

    ctx = I.ctx
    if ctx.choose(2) == 0:
        j = T.fresh_int("j")
        ctx.assume(z3.And(j >= 0, j < zi(n)))
        I.assign(g.target, it.at(j), fr)
        h0 = ctx.heap.copy()
        env0 = dict(fr.env)
        I.ev(e.elt, fr)
        if modified({}, h0, {}, ctx.heap):
            raise Unsupported("comprehension with side effects")
        raise PathDone()
    j = T.mark_bound(z3.Int(T.Fresh.name("!jc")))

    def run(env):
        ctx.assume(z3.And(j >= 0, j < zi(n)))
        f2 = Frame(env, fr.module, fr.cls, fr.self_, fr.func)
        I.assign(g.target, it.at(j), f2)
        return I.ev(e.elt, f2)

    outs = ctx.explore(run, lambda: dict(fr.env))
    vals = []
    for v, pc, h in outs:
        if isinstance(v, Num):
            vals.append((b_and(*pc[1:]), v))
        elif isinstance(v, Arr) and len(outs) == 1:
            c = h.cells[v.ref]
            shape = view_shape(v.view)
            js = [T.bound_int() for _ in shape]
            x = c.fn(*view_index_(v.view, js))
            if any(is_z(d) and T.occurs(j, d) for d in shape):
                raise Unsupported("ragged comprehension")

            def row(i, x=x, js=js, shape=shape, k=c.k):
                return ctx.heap.new_cell(shape, k, lambda *ix: sub_num(x, [(j, zi(i))] + [(a, zi(b)) for a, b in zip(js, ix)]), frozen=True)

            return ctx.heap.new_list(SymSeq(n, row))
        else:
            raise Unsupported("comprehension element")
    v = merge(vals) if len(vals) > 1 else vals[0][1]
    if v is None:
        raise Unsupported("comprehension element")
    return ctx.heap.new_list(SymSeq(n, lambda i: sub_num(v, [(j, zi(i))])))
