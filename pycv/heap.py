"""Symbolic heap: array cells, objects, lists, dictionaries, and views."""

from fractions import Fraction

from .terms import *  # noqa
from .terms import b_and, fold, is_z, lift, num_ite, r_add, r_eq, r_ite, r_le, r_lt, r_mul, r_sub, unz


class Cell:
    """Immutable contents of an array: shape, kind and element function."""

    __slots__ = ("shape", "k", "fn", "frozen", "base")

    def __init__(self, shape, k, fn, frozen=False, base=None):
        self.shape, self.k, self.fn, self.frozen, self.base = tuple(shape), k, fn, frozen, base


class Base:
    """The array a derived cell shares its memory with: its cell when the contents were
    taken, how to take them, and how to write through (None when that is not supported)."""

    __slots__ = ("ref", "cell", "take", "back")

    def __init__(self, ref, cell, take, back=None):
        self.ref, self.cell, self.take, self.back = ref, cell, take, back


class Cells(dict):
    """Contents by reference; a derived cell follows the cell it shares memory with."""

    def __getitem__(self, ref):
        c = dict.__getitem__(self, ref)
        b = c.base
        if b is not None:
            now = self[b.ref]
            if now is not b.cell:
                c = Cell(c.shape, c.k, b.take(now), c.frozen, Base(b.ref, now, b.take, b.back))
                dict.__setitem__(self, ref, c)
        return c

    def __setitem__(self, ref, c):
        old = dict.get(self, ref)
        if old is not None and old.base is not None and c.base is None:
            b = old.base
            if b.back is None:
                from .terms import Unsupported

                raise Unsupported("write through a derived view")
            now = self[b.ref]
            new = Cell(now.shape, now.k, b.back(c.fn, now), now.frozen, now.base and None)
            self[b.ref] = new
            new = self[b.ref]
            c = Cell(c.shape, c.k, c.fn, c.frozen, Base(b.ref, new, b.take, b.back))
        dict.__setitem__(self, ref, c)


class Arr:
    """Reference to a cell through a view.

    view: per base dimension ("i", index) or ("s", start, step, length)."""

    __slots__ = ("ref", "view")

    def __init__(self, ref, view):
        self.ref, self.view = ref, view

    def __repr__(self):
        return f"Arr({self.ref})"


class Obj:
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    def __repr__(self):
        return f"Obj({self.oid})"


class ListRef:
    __slots__ = ("ref",)

    def __init__(self, ref):
        self.ref = ref


class DictRef:
    __slots__ = ("ref",)

    def __init__(self, ref):
        self.ref = ref


class SymSeq:
    """Immutable sequence of symbolic length: a list argument, or list contents."""

    __slots__ = ("n", "fn", "tag")

    def __init__(self, n, fn, tag="list"):
        self.n, self.fn, self.tag = n, fn, tag


class Appended(SymSeq):
    """A sequence followed by one more element that is not a number."""

    __slots__ = ("base", "item")

    def __init__(self, base, item, fn):
        super().__init__(r_add(base.n, 1), fn, base.tag)
        self.base, self.item = base, item


class Opaque:
    """A value of a library or argument type known only by a term of sort Val."""

    __slots__ = ("tag", "term", "info")

    def __init__(self, tag, term=None, info=None):
        self.tag, self.term, self.info = tag, term, info or {}

    def __repr__(self):
        return f"Opaque({self.tag})"


class Poison:
    """A variable that may be unbound or of unknown type; any use is unsupported."""

    def __init__(self, why):
        self.why = why


class ObjRec:
    __slots__ = ("cls", "fields")

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields


class Heap:
    def __init__(self):
        self.cells, self.objs, self.lists, self.dicts = Cells(), {}, {}, {}
        self.n = 0
        self.frozen = set()  # mappings that may not be changed

    def copy(self):
        h = Heap()
        h.cells = Cells(self.cells)
        h.objs = {k: ObjRec(v.cls, dict(v.fields)) for k, v in self.objs.items()}
        h.lists = {k: (list(v) if isinstance(v, list) else v) for k, v in self.lists.items()}
        h.dicts = {k: dict(v) for k, v in self.dicts.items()}
        h.n = self.n
        h.frozen = set(self.frozen)
        return h

    def new_cell(self, shape, k, fn, frozen=False, base=None):
        self.n += 1
        ref = f"c{self.n}"
        shape = tuple(unz(fold(d)) if is_z(d) else int(d) for d in shape)
        self.cells[ref] = Cell(shape, k, fn, frozen, base)
        return Arr(ref, full_view(shape))

    def new_obj(self, cls, fields=None):
        self.n += 1
        oid = f"o{self.n}"
        self.objs[oid] = ObjRec(cls, dict(fields or {}))
        return Obj(oid)

    def new_list(self, items):
        self.n += 1
        ref = f"l{self.n}"
        self.lists[ref] = items
        return ListRef(ref)

    def new_dict(self, items):
        self.n += 1
        ref = f"d{self.n}"
        self.dicts[ref] = items
        return DictRef(ref)


def full_view(shape):
    return tuple(("s", 0, 1, d) for d in shape)


def view_shape(view):
    return tuple(v[3] for v in view if v[0] == "s")


def view_index(view, idx):
    out, it = [], iter(idx)
    for v in view:
        if v[0] == "i":
            out.append(v[1])
        else:
            out.append(r_add(v[1], r_mul(v[2], next(it))))
    return out


def dense_fn(items, shape, k):
    """Element function of a concrete array given row major Num items."""
    items = [x.to(k) for x in items]
    strides, n = [], 1
    for d in reversed(shape):
        strides.insert(0, n)
        n *= d

    def fn(*idx):
        idx = [unz(fold(i)) if is_z(i) else i for i in idx]
        if all(not is_z(i) for i in idx):
            p = sum(int(i) * s for i, s in zip(idx, strides))
            return items[p] if 0 <= p < len(items) else lift(0).to(k)
        # symbolic index: chain of conditionals
        r = items[-1] if items else lift(0).to(k)

        def rec(d, off):
            if d == len(shape):
                return items[off]
            if not is_z(idx[d]):
                return rec(d + 1, off + int(idx[d]) * strides[d])
            r = rec(d + 1, off + (shape[d] - 1) * strides[d])
            for v in range(shape[d] - 2, -1, -1):
                r = num_ite(r_eq(idx[d], v), rec(d + 1, off + v * strides[d]), r)
            return r

        return rec(0, 0) if items else r

    return fn
