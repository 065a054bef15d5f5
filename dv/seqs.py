"""Sequences of unbounded length and loops over them.

A list whose length is not known is a concatenation of explicit values and of families `j -> value(j)`.
A loop over a source of unknown length n is decided by induction.  The inductive invariant is inferred from two
iterations (every location the loop changes is constant, an affine function of the iteration, an octet string
advanced by a constant, or a list that grows by the same number of elements) and then *proved* for an arbitrary
iteration j: starting from the state the invariant gives for j, the real body ends, on every path that does not
leave the loop, in the state it gives for j + 1.  The elements a list gains are those the body appends in
iteration j, as a function of j.  If the body can leave the loop (exception, break, return), the path forks: the loop
is left in some iteration j (the body is executed there in the state of the invariant), or it is not.
"""
from __future__ import annotations
import os
import types
from collections import deque
from . import terms as tm
from . import values as vl
from . import engine
from .terms import T
from .values import SymBytes, SymBA, SymStr, SymMV
from .engine import current, Explorer, Path, Unsupported, Raised, Cut


class Poison:
    """a location whose value after the loop is not known"""


POISON = Poison()
DEBUG = os.environ.get("DV_SEQ_DEBUG")
LIMIT = 300        # a loop the rule does not fit may be unrolled if it has no more iterations
FEW = 8            # a loop with no more iterations than this is unrolled


def big(n):
    """not a number of elements that can be unrolled"""
    if type(n) is not T:
        return False
    p = current()
    lo, hi = p.interval(n)
    return hi is None or hi - (lo or 0) > FEW


# ---------------------------------------------------------------- families

class Lam:
    """elements c*j .. c*j+c-1 are items, as functions of the variable j"""
    __slots__ = ("var", "items", "fresh")

    def __init__(self, var, items, fresh=()):
        self.var, self.items, self.fresh = var, tuple(items), frozenset(fresh)

    def at(self, i):
        p = current()
        c = len(self.items)
        if c == 1:
            return self.inst(0, i)
        if all(is_int(x) for x in self.items):
            q = tm.div(i, c)
            return tm.lut(tuple(tm.subst(as_i(x), self.var, q) for x in self.items), tm.mod(i, c))
        r = p.concretize(tm.mod(i, c))
        return self.inst(r, tm.div(tm.sub(i, r), c))

    def inst(self, k, j):
        p = current()
        x = self.items[k]
        if is_int(x):
            return tm.subst(x, self.var, j)
        key = ("lam", self, k, j)
        if key not in p.cells:
            p.cells[key] = subst_value(x, self.var, j, self.fresh, {})
        return p.cells[key]

    def octets(self):
        """name of the array of the elements, None if they are not octets"""
        if not all(is_int(x) and in_octet(x) for x in self.items):
            return None
        c = len(self.items)
        if c == 1:
            return tm.lam(self.var, as_i(self.items[0]))
        q = tm.div(self.var, c)
        return tm.lam(self.var, tm.lut(tuple(tm.subst(as_i(x), self.var, q) for x in self.items), tm.mod(self.var, c)))


def is_int(x):
    return type(x) is T or type(x) in (int, bool)


def as_i(x):
    return tm.b2i(x) if type(x) is T and x.sort == "B" else int(x) if type(x) is bool else x


def in_octet(x):
    lo, hi = tm.rng(as_i(x))
    return lo is not None and lo >= 0 and hi is not None and hi <= 255


def subst_value(v, j, by, fresh, memo):
    """v with j replaced; objects made in the iteration are made anew"""
    if type(v) is T:
        return tm.subst(v, j, by)
    if isinstance(v, SymBytes):
        return vl.simp(subst_bytes(v, j, by))
    if isinstance(v, SymStr):
        out = []
        for q in v.parts:
            if isinstance(q, str):
                out.append(q)
            elif q[0] in ("ch", "dec", "hex2"):
                r = tm.subst(q[1], j, by)
                out.append((q[0], r) if type(r) is T else chr(r) if q[0] == "ch" else str(r) if q[0] == "dec" else f"{r:02x}")
            elif q[0] == "enc":
                out.append(("enc", q[1], subst_bytes(SymBytes(q[2]), j, by).segs))
            else:
                raise Unsupported("text in a family")
        return vl.simps(SymStr(out))
    if type(v) in (int, str, bytes, float, bool, type(None)) or isinstance(v, (type, types.FunctionType, types.ModuleType)):
        return v
    if type(v) is tuple:
        return tuple(subst_value(x, j, by, fresh, memo) for x in v)
    if id(v) in memo:
        return memo[id(v)]
    if type(v) is list and id(v) in fresh:
        r = memo[id(v)] = []
        current().cells.setdefault("frozen", {})[id(r)] = r
        r.extend(subst_value(x, j, by, fresh, memo) for x in v)
        return r
    if isinstance(v, SymBA) or type(v) in (list, dict):
        raise Unsupported(f"{type(v).__name__} in a family")
    if id(v) in fresh and is_object(v):
        r = memo[id(v)] = object.__new__(type(v))
        for k, x in v.__dict__.items():
            r.__dict__[k] = subst_value(x, j, by, fresh, memo)
        f = current().cells.setdefault("frozen", {})
        f[id(r)] = r
        f[id(r.__dict__)] = r.__dict__
        return r
    if id(v) in fresh:
        raise Unsupported(f"{type(v).__name__} in a family")
    return v


def subst_bytes(v, j, by):
    segs = []
    for s in v.segs:
        if s[0] == "c":
            segs.append(("c", tuple(tm.subst(x, j, by) for x in s[1])))
        else:
            segs.append(("s", tm.subst_arr(s[1], j, by), tm.subst(s[2], j, by), tm.subst(s[3], j, by)))
    return SymBytes(segs)


def is_object(v):
    from . import interp as I
    return I.is_user_class(type(v)) and not isinstance(v, (type, int, str, bytes, list, dict, tuple, BaseException)) and hasattr(v, "__dict__")


# ---------------------------------------------------------------- lists of unknown length

from . import interp as I          # noqa: E402


class SymList(I.Sym):
    """list: segments ("c", (values…)) | ("l", family, offset, number) | ("o", token, 0, number): elements not to be read"""
    dv_type = list

    def __init__(self, segs=()):
        self.segs = norm(segs)

    def __repr__(self):
        return "List(" + " ".join(f"[{len(s[1])}]" if s[0] == "c" else f"{s[0]}:{s[3]}" for s in self.segs) + ")"

    def copy(self):
        return SymList(self.segs)

    def dv_len(self):
        n = 0
        for s in self.segs:
            n = tm.add(n, seglen(s))
        return n

    def dv_truth(self):
        return I.truth(tm.gt(self.dv_len(), 0))

    def at(self, i):
        """element i, 0 <= i < len known"""
        p = current()
        for k, s in enumerate(self.segs):
            n = seglen(s)
            if k == len(self.segs) - 1 or p.branch(tm.lt(i, n)):
                if s[0] == "c":
                    if type(i) is T and all(is_int(x) for x in s[1]):
                        return tm.lut(tuple(as_i(x) for x in s[1]), i)
                    return s[1][p.concretize(i)]
                if s[0] == "o":
                    raise Unsupported("an element of the list the loop builds")
                return s[1].at(tm.add(s[2], i))
            i = tm.sub(i, n)
        raise AssertionError

    def where(self, i, what="list index out of range"):
        p = current()
        n = self.dv_len()
        i = I.as_int(i)
        if p.branch(tm.lt(i, 0)):
            i = tm.add(i, n)
            if p.branch(tm.lt(i, 0)):
                raise Raised(IndexError(what))
        if p.branch(tm.ge(i, n)):
            raise Raised(IndexError(what))
        return p.norm(i)

    def cut(self, pos):
        p = current()
        left, segs = [], list(self.segs)
        while segs:
            pos = p.norm(pos)
            if type(pos) is not T and pos == 0:
                break
            s = segs[0]
            n = seglen(s)
            if p.branch(tm.le(n, pos)):
                left.append(s)
                pos = tm.sub(pos, n)
                segs.pop(0)
                continue
            if type(pos) is T and not p.branch(tm.gt(pos, 0)):
                break
            if s[0] == "c":
                k = p.concretize(pos)
                left.append(("c", s[1][:k]))
                segs[0] = ("c", s[1][k:])
            else:
                left.append((s[0], s[1], s[2], pos))
                segs[0] = (s[0], s[1], tm.add(s[2], pos), tm.sub(n, pos))
            break
        return left, segs

    def slice(self, a, b):
        r = SymList(self.cut(b)[0])
        return SymList(r.cut(a)[1])

    def dv_getitem(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported("list step")
            a, b = vl.slice_bounds(self.dv_len(), I.as_int(i.start), I.as_int(i.stop))
            if a is b:
                return []
            return simp(self.slice(a, b))
        if not I._intlike(i):
            raise Raised(TypeError("list indices must be integers or slices"))
        return self.at(self.where(i))

    def dv_setitem(self, i, v):
        if isinstance(i, slice):
            a, b = vl.slice_bounds(self.dv_len(), I.as_int(i.start), I.as_int(i.stop))
            new = v.segs if isinstance(v, SymList) else (("c", tuple(I.iterate(v))),)
            self.segs = norm(self.cut(a)[0] + list(new) + self.cut(b)[1])
            return
        i = self.where(i, "list assignment index out of range")
        l, r = self.cut(i)
        self.segs = norm(l + [("c", (v,))] + SymList(r).cut(1)[1])

    def dv_delitem(self, i):
        if isinstance(i, slice):
            a, b = vl.slice_bounds(self.dv_len(), I.as_int(i.start), I.as_int(i.stop))
            self.segs = norm(self.cut(a)[0] + self.cut(b)[1])
            return
        i = self.where(i, "list assignment index out of range")
        l, r = self.cut(i)
        self.segs = norm(l + SymList(r).cut(1)[1])

    def octets(self):
        """the elements as an octet string, None if they are not octets"""
        out = []
        for s in self.segs:
            if s[0] == "c":
                if not all(is_int(x) and in_octet(x) for x in s[1]):
                    return None
                out.append(("c", tuple(as_i(x) for x in s[1])))
            elif s[0] == "o":
                return None
            else:
                a = s[1].octets()
                if a is None:
                    return None
                out.append(("s", a, s[2], s[3]))
        return vl.simp(SymBytes(out))

    def dv_eq(self, o):
        if isinstance(o, SymList):
            if o is self or o.segs == self.segs:
                return True
            a, b = self.octets(), o.octets()
        elif type(o) is list:
            a, b = self.octets(), SymList((("c", tuple(o)),)).octets()
        else:
            return False
        if a is None or b is None:
            if not current().branch(tm.eq(self.dv_len(), I.call(len, (o,)))):
                return False
            raise Unsupported("equality of lists of unknown length")
        return vl.bytes_eq(a, b)

    def l___getitem__(self, i):
        return self.dv_getitem(i)

    def l___len__(self):
        return self.dv_len()

    def l___iter__(self):
        return self

    def dv_iter(self):
        p = current()

        def g():
            i = 0
            while p.branch(tm.lt(i, self.dv_len())):
                if i > LIMIT:
                    raise Unsupported("a list of unknown length must be made explicit")
                yield self.at(i)
                i += 1
        return g()

    def dv_contains(self, x):
        raise Unsupported("membership in a list of unknown length")

    def dv_bytes(self):
        return bytes_of(self)

    def dv_concrete(self, m):
        from . import spec
        out = []
        for s in self.segs:
            if s[0] == "c":
                out += [spec.concretize(x, m) for x in s[1]]
            else:
                k, n = m.ev(s[2]), m.ev(s[3])
                if n > 5000:
                    raise NotImplementedError("long list")
                out += [spec.concretize(s[1].at(k + i), m) for i in range(n)]
        return out

    def dv_getattr(self, name):
        m = getattr(SymList, "l_" + name, None)
        if m is None:
            if name == "__class__":
                return list
            if hasattr(list, name):
                raise Unsupported(f"list.{name} on a list of unknown length")
            raise Raised(AttributeError(f"'list' object has no attribute '{name}'"))
        return I.BoundModel(m, self, name)

    def l_append(self, x):
        self.segs = norm(self.segs + (("c", (x,)),))

    def l_extend(self, xs):
        self.segs = norm(self.segs + segs_of(xs))

    def l_insert(self, i, x):
        a, _ = vl.slice_bounds(self.dv_len(), I.as_int(i), None)
        l, r = self.cut(a)
        self.segs = norm(l + [("c", (x,))] + r)

    def l_pop(self, i=-1):
        if current().branch(tm.le(self.dv_len(), 0)):
            raise Raised(IndexError("pop from empty list"))
        i = self.where(i, "pop index out of range")
        x = self.at(i)
        self.dv_delitem(i)
        return x

    def l_clear(self):
        self.segs = ()

    def l_copy(self):
        return SymList(self.segs)

    def dv_binop(self, op, o, swapped):
        import ast
        if op is ast.Add and (type(o) is list or isinstance(o, SymList)):
            a, b = segs_of(self), segs_of(o)
            return SymList(b + a if swapped else a + b)
        raise Unsupported("operator on a list of unknown length")


class SymDeque(SymList):
    dv_type = deque

    def dv_getattr(self, name):
        raise Unsupported(f"deque.{name} on a deque of unknown length")

    def dv_eq(self, o):
        return self is o


def seglen(s):
    return len(s[1]) if s[0] == "c" else s[3]


def norm(segs):
    out = []
    for s in segs:
        if s[0] == "c":
            if not s[1]:
                continue
            if out and out[-1][0] == "c":
                out[-1] = ("c", out[-1][1] + tuple(s[1]))
            else:
                out.append(("c", tuple(s[1])))
        else:
            if type(s[3]) is not T and s[3] == 0:
                continue
            if out and out[-1][:2] == s[:2] and s[0] == "l" and tm.sub(s[2], tm.add(out[-1][2], out[-1][3])) == 0:
                out[-1] = ("l", s[1], out[-1][2], tm.add(out[-1][3], s[3]))
                continue
            out.append(s)
    return tuple(out)


def simp(l):
    if all(s[0] == "c" for s in l.segs):
        return [x for s in l.segs for x in s[1]]
    return l


def segs_of(xs):
    """segments of an iterable"""
    if isinstance(xs, SymList):
        return xs.segs
    src = source(xs)
    if src is not None:
        return collect(*src)
    return (("c", tuple(I.iterate(xs))),)


# ---------------------------------------------------------------- sources

class SymGen(I.Sym):
    """generator, map object … over a source of unknown length: run(j) gives the list of items of iteration j"""
    dv_type = types.GeneratorType

    def __init__(self, n, run):
        self.n, self.run, self.used = n, run, False

    def start(self):
        if self.used:
            raise Unsupported("a generator over a source of unknown length is used twice")
        self.used = True

    def dv_iter(self):
        self.start()
        p = current()

        def g():
            i = 0
            while p.branch(tm.lt(i, self.n)):
                if i > 2000:
                    raise Unsupported("loop bound")
                yield from self.run(i)
                i += 1
        return g()

    def dv_bytes(self):
        return bytes_of(self)

    def dv_truth(self):
        return True

    def dv_eq(self, o):
        return self is o

    def dv_len(self):
        raise Raised(TypeError("object of type 'generator' has no len()"))

    def dv_getattr(self, name):
        raise Unsupported(f"generator.{name}")


def source(v):
    """(number of iterations, j -> items) if v is an iterable of unknown, large length"""
    from .models import SymRange
    if isinstance(v, SymGen):
        if not big(v.n):
            return None
        v.start()
        return v.n, v.run
    if isinstance(v, SymRange):
        n = v.dv_len()
        if not big(n):
            return None
        return n, lambda j: [tm.add(v.start, tm.mul(v.step, j) if type(v.step) is T or type(j) is T else v.step * j)]
    if isinstance(v, SymList):
        n = v.dv_len()
        if not big(n):
            return None
        w = SymList(v.segs)
        return n, lambda j: [w.at(j)]
    if isinstance(v, (SymBytes, SymBA, SymMV)):
        b = v.get() if isinstance(v, SymMV) else v.b if isinstance(v, SymBA) else v
        if not isinstance(b, SymBytes):
            return None
        n = vl.length(b)
        if not big(n):
            return None
        return n, lambda j: [vl.at(b, j)]
    if isinstance(v, SymStr):
        b = ascii_octets(v)
        if b is None:
            return None
        n = vl.length(b)
        if not big(n):
            return None
        return n, lambda j: [vl.mkstr([vl.at(b, j)])]
    return None


def mapped(v, f):
    """generator of f(item) over a source of unknown length, None if it is not one"""
    s = source(v)
    if s is None:
        return None
    n, run = s
    return SymGen(n, lambda j: [f(x) for x in run(j)])


def ascii_octets(s):
    """octets of a text known to be ASCII"""
    if isinstance(s, str):
        return s.encode() if s.isascii() else None
    out = b""
    for q in s.parts:
        if isinstance(q, str):
            if not q.isascii():
                return None
            e = q.encode()
        elif q[0] == "enc":
            e = vl.part_bytes(q)
            if q[1] != "ascii" and vl.text_valid("ascii", e) is not True:
                return None
        elif q[0] == "ch" and q[1].hi is not None and q[1].hi < 128:
            e = vl.from_items([q[1]])
        elif q[0] == "dec" and q[1].lo is not None and q[1].lo >= 0 and q[1].hi is not None and q[1].hi < 10:
            e = vl.from_items([tm.add(48, q[1])])
        else:
            return None
        out = vl.concat(out, e)
    return out


def ascii_text(b):
    """text of ASCII octets"""
    parts = []
    for s in vl.of_bytes(b).segs:
        if s[0] == "c":
            its = s[1]
        elif type(s[3]) is not T and s[3] <= 64:
            its = [tm.select(s[1], tm.add(s[2], k)) for k in range(s[3])]
        else:
            parts.append(("enc", "ascii", (s,)))
            continue
        parts += [chr(x) if type(x) is not T else ("ch", x) for x in its]
    return vl.simps(SymStr(parts))


def bytes_of(v):
    """bytes(v)"""
    from .models import byte_item
    src = source(v)
    if src is None:
        return vl.from_items([byte_item(x) for x in I.iterate(v)])
    n, run = src
    return octets_of(collect(n, lambda j: [octet(byte_item(x)) for x in run(j)]))


def octet(x):
    """x, known to be an octet in the present case"""
    return x if in_octet(x) else tm.mod(as_i(x), 256)


def octets_of(segs):
    o = SymList(segs).octets()
    if o is None:
        raise Unsupported("octets of a list of unknown length")
    return o


def join_bytes(sep, v):
    src = source(v)
    if src is None:
        return None
    if vl.length(sep) != 0:
        raise Unsupported("join of a list of unknown length")
    n, run = src

    def items(j):
        out = []
        for x in run(j):
            if not issubclass(I.type_of(x), (bytes, bytearray, memoryview)):
                raise Raised(TypeError("sequence item: expected a bytes-like object"))
            if isinstance(x, SymMV):
                x = x.get()
            out += vl.items(x)
        return out
    return octets_of(collect(n, items))


def join_text(sep, v):
    src = source(v)
    if src is None:
        return None
    if sep != "":
        raise Unsupported("join of a list of unknown length")
    n, run = src

    def items(j):
        out = []
        for x in run(j):
            if not isinstance(x, (str, SymStr)):
                raise Raised(TypeError("sequence item: expected str instance"))
            for c in vl.chars_of(x):
                c = vl.code(c)
                if type(c) is T and (c.hi is None or c.hi > 127) or type(c) is not T and c > 127:
                    raise Unsupported("join of characters beyond ASCII")
                out.append(c)
        return out
    return ascii_text(octets_of(collect(n, items)))


# ---------------------------------------------------------------- the state a loop may change

class Heap:
    """mutable objects reachable from the active frames, with their contents"""

    def __init__(self):
        self.rec: dict = {}
        self.hidden: set = set()       # lists referred to from places that cannot be updated
        for f in I.FRAMES:
            self.frame(f)

    def frame(self, f):
        while f is not None:
            if id(f) in self.rec:
                return
            self.rec[id(f)] = (f, "frame", dict(f.locals))
            for v in f.locals.values():
                self.visit(v)
            if f.cells:
                for c in f.cells.values():
                    try:
                        self.visit(c.cell_contents, True)
                    except ValueError:
                        pass
            f = f.parent

    def visit(self, v, hidden=False):
        if type(v) in (int, str, bytes, float, bool, type(None), T) or isinstance(v, (type, types.ModuleType, types.FunctionType)):
            return
        if type(v) in (tuple, set, frozenset):
            for x in v:
                self.visit(x, True)
            return
        if hidden and (type(v) is list or isinstance(v, SymList)):
            self.hidden.add(id(v))
        if id(v) in self.rec:
            return
        if type(v) is list:
            self.rec[id(v)] = (v, "list", list(v))
            for x in v:
                self.visit(x)
        elif type(v) is dict:
            self.rec[id(v)] = (v, "dict", dict(v))
            for x in v.values():
                self.visit(x)
        elif isinstance(v, deque):
            self.rec[id(v)] = (v, "deque", list(v))
            for x in v:
                self.visit(x, True)
        elif isinstance(v, SymBA):
            self.rec[id(v)] = (v, "ba", v.b)
        elif isinstance(v, SymMV):
            self.visit(v.base)
        elif isinstance(v, SymList):
            self.rec[id(v)] = (v, "symlist", v.segs)
            for s in v.segs:
                if s[0] == "c":
                    for x in s[1]:
                        self.visit(x, True)
        elif isinstance(v, types.MethodType):
            self.visit(v.__self__, True)
        elif isinstance(v, types.BuiltinMethodType) and v.__self__ is not None:
            self.visit(v.__self__, True)
        elif isinstance(v, I.BoundModel):
            self.visit(v.obj, True)
        elif isinstance(v, I.IFunc):
            self.frame(v.frame)
        elif is_object(v):
            self.rec[id(v)] = (v, "obj", dict(v.__dict__))
            for x in v.__dict__.values():
                self.visit(x)

    def restore(self):
        for o, k, c in self.rec.values():
            put(o, k, c)

    def capture(self):
        return {i: get(o, k) for i, (o, k, _) in self.rec.items()}


def get(o, k):
    if k == "frame":
        return dict(o.locals)
    if k == "obj":
        return dict(o.__dict__)
    if k == "dict":
        return dict(o)
    if k in ("list", "deque"):
        return list(o)
    if k == "ba":
        return o.b
    return o.segs


def put(o, k, c):
    if k == "frame":
        o.locals.clear()
        o.locals.update(c)
    elif k == "obj":
        o.__dict__.clear()
        o.__dict__.update(c)
    elif k == "dict":
        o.clear()
        o.update(c)
    elif k == "list":
        o[:] = c
    elif k == "deque":
        o.clear()
        o.extend(c)
    elif k == "ba":
        o.b = c
    else:
        o.segs = c


def same(a, b):
    if a is b:
        return True
    if isinstance(a, SymBytes) and isinstance(b, SymBytes):
        return a.segs == b.segs
    if isinstance(a, SymStr) and isinstance(b, SymStr):
        return a.parts == b.parts
    return type(a) is type(b) and type(a) in (int, str, bytes, float, bool, tuple) and a == b


def same_all(a, b):
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


# ---------------------------------------------------------------- exploring a body from the present state

class SubPath(Path):
    def fresh(self, base):
        return "§" + super().fresh(base)


class Sub(Explorer):
    """explores a piece of code from the state of a path"""

    def __init__(self, p, limit=64):
        x = p.x
        super().__init__(x.name, max_paths=limit, deadline=x.deadline)
        self.folds, self.drops = x.folds, x.drops
        self.parent = p
        self.done: list = []

    def explore(self, body):
        """body(path) on every path; the outcome is appended to self.done"""
        p = self.parent
        while self.work:
            prefix = self.work.pop()
            self.paths += 1
            if self.paths > self.max_paths:
                raise Unsupported("too many paths in a loop body")
            self.tick()
            q = SubPath(self, prefix)
            q.asms, q.asm_set, q.bounds = list(p.asms), set(p.asm_set), dict(p.bounds)
            q.counter = dict(p.counter)
            q.cells = {k: (list(v) if type(v) is list else dict(v) if type(v) is dict else v) for k, v in p.cells.items()}
            prev = engine._cur
            engine._cur = q
            try:
                try:
                    body(q)
                except Cut:
                    pass
            finally:
                engine._cur = prev
            if any(o.status != "discharged" for o in self.obligations):
                raise Unsupported("an obligation inside a loop body")
        p.x.obligations.extend(self.obligations)
        p.x.summaries |= self.summaries


def conds(p, q):
    return q.asms[len(p.asms):]


_depth = [0]


def own(t):
    """no value invented inside the iteration"""
    return not any(type(n) is str and n.startswith("§") for n in tm.leaves(t))


class Cell:
    """a location the loop changes"""
    __slots__ = ("o", "k", "key", "kind", "v0", "step", "items")

    def __init__(self, o, k, key, kind, v0, step):
        self.o, self.k, self.key, self.kind, self.v0, self.step = o, k, key, kind, v0, step

    def value(self, j):
        if self.kind == "int":
            return tm.add(self.v0, tm.scale(j, self.step) if type(j) is T else j * self.step)
        if self.kind == "bytes":
            s = self.v0.segs[0]
            d = tm.scale(j, self.step) if type(j) is T else j * self.step
            return vl.simp(SymBytes([("s", s[1], tm.add(s[2], d), tm.sub(s[3], d)), *self.v0.segs[1:]]))
        raise AssertionError

    def room(self, j):
        """the invariant implies this"""
        if self.kind != "bytes":
            return True
        return tm.le(tm.scale(j, self.step) if type(j) is T else j * self.step, self.v0.segs[0][3])


def infer(v0, v1, v2):
    """(kind, step) of a location with these values before, after one and after two iterations; None"""
    if all(type(v) is T and v.sort == "I" or type(v) is int for v in (v0, v1, v2)):
        d, e = tm.sub(v1, v0), tm.sub(v2, v1)
        if type(d) is int and d == e:
            return "int", d
        return None
    if isinstance(v0, SymBytes) and isinstance(v1, SymBytes) and isinstance(v2, SymBytes):
        ss = [v.segs for v in (v0, v1, v2)]
        if any(len(s) != len(ss[0]) or s[0][0] != "s" or s[1:] != ss[0][1:] for s in ss) or len({s[0][1] for s in ss}) != 1:
            return None
        o = [s[0][2] for s in ss]
        n = [s[0][3] for s in ss]
        d = tm.sub(o[1], o[0])
        if type(d) is int and d > 0 and tm.sub(o[2], o[1]) == d and tm.sub(n[0], n[1]) == d and tm.sub(n[1], n[2]) == d:
            return "bytes", d
    return None


def grow(l, segs):
    """the list l gains elements of unknown number"""
    heap = Heap()
    if id(l) not in heap.rec or id(l) in heap.hidden:
        raise Unsupported("a list of unknown length referred to from elsewhere")
    replace(heap, {id(l): SymList(((("c", tuple(l))),) + tuple(segs))})


def discover(p, n, run, heap, scratch0):
    """locations changed by the loop, from its first two iterations"""
    x = Sub(p)
    got = []

    def body(q):
        if got:
            raise Cut()
        try:
            q.assume(tm.le(3, n))
            run(0)
            a = heap.capture()
            run(1)
            b = heap.capture()
        except (Raised, I.Break, I.Return):
            return
        finally:
            heap_undo(heap)
        got.append((a, b))
    x.explore(body)
    if not got:
        raise Unsupported("no two iterations of the loop can be executed")
    a, b = got[0]
    cells = []
    for i, (o, k, c0) in heap.rec.items():
        c1, c2 = a[i], b[i]
        if k in ("frame", "obj", "dict"):
            for key in dict.fromkeys(list(c0) + list(c1) + list(c2)):
                v0, v1, v2 = (c.get(key, POISON) for c in (c0, c1, c2))
                if same(v0, v1) and same(v1, v2):
                    continue
                r = infer(v0, v1, v2)
                if r is not None:
                    cells.append(Cell(o, k, key, r[0], v0, r[1]))
                elif k == "frame":
                    cells.append(Cell(o, k, key, "scratch", v0, None))
                else:
                    raise Unsupported(f"the loop changes {key} in a way that is not understood")
        elif k in ("list", "symlist"):
            l0, l1, l2 = ((("c", tuple(c)),) if k == "list" else c for c in (c0, c1, c2))
            l0, l1, l2 = norm(l0), norm(l1), norm(l2)
            g, h = grown(l0, l1), grown(l1, l2)
            if g is None or h is None or len(g) != len(h):
                raise Unsupported("the loop changes a list in a way that is not understood")
            if g:
                if i in heap.hidden:
                    raise Unsupported("the list a loop builds is referred to from elsewhere")
                cells.append(Cell(o, k, None, "list", l0, len(g)))
        elif k == "deque":
            if not same_all(c0, c1) or not same_all(c1, c2):
                raise Unsupported("the loop changes a deque")
        elif not same(c0, c1) or not same(c1, c2):
            raise Unsupported("the loop changes an octet buffer")
    return cells


def grown(a, b):
    """elements appended to segments a giving b; None if b is not a with elements appended"""
    if not a:
        return () if not b else b[0][1] if len(b) == 1 and b[0][0] == "c" else None
    if len(b) < len(a) or b[:len(a) - 1] != a[:-1]:
        return None
    x, y = a[-1], b[len(a) - 1]
    rest = b[len(a):]
    if x[0] == "c":
        if y[0] != "c" or rest or len(y[1]) < len(x[1]) or not all(q is r or same(q, r) for q, r in zip(x[1], y[1])):
            return None
        return y[1][len(x[1]):]
    if y != x:
        return None
    return () if not rest else rest[0][1] if len(rest) == 1 and rest[0][0] == "c" else None


def heap_undo(heap):
    heap.restore()


def set_state(heap, cells, j, lists):
    """the state the invariant gives for iteration j; lists: segments of each growing list"""
    repl = {}
    for c in cells:
        if c.kind == "list":
            l = SymList(lists(c))
            repl[id(c.o)] = l
    replace(heap, repl)
    for c in cells:
        d = c.o.locals if c.k == "frame" else c.o.__dict__ if c.k == "obj" else c.o
        if c.kind == "scratch":
            d[c.key] = POISON
        elif c.kind != "list":
            d[c.key] = c.value(j)
            current().assume(c.room(j))
    return repl


def replace(heap, repl):
    for i, (o, k, _) in heap.rec.items():
        if not repl:
            break
        if k in ("frame", "obj", "dict"):
            d = o.locals if k == "frame" else o.__dict__ if k == "obj" else o
            for key, v in list(d.items()):
                if id(v) in repl:
                    d[key] = repl[id(v)]
        elif k == "list":
            for idx, v in enumerate(o):
                if id(v) in repl:
                    o[idx] = repl[id(v)]


def collect(n, run):
    """segments of the items run(j) gives for j = 0 … n-1 (each iteration the same number of items)"""
    return loop(n, run, True)


def loop(n, run, produce=False):
    p = current()
    if type(n) is not T:
        raise AssertionError
    if not p.branch(tm.gt(n, 0)):
        return ()
    try:
        done = induct(p, n, run, produce)
    except Unsupported as e:
        if DEBUG:
            print("loop rule:", e, "at", I.FRAMES[-1].code.co_name if I.FRAMES and hasattr(I.FRAMES[-1], "code") else "")
        if not p.entails(tm.le(n, LIMIT), timeout=2000):
            raise
    else:
        return done()
    out, i = [], 0
    while p.branch(tm.lt(i, n)):
        out += run(i) or ()
        i += 1
    return norm((("c", tuple(out)),)) if produce else ()


def induct(p, n, run, produce):
    heap = Heap()
    depth = _depth[0]
    _depth[0] += 1
    J = tm.var(f"#{depth}", 0, None)
    try:
        cells = discover(p, n, run, heap, None)
        lists = [c for c in cells if c.kind == "list"]
        oks, exits = [], []
        x = Sub(p)

        def body(q):
            q.assume(tm.lt(J, n))
            try:
                old = set(heap.rec)
                repl = set_state(heap, cells, J, lambda c: c.v0 + (("o", c, 0, tm.scale(J, c.step)),))
                before = heap.capture()
                try:
                    out = run(J)
                except (Raised, I.Break, I.Return):
                    exits.append(conds(p, q))
                    return
                check_step(q, heap, cells, before, J)
                news = []
                for c in lists:
                    segs = repl[id(c.o)].segs
                    base = c.v0 + (("o", c, 0, tm.scale(J, c.step)),)
                    g = grown(norm(base), segs)
                    if g is None or len(g) != c.step:
                        raise Unsupported("a list grows differently in some iterations")
                    news.append(g)
                out = tuple(settle(q, v, heap, set()) for v in out or ()) if produce else ()
                news = [tuple(settle(q, v, heap, set()) for v in g) for g in news]
                oks.append((conds(p, q), news, out))
            finally:
                heap_undo(heap)
        x.explore(body)
    finally:
        _depth[0] -= 1
    if not oks:
        raise Unsupported("no iteration of the loop ends normally")
    for cs, news, out in oks:
        if len(out) != len(oks[0][2]):
            raise Unsupported("iterations give different numbers of items")
        if len(oks) > 1 and not all(own(t) for t in cs):
            raise Unsupported("a case distinction on a value invented in the iteration")
    fam_items = [[merge([(cs, news[i][k]) for cs, news, _ in oks]) for k in range(c.step)] for i, c in enumerate(lists)]
    prod_items = [merge([(cs, out[k]) for cs, _, out in oks]) for k in range(len(oks[0][2]))]
    fresh = fresh_ids(heap, fam_items + [prod_items])
    fams = [Lam(J, its, fresh) for its in fam_items]
    prod = Lam(J, prod_items, fresh) if prod_items else None
    for f in fams + ([prod] if prod else []):
        if not all(own_value(v, fresh, set()) for v in f.items):
            raise Unsupported("an element depends on a value invented in the iteration")

    def grown_lists(j):
        def segs(c):
            return c.v0 + (("l", fams[lists.index(c)], 0, tm.scale(j, c.step) if type(j) is T else j * c.step),)
        return segs
    def done():
        p.x.summaries.add("loop invariant (inferred, proved for an arbitrary iteration)")
        if exits and p.choose(2) == 1:
            j = p.int_var("iteration", 0, None)
            p.assume(tm.lt(j, n))
            set_state(heap, cells, j, grown_lists(j))
            run(j)
            raise Cut()
        set_state(heap, cells, n, grown_lists(n))
        if prod is None:
            return ()
        return (("l", prod, 0, tm.scale(n, len(prod.items))),)
    return done


def settle(q, v, heap, seen):
    """v, octet strings made explicit where the present case gives them a fixed small length"""
    if isinstance(v, SymBytes):
        n = q.norm(vl.length(v))
        if type(n) is T and n.lo == 0 and n.hi is not None and n.hi <= 0:
            n = 0
        if type(n) is T:
            r, m = engine.solve.check(q.asms, True, model=True, full=True)
            if r != "sat":
                return v
            k = m.ev(n)
            if k > 64 or not q.entails(tm.eq(n, k)):
                return v
            n = k
        return vl.from_items(vl.items(v)) if n <= 64 else v
    if id(v) in seen or id(v) in heap.rec:
        return v
    if type(v) is tuple:
        return tuple(settle(q, x, heap, seen) for x in v)
    if isinstance(v, SymBA):
        seen.add(id(v))
        v.b = settle(q, v.b, heap, seen)
    elif type(v) is list:
        seen.add(id(v))
        v[:] = [settle(q, x, heap, seen) for x in v]
    elif is_object(v):
        seen.add(id(v))
        for k, x in list(v.__dict__.items()):
            v.__dict__[k] = settle(q, x, heap, seen)
    return v


def fresh_ids(heap, groups):
    """objects made by the iteration: everything reachable from the new elements that the heap did not hold"""
    seen: set = set()
    keep = []

    def go(v):
        if type(v) in (int, str, bytes, float, bool, type(None), T) or isinstance(v, (type, types.FunctionType, types.ModuleType)):
            return
        if type(v) is tuple:
            for x in v:
                go(x)
            return
        if id(v) in heap.rec or id(v) in seen:
            return
        if isinstance(v, SymBA) or type(v) in (list, dict) or is_object(v):
            seen.add(id(v))
            keep.append(v)
            if type(v) is list:
                for x in v:
                    go(x)
            elif type(v) is dict:
                for x in v.values():
                    go(x)
            elif not isinstance(v, SymBA):
                for x in v.__dict__.values():
                    go(x)
    for g in groups:
        for v in g:
            go(v)
    current().cells.setdefault("keep", []).append(keep)
    return seen


def own_value(v, fresh, seen):
    if type(v) is T:
        return own(v)
    if isinstance(v, SymBytes):
        return all((all(type(t) is not T or own(t) for t in s[1]) if s[0] == "c" else
                    all(type(t) is not T or own(t) for t in s[2:]) and not s[1].startswith("§")) for s in v.segs)
    if isinstance(v, SymStr):
        return all(isinstance(q, str) or (q[0] in ("ch", "dec", "hex2") and own(q[1])) or
                   (q[0] == "enc" and own_value(SymBytes(q[2]), fresh, seen)) for q in v.parts)
    if id(v) in seen:
        return True
    seen.add(id(v))
    if type(v) in (tuple, list):
        return all(own_value(x, fresh, seen) for x in v)
    if type(v) is dict:
        return all(own_value(x, fresh, seen) for x in v.values())
    if isinstance(v, SymBA):
        return own_value(v.b, fresh, seen)
    if id(v) in fresh:
        return all(own_value(x, fresh, seen) for x in v.__dict__.values())
    return not isinstance(v, (I.Sym, SymMV))


def check_step(q, heap, cells, before, J):
    """the state after the body is the one of iteration J + 1"""
    after = heap.capture()
    mine: dict = {}
    for c in cells:
        mine.setdefault(id(c.o), {})[c.key] = c
    for i, (o, k, _) in heap.rec.items():
        a, b = before[i], after[i]
        m = mine.get(i, {})
        if k in ("frame", "obj", "dict"):
            for key in dict.fromkeys(list(a) + list(b)):
                c = m.get(key)
                if c is None:
                    if not same(a.get(key, POISON), b.get(key, POISON)):
                        if k == "frame":
                            raise Unsupported(f"{key} changes in later iterations only")
                        raise Unsupported(f"attribute {key} changes in some iterations only")
                elif c.kind == "int":
                    v = b.get(key)
                    if not (is_int(v) and q.entails(tm.eq(as_i(v), c.value(tm.add(J, 1))))):
                        raise Unsupported(f"{key} is no affine function of the iteration")
                elif c.kind == "bytes":
                    v, w = b.get(key), c.value(tm.add(J, 1))
                    if not q.entails(c.room(tm.add(J, 1))) or not is_suffix(q, v, w, len(c.v0.segs)):
                        if DEBUG:
                            print("ADV", v, w, [str(x)[:100] for x in q.asms[-12:]])
                        raise Unsupported(f"{key} does not advance by the same number of octets")
        elif k in ("list", "deque"):
            if not same_all(a, b):
                raise Unsupported("a list changes in later iterations only")
        elif k == "symlist":
            if a != b and None not in m:
                raise Unsupported("a list changes in later iterations only")
        elif not same(a, b):
            raise Unsupported("an octet buffer changes in later iterations only")


def is_suffix(q, v, w, k):
    """v is the octet string w of k segments"""
    if not isinstance(v, (SymBytes, bytes)):
        return False
    v, w = vl.of_bytes(v), vl.of_bytes(w)
    if v.segs == w.segs:
        return True
    if q.entails(tm.eq(vl.length(w), 0)):
        return q.entails(tm.eq(vl.length(v), 0))
    if len(w.segs) < k:
        return False
    s, n = w.segs[0], k - 1
    if len(v.segs) == n:
        return v.segs == w.segs[1:] and q.entails(tm.eq(s[3], 0))
    if len(v.segs) != k:
        return False
    t = v.segs[0]
    return (len(v.segs) == k and v.segs[1:] == w.segs[1:] and t[0] == "s" and s[1] == t[1]
            and q.entails(tm.and_(tm.eq(s[2], t[2]), tm.eq(s[3], t[3]))))


def merge(alts):
    """one value for the alternatives [(conditions, value)]"""
    v = alts[-1][1]
    for cs, w in reversed(alts[:-1]):
        v = merge2(tm.and_(*cs), w, v)
    return v


def merge_int(c, a, b):
    """one of two sums, merged summand by summand where the coefficients are different powers (digits of a number)"""
    (ca, ia), (cb, ib) = (tm.parts_of(x) for x in (a, b))
    da, db = {k: t for t, k in ia}, {k: t for t, k in ib}
    if ca == cb and max(len(ia), len(ib)) > 1 and len(da) == len(ia) and len(db) == len(ib):
        r = ca
        for k in sorted({*da, *db}, key=lambda k: (abs(k), k)):
            x, y = da.get(k, 0), db.get(k, 0)
            r = tm.add(r, tm.scale(x if x is y else tm.ite(c, x, y), k))
        return r
    return tm.ite(c, a, b)


def merge2(c, a, b):
    if same(a, b):
        return a
    if is_int(a) and is_int(b):
        return merge_int(c, as_i(a), as_i(b))
    if isinstance(a, (SymBytes, bytes)) and isinstance(b, (SymBytes, bytes)):
        n, m = vl.length(a), vl.length(b)
        if type(n) is int and n == m and n <= 64:
            x, y = vl.items(a), vl.items(b)
            return vl.from_items([tm.ite(c, p, q) for p, q in zip(x, y)])
    if isinstance(a, SymBA) and isinstance(b, SymBA):
        return SymBA(merge2(c, a.b, b.b))
    if type(a) is type(b):
        if type(a) in (tuple, list) and len(a) == len(b):
            return type(a)(merge2(c, x, y) for x, y in zip(a, b))
        if is_object(a) and list(a.__dict__) == list(b.__dict__):
            r = object.__new__(type(a))
            for k in a.__dict__:
                r.__dict__[k] = merge2(c, a.__dict__[k], b.__dict__[k])
            return r
    raise Unsupported("the iterations give values of different kinds")


def for_loop(s, src, fr):
    """a for statement over a source of unknown length; None if it is not one (or not understood: it is then unrolled)"""
    if s.orelse:
        return None
    q = source(src)
    if q is None:
        return None
    n, items = q

    def run(j):
        xs = items(j)
        if len(xs) != 1:
            raise Unsupported("several items in an iteration")
        I.assign(s.target, xs[0], fr)
        fr.inloop += 1
        try:
            I.block(s.body, fr)
        except I.Continue:
            pass
        finally:
            fr.inloop -= 1
    try:
        loop(n, run)
    except I.Break:
        pass
    return True
