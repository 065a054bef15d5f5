"""Models (trusted specifications) of the builtins and standard-library functions the code uses."""
from __future__ import annotations
import ast
import builtins
import collections
import dataclasses
import functools
import itertools
import logging
import math
import operator
import struct
import types
from . import terms as tm
from . import values as vl
from . import interp as I
from .terms import T
from .values import SymBytes, SymBA, SymStr, SymMV
from .engine import Unsupported, Raised, current
from .interp import (MODELS, METHODS, call, iterate, truth, equals, compare, is_sym, deep_sym, getattr_, isinstance_, type_of,
                     natively, native, as_int, Sym, binop)

MISSING = object()


def model(*keys):
    def d(f):
        for k in keys:
            MODELS[k] = f
        return f
    return d


def method(k, *names):
    def d(f):
        for n in names:
            METHODS[(k, n)] = f
        return f
    return d


def raise_(e):
    raise Raised(e)


def index(v):
    """operator.index on interpreted values"""
    v = as_int(v)
    if type(v) is T or isinstance(v, int):
        return v
    m = I.lookup(type_of(v), "__index__")
    if I.in_user(m):
        return call(m, (v,))
    raise Raised(TypeError(f"'{type_of(v).__name__}' object cannot be interpreted as an integer"))


# ---------------------------------------------------------------- builtins

def text_len(v):
    n = 0
    p = current()
    for q in v.parts:
        if type(q) is tuple and q[0] == "enc":
            b = vl.length(vl.part_bytes(q))
            if q[1] == "utf-8" and vl.text_valid("ascii", vl.part_bytes(q)) is not True and not p.entails(vl.text_valid("ascii", vl.part_bytes(q))):
                key = ("chars", q)
                if key not in p.cells:
                    k = p.cells[key] = p.int_var("chars", 0, None)
                    p.assume(tm.le(k, b))
                    p.assume(tm.ge(tm.scale(k, 4) if type(k) is T else 4 * k, b))
                    p.assume(tm.or_(tm.not_(vl.text_valid("ascii", vl.part_bytes(q))), tm.eq(k, b)))
                b = p.cells[key]
            n = tm.add(n, b)
        else:
            n = tm.add(n, len(SymStr([q]).chars()))
    return n


@model(len)
def m_len(v):
    if isinstance(v, (SymBytes, SymBA)):
        return vl.length(v)
    if isinstance(v, SymMV):
        return v.n
    if isinstance(v, SymStr):
        if any(type(q) is tuple and q[0] == "enc" for q in v.parts):
            return text_len(v)
        return len(v.chars())
    if isinstance(v, Sym):
        return v.dv_len()
    if type(v) is T:
        raise Raised(TypeError("object of type 'int' has no len()"))
    m = I.lookup(type(v), "__len__")
    if I.in_user(m):
        r = call(m, (v,))
        if type(r) is T and r.sort == "I":
            if current().branch(tm.lt(r, 0)):
                raise Raised(ValueError("__len__() should return >= 0"))
        elif type(r) is not T and (not isinstance(r, int)):
            raise Raised(TypeError("object cannot be interpreted as an integer"))
        elif type(r) is not T and r < 0:
            raise Raised(ValueError("__len__() should return >= 0"))
        return r
    return natively(len, (v,), {})


@model(int)
def m_int(v=0, base=MISSING):
    if base is MISSING:
        if type(v) is T:
            return as_int(v)
        if isinstance(v, SymStr):
            return parse_int(v, 10)
        if isinstance(v, Sym):
            return v.dv_int()
        if isinstance(v, (SymBytes, SymBA)):
            return m_int(v, 10)
        if not is_sym(v) and not isinstance(v, (int, float, str, bytes)):
            for n in ("__int__", "__index__", "__trunc__"):
                m = I.lookup(type(v), n)
                if isinstance(m, types.FunctionType):
                    r = call(m, (v,))
                    if type(r) is not T and not isinstance(r, int):
                        raise Raised(TypeError("__int__ returned non-int"))
                    return as_int(r)
        return native(int, (v,), {})
    if isinstance(v, SymStr):
        return parse_int(v, base)
    if isinstance(v, (SymBytes, SymBA)):
        return parse_int(SymStr([("ch", x) if type(x) is T else chr(x) for x in vl.items(raw(v))]), base)
    return native(int, (v, base), {})


def digit_val(c, base):
    """(is_digit condition, value) of a character term in an ASCII digit base"""
    c = vl.code(c)
    conds, val = [], 0
    d = tm.and_(tm.le(48, c), tm.le(c, 47 + min(base, 10)))
    if base <= 10:
        return d, tm.sub(c, 48)
    u = tm.and_(tm.le(65, c), tm.le(c, 54 + base))
    l = tm.and_(tm.le(97, c), tm.le(c, 86 + base))
    return tm.or_(d, u, l), tm.ite(d, tm.sub(c, 48), tm.ite(u, tm.sub(c, 55), tm.sub(c, 87)))


def parse_int(s, base):
    p = current()
    if base == 10 and len(s.parts) == 1 and not isinstance(s.parts[0], str) and s.parts[0][0] == "dec":
        return s.parts[0][1]
    ch = s.chars()
    # strip whitespace (ASCII)
    ch = strip_chars(ch, None)
    if not ch:
        raise Raised(ValueError("invalid literal for int()"))
    sign = 1
    c0 = vl.code(ch[0])
    if p.branch(tm.eq(c0, 45)):
        sign, ch = -1, ch[1:]
    elif p.branch(tm.eq(c0, 43)):
        ch = ch[1:]
    if not ch:
        raise Raised(ValueError("invalid literal for int()"))
    acc, ds = 0, []
    for c in ch:
        c = vl.code(c)
        if type(c) is T and (c.hi is None or c.hi > 127) and not p.branch(tm.lt(c, 128)):
            raise Unsupported("non-ASCII digits")
        if type(c) is not T and c > 127:
            raise Unsupported("non-ASCII digits")
        ok, v = digit_val(c, base)
        if not p.branch(ok):
            if p.branch(tm.eq(c, 95)):
                raise Unsupported("underscore in integer text")
            raise Raised(ValueError("invalid literal for int()"))
        if base > 10:
            # decide the digit class to keep the value linear
            if p.branch(tm.le(c, 57)):
                v = tm.sub(c, 48)
            elif p.branch(tm.le(c, 90)):
                v = tm.sub(c, 55)
            else:
                v = tm.sub(c, 87)
        ds.append(v)
        acc = tm.add(tm.scale(acc, base) if type(acc) is T else acc * base, v)
    if base == 10:
        y = p.cells.get(("undec", tuple(ds)))
        if y is not None:
            acc = y
    return acc if sign == 1 else tm.neg(acc)


def strip_chars(ch, chars, left=True, right=True):
    p = current()
    ws = [ord(c) for c in (" \t\n\r\x0b\x0c" if chars is None else chars)]

    def isws(c):
        c = vl.code(c)
        return tm.or_(*[tm.eq(c, w) for w in ws])
    ch = list(ch)
    while left and ch and p.branch(isws(ch[0])):
        ch.pop(0)
    while right and ch and p.branch(isws(ch[-1])):
        ch.pop()
    return ch


@model(bool)
def m_bool(v=False):
    if type(v) is T:
        return v if v.sort == "B" else tm.ne(v, 0)
    return truth(v)


@model(float)
def m_float(v=0.0):
    from . import floats
    if isinstance(v, SymStr):
        if len(v.parts) == 1 and not isinstance(v.parts[0], str) and v.parts[0][0] == "dec":
            return floats.from_int(v.parts[0][1])
        raise Unsupported("float of symbolic text")
    if isinstance(v, Sym):
        return v.dv_float()
    if type(v) is T:
        return floats.from_int(as_int(v))
    m = I.lookup(type(v), "__float__")
    if I.in_user(m):
        return call(m, (v,))
    return native(float, (v,), {})


@model(str)
def m_str(v="", *a, **k):
    if a or k:
        return call(getattr_(v, "decode"), a, k)
    return I.str_of(v)


@model(repr)
def m_repr(v):
    return I.repr_of(v)


@model(format)
def m_format(v, spec=""):
    return I.format_of(v, spec)


@model(bytes)
def m_bytes(v=MISSING, *a, **k):
    return _mk_bytes(v, a, k)


def _mk_bytes(v, a, k):
    v = I.eager(v)
    if v is MISSING:
        return b""
    if isinstance(v, (str, SymStr)):
        if isinstance(v, str):
            return natively(bytes, (v,) + a, k)
        return str_encode(v, *a, **k)
    if isinstance(v, SymBytes):
        return v
    if isinstance(v, SymBA):
        return v.b
    if isinstance(v, SymMV):
        return v.get()
    if type(v) is T:
        v = as_int(v)
        p = current()
        if p.branch(tm.lt(v, 0)):
            raise Raised(ValueError("negative count"))
        lo, hi = p.interval(v)
        if hi is not None and lo is not None and hi - lo <= 16:
            return bytes(p.concretize(v))
        return vl.simp(SymBytes((("s", tm.ZEROS, 0, p.norm(v)),)))
    if isinstance(v, Sym):
        if type(v) is SymRange:
            from . import seqs
            return seqs.bytes_of(v)
        return v.dv_bytes()
    if isinstance(v, (bytes, bytearray, memoryview, int)) and not isinstance(v, bool):
        return natively(bytes, (v,), {})
    m = I.lookup(type(v), "__bytes__")
    if isinstance(m, types.FunctionType):
        return call(m, (v,))
    if not isinstance(v, (list, tuple, range)) and I.lookup(type(v), "__iter__") is None and I.lookup(type(v), "__getitem__") is None:
        return native(bytes, (v,), {})
    return vl.from_items([byte_item(x) for x in iterate(v)])


def byte_item(x):
    x = index(x)
    p = current()
    if not p.branch(tm.and_(tm.le(0, x), tm.le(x, 255))):
        raise Raised(ValueError("bytes must be in range(0, 256)"))
    return x


@model(bytearray)
def m_bytearray(v=MISSING, *a, **k):
    return SymBA(_mk_bytes(v, a, k))


@model(memoryview)
def m_memoryview(v):
    if isinstance(v, SymMV):
        return SymMV(v.base, v.off, v.n, v.ro)
    if isinstance(v, (SymBA,)):
        return SymMV(v, 0, vl.length(v), False)
    if isinstance(v, SymBytes):
        return SymMV(v, 0, vl.length(v), True)
    return native(memoryview, (v,), {})


class SymRange(Sym):
    dv_type = range

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def dv_iter(self):
        p = current()

        def g():
            i = self.start
            while p.branch(tm.lt(i, self.stop) if self.step > 0 else tm.gt(i, self.stop)):
                yield i
                i = tm.add(i, self.step)
        return g()

    def dv_len(self):
        p = current()
        if self.step > 0:
            if not p.branch(tm.lt(self.start, self.stop)):
                return 0
            return tm.div(tm.add(tm.sub(self.stop, self.start), self.step - 1), self.step)
        if not p.branch(tm.gt(self.start, self.stop)):
            return 0
        return tm.div(tm.add(tm.sub(self.start, self.stop), -self.step - 1), -self.step)

    def dv_contains(self, x):
        if not I._intlike(x):
            return False
        x = as_int(x)
        c = tm.and_(tm.le(self.start, x), tm.lt(x, self.stop)) if self.step > 0 else tm.and_(tm.le(x, self.start), tm.lt(self.stop, x))
        if abs(self.step) != 1:
            c = tm.and_(c, tm.eq(tm.mod(tm.sub(x, self.start), abs(self.step)), 0))
        return c

    def dv_getattr(self, n):
        if n in ("start", "stop", "step"):
            return getattr(self, n)
        raise Unsupported(f"range.{n}")

    def dv_truth(self):
        return truth(tm.gt(self.dv_len(), 0))

    def dv_eq(self, o):
        raise Unsupported("range equality")

    def dv_getitem(self, i):
        if isinstance(i, slice):
            raise Unsupported("range slice")
        p = current()
        n = self.dv_len()
        if p.branch(tm.lt(i, 0)):
            i = tm.add(i, n)
        if not p.branch(tm.and_(tm.le(0, i), tm.lt(i, n))):
            raise Raised(IndexError("range object index out of range"))
        return tm.add(self.start, tm.mul(i, self.step))


@model(range)
def m_range(*a):
    a = [index(x) for x in a]
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if type(step) is T:
        step = current().concretize(step)
    if step == 0:
        raise Raised(ValueError("range() arg 3 must not be zero"))
    if type(start) is not T and type(stop) is not T:
        return range(start, stop, step)
    return SymRange(start, stop, step)


@model(isinstance)
def m_isinstance(x, c):
    return isinstance_(x, c)


@model(issubclass)
def m_issubclass(a, b):
    return natively(issubclass, (a, b), {})


@model(hasattr)
def m_hasattr(o, n):
    try:
        getattr_(o, n)
        return True
    except Raised as r:
        if isinstance(r.exc, AttributeError):
            return False
        raise


@model(getattr)
def m_getattr(o, n, *d):
    if is_sym(n):
        raise Unsupported("symbolic attribute name")
    try:
        return getattr_(o, n)
    except Raised as r:
        if d and isinstance(r.exc, AttributeError):
            return d[0]
        raise


@model(setattr)
def m_setattr(o, n, v):
    I.setattr_(o, n, v)


@model(delattr)
def m_delattr(o, n):
    I.delattr_(o, n)


@model(id)
def m_id(o):
    raise Unsupported("id()")


@model(callable)
def m_callable(o):
    if isinstance(o, (I.IFunc, I.BoundModel)):
        return True
    return False if is_sym(o) else callable(o)


@model(print)
def m_print(*a, **k):
    return None


@model(abs)
def m_abs(v):
    if type(v) is T:
        v = as_int(v)
        return v if current().branch(tm.ge(v, 0)) else tm.neg(v)
    if isinstance(v, Sym):
        return v.dv_abs()
    return native(abs, (v,), {})


def _minmax(less, f):
    def m(*a, key=None, default=MISSING):
        if not deep_sym(a) and key is None and not any(I.is_user_class(type(x)) for x in a):
            try:
                vs = list(a[0]) if len(a) == 1 else list(a)
                if not any(I.is_user_class(type(x)) for x in vs):
                    if not vs and default is not MISSING:
                        return default
                    return natively(f, (vs,), {})
            except TypeError:
                pass
            a = (vs,) if len(a) == 1 else tuple(vs)
        vs = list(iterate(a[0])) if len(a) == 1 else list(a)
        if not vs:
            if default is not MISSING:
                return default
            raise Raised(ValueError("arg is an empty sequence"))
        kf = (lambda x: call(key, (x,))) if key is not None else (lambda x: x)
        best, bk = vs[0], kf(vs[0])
        for x in vs[1:]:
            k = kf(x)
            c = compare(less, k, bk)
            if type(c) is T and type(x) is T and type(best) in (T, int) and key is None:
                best = bk = tm.ite(c, x, best)
                continue
            if type(c) is T and isinstance(x, int) and type(best) is T and key is None:
                best = bk = tm.ite(c, x, best)
                continue
            if truth(c):
                best, bk = x, k
        return best
    return m


MODELS[min] = _minmax(ast.Lt, min)
MODELS[max] = _minmax(ast.Gt, max)


@model(sum)
def m_sum(it, start=0):
    acc = start
    for x in iterate(it):
        acc = binop(ast.Add, acc, x)
    return acc


@model(divmod)
def m_divmod(a, b):
    return binop(ast.FloorDiv, a, b), binop(ast.Mod, a, b)


@model(pow)
def m_pow(a, b, m=None):
    if m is not None:
        if is_sym(a) or is_sym(b) or is_sym(m):
            raise Unsupported("pow with modulus")
        return natively(pow, (a, b, m), {})
    return binop(ast.Pow, a, b)


@model(round)
def m_round(v, *a):
    if type(v) is T and not a:
        return as_int(v)
    return native(round, (v,) + a, {})


@model(map)
def m_map(f, *its):
    if len(its) == 1 and I.is_sym(its[0]):
        from . import seqs
        g = seqs.mapped(its[0], lambda x: call(f, (x,)))
        if g is not None:
            return g
    hs = [iterate(i) for i in its]

    def g():
        for xs in zip(*hs):
            yield call(f, xs)
    return g()


@model(filter)
def m_filter(f, it):
    h = iterate(it)

    def g():
        for x in h:
            if truth(call(f, (x,)) if f is not None else x):
                yield x
    return g()


@model(zip)
def m_zip(*its, strict=False):
    hs = [iterate(i) for i in its]
    if strict:
        def g():
            lists = [list(h) for h in hs]
            n = min(map(len, lists), default=0)
            for t in zip(*lists):
                yield t
            if any(len(l) != n for l in lists):
                raise Raised(ValueError("zip() argument lengths differ"))
        return g()
    return zip(*hs)


@model(enumerate)
def m_enumerate(it, start=0):
    if I.is_sym(it):
        from . import seqs
        s = seqs.source(it)
        if s is not None:
            def run(j):
                xs = s[1](j)
                if len(xs) != 1:
                    raise Unsupported("enumerate")
                return [(tm.add(start, j), xs[0])]
            return seqs.SymGen(s[0], run)
    h = iterate(it)

    def g():
        i = start
        for x in h:
            yield i, x
            i = tm.add(i, 1)
    return g()


@model(reversed)
def m_reversed(v):
    m = I.lookup(type_of(v), "__reversed__")
    if I.in_user(m):
        return iterate(call(m, (v,)))
    if isinstance(v, SymRange):
        return iter(list(iterate(v))[::-1])
    if isinstance(v, range):
        return reversed(v)
    return iter(list(iterate(v))[::-1])


def isort(vs, key=None, reverse=False):
    """stable insertion sort with interpreted comparisons"""
    kf = (lambda x: call(key, (x,))) if key is not None else (lambda x: x)
    out = []
    src = list(vs)[::-1] if reverse else list(vs)
    for x in src:
        k = kf(x)
        i = len(out)
        while i > 0 and truth(compare(ast.Lt, k, out[i - 1][0])):
            i -= 1
        out.insert(i, (k, x))
    r = [x for _, x in out]
    return r[::-1] if reverse else r


def _needs_interp(vs):
    return any(is_sym(x) or deep_sym(x) or I.is_user_class(type(x)) for x in vs)


@model(sorted)
def m_sorted(it, key=None, reverse=False):
    vs = list(iterate(it))
    if key is None and not _needs_interp(vs):
        return natively(sorted, (vs,), {"reverse": truth(reverse)})
    return isort(vs, key, truth(reverse))


def m_list_sort(self, key=None, reverse=False):
    self[:] = m_sorted(list(self), key=key, reverse=reverse)


METHODS[(list, "sort")] = m_list_sort


@method(list, "index")
def m_list_index(self, x, *a):
    lo = a[0] if a else 0
    for i in range(lo, a[1] if len(a) > 1 else len(self)):
        if self[i] is x or truth(equals(self[i], x)):
            return i
    raise Raised(ValueError("x is not in list"))


METHODS[(tuple, "index")] = m_list_index


@method(list, "remove")
def m_list_remove(self, x):
    i = m_list_index(self, x)
    del self[i]


@method(list, "count")
def m_list_count(self, x):
    n = 0
    for y in self:
        if y is x or truth(equals(y, x)):
            n += 1
    return n


METHODS[(tuple, "count")] = m_list_count


@method(dict, "get")
def m_dict_get(self, k, d=None):
    return I.dict_get(self, k, d)


@model((dict, "fromkeys"))
def m_fromkeys(cls, it, v=None):
    return {k: v for k in iterate(it)}


@model(any)
def m_any(it):
    for x in iterate(it):
        if truth(x):
            return True
    return False


@model(all)
def m_all(it):
    for x in iterate(it):
        if not truth(x):
            return False
    return True


@model(iter)
def m_iter(v, *sentinel):
    if sentinel:
        def g():
            while True:
                x = call(v)
                if truth(equals(x, sentinel[0])):
                    return
                yield x
        return g()
    h = iterate(v)
    return h


@model(next)
def m_next(it, *d):
    m = I.lookup(type(it), "__next__")
    try:
        if I.in_user(m):
            return call(m, (it,))
        return next(it)
    except StopIteration as e:
        if d:
            return d[0]
        raise Raised(e)
    except Raised as r:
        if d and isinstance(r.exc, StopIteration):
            return d[0]
        raise
    except TypeError as e:
        raise Raised(e)


@model(list)
def m_list(it=()):
    it = I.eager(it)
    if I.is_sym(it):
        from . import seqs
        segs = seqs.segs_of(it)
        return seqs.simp(seqs.SymList(segs))
    return list(iterate(it))


@model(tuple)
def m_tuple(it=()):
    it = I.eager(it)
    return tuple(iterate(it))


@model(set)
def m_set(it=()):
    vs = list(iterate(it))
    if any(deep_sym(v) for v in vs):
        return I.SymSet(vs)
    return natively(set, (vs,), {})


@model(frozenset)
def m_frozenset(it=()):
    vs = list(iterate(it))
    if any(deep_sym(v) for v in vs):
        return I.SymSet(vs)
    return natively(frozenset, (vs,), {})


@model(dict)
def m_dict(*a, **k):
    d = {}
    if a:
        src = a[0]
        if isinstance(src, dict):
            d.update(src)
        else:
            for kv in iterate(src):
                q, v = list(iterate(kv))
                if deep_sym(q):
                    raise Unsupported("symbolic dictionary key")
                d[q] = v
    d.update(k)
    return d


@model(collections.deque)
def m_deque(it=(), maxlen=None):
    if I.is_sym(it):
        from . import seqs
        s = seqs.source(it)
        if s is not None:
            return seqs.SymDeque(seqs.collect(*s))
    return collections.deque(list(iterate(it)), maxlen)


DQ_OK = {"append", "appendleft", "pop", "popleft", "clear", "extend", "copy", "rotate", "reverse"}
for _n in DQ_OK:
    def _mk(n):
        def m(self, *a):
            if n == "extend":
                a = (list(iterate(a[0])),)
            return natively(getattr(collections.deque, n), (self,) + a, {})
        return m
    METHODS[(collections.deque, _n)] = _mk(_n)


@model(ord)
def m_ord(c):
    if isinstance(c, SymStr):
        ch = c.chars()
        if len(ch) != 1:
            raise Raised(TypeError("ord() expected a character"))
        return vl.code(ch[0])
    if isinstance(c, SymBytes):
        return vl.items(c)[0]
    return native(ord, (c,), {})


@model(chr)
def m_chr(v):
    if type(v) is T:
        if not current().branch(tm.and_(tm.le(0, v), tm.lt(v, 0x110000))):
            raise Raised(ValueError("chr() arg not in range"))
        return vl.mkstr([v])
    return native(chr, (v,), {})


@model(bin)
def m_bin(v):
    if type(v) is T:
        return SymStr([("opaque", "bin")])
    return native(bin, (v,), {})


@model(hex)
def m_hex(v):
    if type(v) is T:
        return SymStr([("opaque", "hex")])
    return native(hex, (v,), {})


M61 = (1 << 61) - 1


@model(hash)
def m_hash(v):
    """hash of integers is exact (64-bit CPython); hashes of other values are opaque"""
    if type(v) is T:
        return hash_int(as_int(v))
    if not is_sym(v):
        m = I.lookup(type(v), "__hash__")
        if I.in_user(m):
            r = call(m, (v,))
            return hash_int(r) if type(r) is T else natively(hash, (r,), {})
        if isinstance(v, tuple) and deep_sym(v):
            return tm.uf(f"hash_tuple{len(v)}", [hash_int(as_int(x)) if I._intlike(x) else m_hash(x) for x in v])
    return native(hash, (v,), {})


def hash_int(x):
    if type(x) is not T:
        return hash(x)
    lo, hi = current().interval(x)
    if lo is not None and hi is not None and lo >= 0 and hi < M61:
        return x
    return tm.uf("hash_int", [x])


# ---------------------------------------------------------------- int methods

@model((int, "from_bytes"))
def m_from_bytes(cls, b, byteorder="big", *, signed=False):
    if isinstance(b, SymMV):
        b = b.get()
    if is_sym(byteorder):
        raise Unsupported("byteorder")
    if byteorder not in ("big", "little"):
        raise Raised(ValueError("byteorder must be either 'little' or 'big'"))
    if not isinstance(b, (SymBytes, SymBA)):
        if isinstance(b, (list, tuple)) or isinstance(b, types.GeneratorType):
            b = _mk_bytes(b, (), {})
            if not isinstance(b, SymBytes):
                return int.from_bytes(b, byteorder, signed=signed)
        elif not is_sym(b) and not isinstance(b, (bytes, bytearray, memoryview)):
            b = _mk_bytes(b, (), {})
            if not isinstance(b, SymBytes):
                return int.from_bytes(b, byteorder, signed=signed)
        elif is_sym(b):
            raise Raised(TypeError("cannot convert object to bytes"))
        else:
            return natively(int.from_bytes, (b, byteorder), {"signed": truth(signed)})
    return vl.from_bytes(b, byteorder, truth(signed))


@method(int, "to_bytes")
def m_to_bytes(v, length=1, byteorder="big", *, signed=False):
    v = as_int(v)
    if byteorder not in ("big", "little"):
        raise Raised(ValueError("byteorder must be either 'little' or 'big'"))
    length = index(length)
    if type(v) is not T and type(length) is not T:
        return natively(int.to_bytes, (v, length, byteorder), {"signed": truth(signed)})
    return vl.to_bytes(v, length, byteorder, truth(signed))


@method(int, "bit_length")
def m_bit_length(v):
    v = as_int(v)
    if type(v) is not T:
        return v.bit_length()
    p = current()
    lo, hi = p.interval(v)
    if hi is None or hi >= 1 << 300:
        if p.entails(tm.lt(v, 1 << 300)):
            hi = (1 << 300) - 1
    if lo is None or lo < 0:
        if not p.branch(tm.ge(v, 0)):
            v = tm.neg(v)
            lo, hi = p.interval(v)
    if (hi is None or hi > 1 << 300) and not p.branch(tm.lt(v, 1 << 300)):
        return p.int_var("bits!", 301, None)
    hi = (1 << 300) - 1 if hi is None else min(hi, (1 << 300) - 1)
    r = 0
    for k in range(hi.bit_length()):
        r = tm.add(r, tm.b2i(tm.ge(v, 1 << k)))
    return r


@method(int, "bit_count")
def m_bit_count(v):
    v = as_int(v)
    if type(v) is not T:
        return v.bit_count()
    lo, hi = current().interval(v)
    if lo is None or lo < 0 or hi is None or hi >= 1 << 300:
        raise Unsupported("bit_count")
    r = 0
    for k in range(hi.bit_length()):
        r = tm.add(r, tm.mod(tm.div(v, 1 << k), 2))
    return r


@method(int, "__index__", "__int__", "conjugate")
def m_int_index(v):
    return as_int(v)


@method(int, "is_integer")
def m_is_integer(v):
    return True


# ---------------------------------------------------------------- octet methods

BL = (bytes, bytearray)


def both(*names):
    def d(f):
        for n in names:
            METHODS[(bytes, n)] = f
            METHODS[(bytearray, n)] = f
        return f
    return d


def sym_any(*a):
    return any(isinstance(x, (SymBytes, SymBA, SymMV)) or type(x) is T for x in a)


def raw(v):
    return v.b if isinstance(v, SymBA) else v.get() if isinstance(v, SymMV) else v


def back(self, r):
    return SymBA(r) if isinstance(self, (SymBA, bytearray)) else r


@both("hex")
def b_hex(self, *a):
    if not sym_any(self):
        return natively(self.hex, a, {})
    its = raw(self)
    n = current().norm(vl.length(its))
    if type(n) is T:
        if len(a) > 1:
            return SymStr([("opaque", "hex")])
        return SymStr([("hexb", its, a[0] if a else "")])
    try:
        parts = []
        if a:
            sep = a[0]
            if len(a) > 1:
                raise Unsupported("hex grouping")
            for i, x in enumerate(vl.items(its)):
                if i:
                    parts.append(sep)
                parts.append(("hex2", x) if type(x) is T else f"{x:02x}")
        else:
            for x in vl.items(its):
                parts.append(("hex2", x) if type(x) is T else f"{x:02x}")
        return vl.simps(SymStr(parts))
    except Unsupported:
        return SymStr([("opaque", "hex")])


METHODS[(memoryview, "hex")] = b_hex


@method(memoryview, "tobytes")
def mv_tobytes(self):
    return self.get() if isinstance(self, SymMV) else natively(self.tobytes, (), {})


@method(memoryview, "release")
def mv_release(self):
    return None


@method(memoryview, "__len__")
def mv_len(self):
    return self.n if isinstance(self, SymMV) else len(self)


@both("__len__")
def b_len(self):
    return m_len(self)


@both("startswith")
def b_startswith(self, pre, *a):
    if a:
        self = I.getitem(self, slice(*a, None) if len(a) == 1 else slice(*a))
    if not sym_any(self, pre):
        return natively(self.startswith, (pre,), {})
    if isinstance(pre, tuple):
        return tm.or_(*[b_startswith(self, q) for q in pre])
    n = vl.length(raw(pre))
    if not current().branch(tm.le(n, vl.length(self))):
        return False
    l, _ = vl.cut(raw(self), n)
    return vl.bytes_eq(l, raw(pre))


@both("endswith")
def b_endswith(self, suf):
    if not sym_any(self, suf):
        return natively(self.endswith, (suf,), {})
    n = vl.length(raw(suf))
    m = vl.length(self)
    if not current().branch(tm.le(n, m)):
        return False
    _, r = vl.cut(raw(self), tm.sub(m, n))
    return vl.bytes_eq(r, raw(suf))


@both("join")
def b_join(self, it):
    it = I.eager(it)
    if I.is_sym(it):
        from . import seqs
        r = seqs.join_bytes(raw(self), it)
        if r is not None:
            return back(self, r)
    vs = list(iterate(it))
    out = []
    for i, v in enumerate(vs):
        if not issubclass(type_of(v), (bytes, bytearray, memoryview)):
            raise Raised(TypeError(f"sequence item {i}: expected a bytes-like object, {type_of(v).__name__} found"))
        if i:
            out.append(raw(self))
        out.append(raw(v))
    return back(self, vl.concat(*out))


@both("replace")
def b_replace(self, old, new, count=-1):
    if not sym_any(self, old, new):
        return natively(self.replace, (old, new, count), {})
    if type(count) is T or sym_any(old, new) or count != -1 or not old:
        raise Unsupported("replace with symbolic arguments")
    p = current()
    its = vl.items(raw(self))
    old, new = list(bytes(old)), list(bytes(new))
    if len(old) == 1 and len(new) == 1:
        return back(self, vl.from_items([tm.ite(tm.eq(x, old[0]), new[0], x) for x in its]))
    out, i = [], 0
    while i < len(its):
        w = its[i:i + len(old)]
        if len(w) == len(old) and p.branch(tm.and_(*[tm.eq(x, y) for x, y in zip(w, old)])):
            out += new
            i += len(old)
        else:
            out.append(its[i])
            i += 1
    return back(self, vl.from_items(out))


@both("find", "index")
def b_find(self, sub, start=None, stop=None):
    return _find(self, sub, start, stop, True)


@both("index")
def b_index(self, sub, start=None, stop=None):
    r = _find(self, sub, start, stop, True)
    if current().branch(tm.lt(r, 0)):
        raise Raised(ValueError("subsection not found"))
    return r


@both("find")
def b_find2(self, sub, start=None, stop=None):
    return _find(self, sub, start, stop, True)


@both("count")
def b_count(self, sub, *a):
    if not sym_any(self, sub, *a):
        return natively(self.count, (sub,) + a, {})
    if a:
        raise Unsupported("count range")
    its = vl.items(raw(self))
    ned = [sub] if I._intlike(sub) else vl.items(raw(sub))
    if len(ned) != 1:
        raise Unsupported("count of a substring")
    r = 0
    for x in its:
        r = tm.add(r, tm.b2i(tm.eq(x, ned[0])))
    return r


def _find(self, sub, start, stop, first):
    if not sym_any(self, sub, start, stop):
        a = (sub,) if start is None else (sub, start) if stop is None else (sub, start, stop)
        return natively(self.find, a, {})
    p = current()
    v = raw(self)
    n = vl.length(v)
    a = vl.clamp(start, n, 0)
    b = vl.clamp(stop, n, n)
    ned = [sub] if I._intlike(sub) else vl.items(raw(sub))
    if len(ned) == 1 and isinstance(v, SymBytes) and any(s[0] == "s" and type(s[3]) is T for s in v.segs):
        if type(ned[0]) is T:
            raise Unsupported("search for a symbolic octet")
        from .loops import first_index
        if p.branch(tm.ge(a, b)):
            return -1
        k = first_index(vl.of_bytes(vl.get_slice(v, a, b)), ned[0])
        return k if type(k) is int and k == -1 else tm.add(a, k)
    its = vl.items(v)
    a, b = p.concretize(a), p.concretize(b)
    for i in range(a, b - len(ned) + 1):
        if p.branch(tm.and_(*[tm.eq(x, y) for x, y in zip(its[i:i + len(ned)], ned)])):
            return i
    return -1


@both("strip", "lstrip", "rstrip")
def b_strip(self, *a):
    if sym_any(self):
        raise Unsupported("bytes.strip")
    return natively(self.strip, a, {})


@both("ljust", "rjust")
def b_ljust(self, width, fill=b" "):
    if not sym_any(self, width, fill):
        return natively(self.ljust, (width, fill), {})
    n = vl.length(self)
    k = tm.sub(width, n)
    if current().branch(tm.le(k, 0)):
        return self
    k = current().concretize(k)
    return back(self, vl.concat(raw(self), bytes(fill) * k))


@method(bytes, "rjust")
def b_rjust(self, width, fill=b" "):
    if not sym_any(self, width, fill):
        return natively(self.rjust, (width, fill), {})
    k = tm.sub(width, vl.length(self))
    if current().branch(tm.le(k, 0)):
        return self
    k = current().concretize(k)
    return back(self, vl.concat(bytes(fill) * k, raw(self)))


@both("copy")
def b_copy(self):
    return SymBA(raw(self))


def _cp_table(enc):
    out = []
    for i in range(256):
        try:
            out.append(ord(bytes([i]).decode(enc)))
        except UnicodeDecodeError:
            out.append(-1)
    return tuple(out)


_CP: dict = {}


@both("decode")
def b_decode(self, encoding="utf-8", errors="strict"):
    if not sym_any(self):
        return natively(self.decode, (encoding, errors), {})
    p = current()
    e = encoding.lower().replace("_", "-")
    if e in ("ascii", "utf-8", "utf8") and errors == "strict":
        e = "ascii" if e == "ascii" else "utf-8"
        r = vl.of_bytes(raw(self))
        t = p.cells.get(("text of", e, vl.of_bytes(r).segs))
        if t is not None:
            return t
        if type(vl.length(r)) is T:
            if p.branch(vl.text_valid(e, r)):
                return vl.enc_text(e, vl.simp(r))
            raise Raised(UnicodeDecodeError(e, b"\x00", 0, 1, "not the encoding of a text"))
    its = vl.items(raw(self))
    if e in ("cp1251", "windows-1251", "ascii", "latin-1", "iso-8859-1", "latin1"):
        tab = _CP.setdefault(e, _cp_table(e))
        out = []
        for x in its:
            c = tm.lut(tab, x) if type(x) is T else tab[x]
            bad = [i for i, v in enumerate(tab) if v < 0]
            if bad and p.branch(tm.or_(*[tm.eq(x, i) for i in bad]) if len(bad) < 20 else tm.ge(x, 128)):
                if errors != "strict":
                    raise Unsupported("decode errors mode")
                raise Raised(UnicodeDecodeError(e, b"\x00", 0, 1, "character maps to <undefined>"))
            if type(c) is T and bad and len(bad) >= 20:
                c = x
            out.append(c)
        return vl.mkstr(out)
    if e in ("utf-8", "utf8"):
        out = []
        for x in its:
            if not p.branch(tm.lt(x, 128)):
                r = vl.of_bytes(raw(self))
                if p.branch(vl.text_valid("utf-8", r)):
                    return vl.enc_text("utf-8", vl.simp(r))
                raise Raised(UnicodeDecodeError(e, b"\x00", 0, 1, "not the encoding of a text"))
            out.append(x)
        return vl.mkstr(out)
    raise Unsupported(f"decode {encoding}")


@model((bytes, "fromhex"), (bytearray, "fromhex"))
def b_fromhex(cls, s):
    if not isinstance(s, SymStr):
        r = native(bytes.fromhex, (s,), {})
    else:
        p = current()
        if len(s.parts) == 1 and not isinstance(s.parts[0], str) and s.parts[0][0] == "hexb" and s.parts[0][2].strip() == "":
            r = s.parts[0][1]
            return SymBA(r) if cls is bytearray else r
        ch = s.chars()
        out, i = [], 0
        # fast path: two-digit atoms keep their octet
        atoms = [q for q in s.parts]
        if all(not isinstance(q, str) and q[0] == "hex2" or isinstance(q, str) and q.strip() == "" for q in atoms):
            r = vl.from_items([q[1] for q in atoms if not isinstance(q, str)])
            return SymBA(r) if cls is bytearray else r
        while i < len(ch):
            c = vl.code(ch[i])
            if p.branch(tm.or_(*[tm.eq(c, w) for w in (32, 9, 10, 11, 12, 13)])):
                i += 1
                continue
            vals = []
            for j in (0, 1):
                if i + j >= len(ch):
                    raise Raised(ValueError("non-hexadecimal number found in fromhex()"))
                ok, v = digit_val(ch[i + j], 16)
                if not p.branch(ok):
                    raise Raised(ValueError("non-hexadecimal number found in fromhex()"))
                vals.append(v)
            out.append(tm.add(tm.scale(vals[0], 16) if type(vals[0]) is T else vals[0] * 16, vals[1]))
            i += 2
        r = vl.from_items(out)
    return SymBA(r) if cls is bytearray else r


# bytearray mutators

@method(bytearray, "append")
def ba_append(self, x):
    if not isinstance(self, SymBA):
        raise Unsupported("native bytearray")
    x = index(x)
    if not current().branch(tm.and_(tm.le(0, x), tm.le(x, 255))):
        raise Raised(ValueError("byte must be in range(0, 256)"))
    self.b = vl.concat(self.b, vl.from_items([x]))


@method(bytearray, "extend")
def ba_extend(self, it):
    it = I.eager(it)
    self.b = vl.concat(self.b, I.to_octets(it))


@method(bytearray, "clear")
def ba_clear(self):
    self.b = b""


@method(bytearray, "pop")
def ba_pop(self, i=-1):
    x = I.getitem(self, i)
    n = vl.length(self)
    if current().branch(tm.lt(i, 0)):
        i = tm.add(i, n)
    I.delitem(self, i)
    return x


def _b_class(name):
    pred = getattr(bytes, name)

    def m(self):
        xs = vl.items(raw(self))
        if not xs:
            return False
        ok = [i for i in range(256) if pred(bytes([i]))]
        return tm.and_(*[tm.or_(*[tm.eq(x, i) for i in ok]) for x in xs])
    both(name)(m)


for _n in ("isdigit", "isalpha", "isalnum", "isspace"):
    _b_class(_n)


@method(bytearray, "insert")
def ba_insert(self, i, x):
    n = vl.length(self)
    i = vl.clamp(i, n, 0)
    l, r = vl.cut(self.b, i)
    self.b = vl.concat(l, vl.from_items([byte_item(x)]), r)


@method(bytearray, "reverse")
def ba_reverse(self):
    self.b = vl.from_items(vl.items(self.b)[::-1])


# ---------------------------------------------------------------- text methods

def smeth(*names):
    def d(f):
        for n in names:
            METHODS[(str, n)] = f
        return f
    return d


def ssym(*a):
    return any(isinstance(x, SymStr) or type(x) is T for x in a)


def nat_str(name):
    def m(self, *a, **k):
        return natively(getattr(self, name), a, k)
    return m


def cls_char(c, pred, limit=0x110000):
    """condition that a character satisfies an ASCII predicate; forks away non-ASCII"""
    p = current()
    c = vl.code(c)
    if type(c) is not T:
        return pred(chr(c))
    lo, hi = p.interval(c)
    if hi is None or hi > 0x500:
        if not p.branch(tm.lt(c, 128)):
            raise Unsupported("character class of non-ASCII text")
        hi = 127
    ok = [i for i in range(max(lo or 0, 0), hi + 1) if pred(chr(i))]
    return in_ranges(c, ok)


def in_ranges(c, ok):
    runs = []
    for i in ok:
        if runs and runs[-1][1] == i - 1:
            runs[-1][1] = i
        else:
            runs.append([i, i])
    return tm.or_(*[tm.and_(tm.le(a, c), tm.le(c, b)) for a, b in runs])


def _isx(name, empty=False):
    pred = getattr(str, name)

    def m(self):
        if not ssym(self):
            return natively(getattr(self, name), (), {})
        if len(self.parts) == 1 and not isinstance(self.parts[0], str) and self.parts[0][0] == "dec" and name in ("isdigit", "isdecimal", "isnumeric"):
            return tm.ge(self.parts[0][1], 0)
        ch = self.chars()
        if not ch:
            return empty
        return tm.and_(*[cls_char(c, pred) for c in ch])
    METHODS[(str, name)] = m


for _n in ("isdigit", "isdecimal", "isnumeric", "isalpha", "isalnum", "isspace"):
    _isx(_n)
_isx("isascii", True)


def _mapch(name):
    f = getattr(str, name)

    def m(self):
        if not ssym(self):
            return natively(getattr(self, name), (), {})
        p = current()
        out = []
        for c in self.chars():
            c = vl.code(c)
            if type(c) is not T:
                out.append(f(chr(c)))
                continue
            lo, hi = p.interval(c)
            if hi is not None and hi <= 57 and lo is not None and lo >= 48:
                out.append(c)
                continue
            if hi is None or hi > 0x500:
                if not p.branch(tm.lt(c, 128)):
                    raise Unsupported("case mapping of non-ASCII text")
                hi = 127
            tab = tuple(ord(f(chr(i))) if len(f(chr(i))) == 1 else -1 for i in range(hi + 1))
            if -1 in tab:
                raise Unsupported("case mapping")
            out.append(tm.lut(tab, c))
        return vl.mkstr(out)
    METHODS[(str, name)] = m


for _n in ("lower", "upper", "casefold", "swapcase"):
    _mapch(_n)


@smeth("title", "capitalize")
def s_title(self):
    if not ssym(self):
        return natively(self.title, (), {})
    raise Unsupported("title")


METHODS[(str, "capitalize")] = lambda self: natively(self.capitalize, (), {}) if not ssym(self) else raise_(Unsupported("capitalize"))


@smeth("zfill")
def s_zfill(self, w):
    if not ssym(self, w):
        return natively(self.zfill, (w,), {})
    p = current()
    w = p.concretize(w)
    if isinstance(self, SymStr) and len(self.parts) == 1 and self.parts[0][0] == "dec" and type(self.parts[0][1]) is T and 0 < w < 12:
        x = self.parts[0][1]
        if p.entails(tm.and_(tm.le(0, x), tm.lt(x, 10 ** w))):
            ds = [tm.mod(tm.div(x, 10 ** k), 10) for k in range(w - 1, -1, -1)]
            p.cells[("undec", tuple(ds))] = x
            return vl.mkstr([tm.add(48, d) for d in ds])
    ch = vl.chars_of(self)
    pad = ["0"] * (w - len(ch))
    if ch and truth(tm.or_(tm.eq(vl.code(ch[0]), 45), tm.eq(vl.code(ch[0]), 43))):
        return vl.mkstr(ch[:1] + pad + ch[1:])
    return vl.mkstr(pad + ch)


def _just(left):
    def m(self, w, fill=" "):
        if not ssym(self, w):
            return natively(getattr(self, "ljust" if left else "rjust"), (w, fill), {})
        w = current().concretize(w)
        ch = vl.chars_of(self)
        pad = [fill] * (w - len(ch))
        return vl.mkstr(ch + pad if left else pad + ch)
    return m


METHODS[(str, "ljust")] = _just(True)
METHODS[(str, "rjust")] = _just(False)


@smeth("join")
def s_join(self, it):
    it = I.eager(it)
    if I.is_sym(it):
        from . import seqs
        r = seqs.join_text(self, it)
        if r is not None:
            return r
    vs = list(iterate(it))
    out = []
    for i, v in enumerate(vs):
        if type_of(v) is not str and not isinstance(v, str):
            raise Raised(TypeError(f"sequence item {i}: expected str instance, {type_of(v).__name__} found"))
        if i:
            out.append(self)
        out.append(v)
    return vl.simps(SymStr(out))


@smeth("startswith")
def s_startswith(self, pre, *a):
    if a:
        self = I.getitem(self, slice(*a, None) if len(a) == 1 else slice(*a))
    if isinstance(pre, tuple):
        return tm.or_(*[s_startswith(self, q) for q in pre])
    if not ssym(self, pre):
        return natively(self.startswith, (pre,), {})
    x, y = vl.chars_of(self), vl.chars_of(pre)
    if len(y) > len(x):
        return False
    return tm.and_(*[tm.eq(vl.code(p), vl.code(q)) for p, q in zip(x, y)])


@smeth("endswith")
def s_endswith(self, suf):
    if isinstance(suf, tuple):
        return tm.or_(*[s_endswith(self, q) for q in suf])
    if not ssym(self, suf):
        return natively(self.endswith, (suf,), {})
    x, y = vl.chars_of(self), vl.chars_of(suf)
    if len(y) > len(x):
        return False
    return tm.and_(*[tm.eq(vl.code(p), vl.code(q)) for p, q in zip(x[len(x) - len(y):], y)])


@smeth("removeprefix")
def s_removeprefix(self, pre):
    if not ssym(self, pre):
        return natively(self.removeprefix, (pre,), {})
    return vl.mkstr(vl.chars_of(self)[len(vl.chars_of(pre)):]) if truth(s_startswith(self, pre)) else self


def find_sub(ch, ned, start):
    p = current()
    for i in range(start, len(ch) - len(ned) + 1):
        if p.branch(tm.and_(*[tm.eq(vl.code(x), vl.code(y)) for x, y in zip(ch[i:i + len(ned)], ned)])):
            return i
    return -1


@smeth("find")
def s_find(self, sub, *a):
    if not ssym(self, sub):
        return natively(self.find, (sub,) + a, {})
    return find_sub(vl.chars_of(self), vl.chars_of(sub), *(a or (0,)))


@smeth("index")
def s_index(self, sub, *a):
    if not ssym(self, sub):
        return natively(self.index, (sub,) + a, {})
    r = find_sub(vl.chars_of(self), vl.chars_of(sub), *(a or (0,)))
    if r < 0:
        raise Raised(ValueError("substring not found"))
    return r


@smeth("count")
def s_count(self, sub, *a):
    if not ssym(self, sub):
        return natively(self.count, (sub,) + a, {})
    if whole(sub) and not a:
        return len(split_atoms(self, sub, -1)) - 1
    ch, ned = vl.chars_of(self), vl.chars_of(sub)
    n, i = 0, 0
    while True:
        j = find_sub(ch, ned, i)
        if j < 0:
            return n
        n += 1
        i = j + len(ned)


def text_atoms(s, sep):
    """the parts of a text with decimal numbers (and tokens without the separator's characters) left whole"""
    atoms = []
    for q in s.parts if isinstance(s, SymStr) else [s]:
        if isinstance(q, str):
            atoms.extend(q)
        elif q[0] == "ch":
            atoms.append(q[1])
        elif q[0] == "dec" or q[0] == "tok" and set(sep) <= set(q[3]):
            atoms.append(q)
        else:
            atoms.extend(SymStr([q]).chars())
    return atoms


def atoms_text(xs):
    return vl.simps(SymStr([x if isinstance(x, (str, tuple)) and type(x) is not T else ("ch", x) for x in xs]))


def whole(sep):
    """a separator which no decimal number contains a character of"""
    return isinstance(sep, str) and sep and not set(sep) & set("-0123456789")


def atom_find(atoms, sep, js):
    p = current()
    for j in js:
        win = atoms[j:j + len(sep)]
        if not any(isinstance(x, tuple) and type(x) is not T for x in win) and \
                p.branch(tm.and_(*[tm.eq(vl.code(x), ord(y)) for x, y in zip(win, sep)])):
            return j
    return -1


def split_atoms(s, sep, maxsplit):
    """split without expanding decimal numbers (no separator character is a digit or a minus sign)"""
    atoms = text_atoms(s, sep)
    out, i = [], 0
    while maxsplit < 0 or len(out) < maxsplit:
        j = atom_find(atoms, sep, range(i, len(atoms) - len(sep) + 1))
        if j < 0:
            break
        out.append(atoms_text(atoms[i:j]))
        i = j + len(sep)
    out.append(atoms_text(atoms[i:]))
    return out


def rsplit_atoms(s, sep, maxsplit):
    atoms = text_atoms(s, sep)
    out, i = [], len(atoms)
    while maxsplit < 0 or len(out) < maxsplit:
        j = atom_find(atoms, sep, range(i - len(sep), -1, -1))
        if j < 0:
            break
        out.insert(0, atoms_text(atoms[j + len(sep):i]))
        i = j
    out.insert(0, atoms_text(atoms[:i]))
    return out


@smeth("split")
def s_split(self, sep=None, maxsplit=-1):
    if not ssym(self, sep):
        return natively(self.split, (sep, maxsplit), {})
    p = current()
    if whole(sep) and type(maxsplit) is int:
        return split_atoms(self, sep, maxsplit)
    ch = vl.chars_of(self)
    out = []
    if sep is None:
        if maxsplit != -1:
            raise Unsupported("split maxsplit")
        cur = None
        for c in ch:
            cc = vl.code(c)
            if p.branch(tm.or_(*[tm.eq(cc, w) for w in (32, 9, 10, 11, 12, 13)])):
                if cur is not None:
                    out.append(vl.mkstr(cur))
                cur = None
            else:
                cur = (cur or []) + [c]
        if cur is not None:
            out.append(vl.mkstr(cur))
        return out
    ned = vl.chars_of(sep)
    if not ned:
        raise Raised(ValueError("empty separator"))
    i = 0
    while maxsplit < 0 or len(out) < maxsplit:
        j = find_sub(ch, ned, i)
        if j < 0:
            break
        out.append(vl.mkstr(ch[i:j]))
        i = j + len(ned)
    out.append(vl.mkstr(ch[i:]))
    return out


@smeth("rsplit")
def s_rsplit(self, sep=None, maxsplit=-1):
    if not ssym(self, sep):
        return natively(self.rsplit, (sep, maxsplit), {})
    if sep is None or type(maxsplit) is not int:
        raise Unsupported("rsplit of symbolic text at spaces")
    if len(sep) == 0:
        raise Raised(ValueError("empty separator"))
    if maxsplit < 0 and len(sep) == 1:
        return s_split(self, sep)
    if whole(sep):
        return rsplit_atoms(self, sep, maxsplit)
    raise Unsupported("rsplit of symbolic text")


@smeth("rpartition")
def s_rpartition(self, sep):
    if not ssym(self, sep):
        return natively(self.rpartition, (sep,), {})
    if not whole(sep):
        raise Unsupported("rpartition of symbolic text")
    r = rsplit_atoms(self, sep, 1)
    return (r[0], sep, r[1]) if len(r) == 2 else ("", "", self)


for _n in ("splitlines", "rfind", "translate", "expandtabs"):
    def _mk2(n):
        def m(self, *a, **k):
            if ssym(self, *a):
                raise Unsupported(f"str.{n} on symbolic text")
            return natively(getattr(self, n), a, k)
        return m
    METHODS[(str, _n)] = _mk2(_n)


@smeth("partition")
def s_partition(self, sep):
    if not ssym(self, sep):
        return natively(self.partition, (sep,), {})
    if whole(sep):
        r = split_atoms(self, sep, 1)
        return (r[0], sep, r[1]) if len(r) == 2 else (self, "", "")
    ch, ned = vl.chars_of(self), vl.chars_of(sep)
    j = find_sub(ch, ned, 0)
    if j < 0:
        return self, "", ""
    return vl.mkstr(ch[:j]), sep, vl.mkstr(ch[j + len(ned):])


def _strip(name, l, r):
    def m(self, chars=None):
        if not ssym(self, chars):
            return natively(getattr(self, name), (chars,), {})
        return vl.mkstr(strip_chars(vl.chars_of(self), chars, l, r))
    METHODS[(str, name)] = m


_strip("strip", True, True)
_strip("lstrip", True, False)
_strip("rstrip", False, True)


@smeth("replace")
def s_replace(self, old, new, count=-1):
    if not ssym(self, old, new):
        return natively(self.replace, (old, new, count), {})
    if type(count) is not int:
        raise Unsupported("replace count")
    if whole(old):
        return s_join(new, split_atoms(self, old, count))
    if count != -1:
        raise Unsupported("replace count")
    ch, ned = vl.chars_of(self), vl.chars_of(old)
    if not ned:
        raise Unsupported("replace of empty text")
    out, i = [], 0
    while True:
        j = find_sub(ch, ned, i)
        if j < 0:
            break
        out += ch[i:j] + vl.chars_of(new)
        i = j + len(ned)
    return vl.mkstr(out + ch[i:])


@smeth("encode")
def str_encode(self, encoding="utf-8", errors="strict"):
    if not ssym(self):
        return natively(self.encode, (encoding, errors), {})
    p = current()
    e = encoding.lower().replace("_", "-")
    e = "utf-8" if e == "utf8" else e
    if any(type(q) is tuple and q[0] == "enc" for q in self.parts):
        if errors != "strict":
            raise Unsupported("encode errors mode")
        r = vl.enc_parts(self, e)
        if r is None and e == "ascii":
            r = vl.enc_parts(self, "utf-8")
            if r is not None and not p.branch(vl.text_valid("ascii", r)):
                raise Raised(UnicodeEncodeError("ascii", "?", 0, 1, "ordinal not in range(128)"))
        if r is None:
            raise Unsupported(f"{encoding} of a text of unknown length")
        return r
    r = str_encode_chars(self, e, encoding, errors, p)
    if e in ("ascii", "utf-8"):
        p.cells[("text of", e, vl.of_bytes(r).segs)] = self
        if e == "ascii":
            p.cells[("text of", "utf-8", vl.of_bytes(r).segs)] = self
    return r


def str_encode_chars(self, e, encoding, errors, p):
    out = []
    for c in self.chars():
        c = vl.code(c)
        if e in ("cp1251", "windows-1251"):
            tab = _CP.setdefault("cp1251", _cp_table("cp1251"))
            if type(c) is not T:
                out += list(natively(chr(c).encode, (encoding, errors), {}))
                continue
            if c.op == "lut" and c.args[0] == tab:
                out.append(c.args[1])
                continue
            if p.branch(tm.lt(c, 128)):
                out.append(c)
                continue
            raise Unsupported("cp1251 of arbitrary text")
        elif e in ("utf-8", "utf8", "ascii", "latin-1"):
            if type(c) is not T:
                out += list(natively(chr(c).encode, (encoding, errors), {}))
                continue
            if p.branch(tm.lt(c, 128)):
                out.append(c)
                continue
            if e == "ascii":
                raise Raised(UnicodeEncodeError("ascii", "?", 0, 1, "ordinal not in range(128)"))
            if e != "utf-8":
                raise Unsupported("latin-1 of arbitrary text")
            low = lambda t, d: tm.add(0x80, tm.mod(tm.div(t, d), 64))
            if p.branch(tm.lt(c, 0x800)):
                out += [tm.add(0xc0, tm.div(c, 64)), low(c, 1)]
            elif p.branch(tm.and_(tm.ge(c, 0xd800), tm.le(c, 0xdfff))):
                raise Raised(UnicodeEncodeError("utf-8", "?", 0, 1, "surrogates not allowed"))
            elif p.branch(tm.lt(c, 0x10000)):
                out += [tm.add(0xe0, tm.div(c, 4096)), low(c, 64), low(c, 1)]
            else:
                out += [tm.add(0xf0, tm.div(c, 262144)), low(c, 4096), low(c, 64), low(c, 1)]
            continue
        else:
            raise Unsupported(f"encode {encoding}")
    return vl.from_items(out)


def simple_format(f, a, k):
    """"...".format(...) with plain positional and keyword fields"""
    import string
    from .interp import format_of, str_of, repr_of
    out, auto = [], 0
    for lit, name, spec, conv in string.Formatter().parse(f):
        out.append(lit)
        if name is None:
            continue
        if name == "":
            name, auto = str(auto), auto + 1
        if name.isdigit() and int(name) < len(a):
            v = a[int(name)]
        elif name in k:
            v = k[name]
        else:
            return None
        if "{" in spec:
            return None
        if conv:
            v = str_of(v) if conv == "s" else repr_of(v)
        out.append(format_of(v, spec))
    return vl.simps(SymStr(out))


@smeth("format")
def s_format(self, *a, **k):
    if deep_sym(a) or deep_sym(list(k.values())):
        if isinstance(self, str):
            r = simple_format(self, a, k)
            if r is not None:
                return r
        return SymStr([("opaque", "str.format")])
    return natively(self.format, a, k)


# ---------------------------------------------------------------- struct

SIZES = {"x": 1, "c": 1, "b": 1, "B": 1, "?": 1, "h": 2, "H": 2, "f": 4, "d": 8, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8, "s": 1}


def layout(fmt):
    """[(code, size, count-as-string)] and byte order; native formats must have no padding"""
    f = fmt.decode() if isinstance(fmt, bytes) else fmt
    order, nat, body = "little", True, f
    if f[:1] in "@=<>!":
        order = {"@": "little", "=": "little", "<": "little", ">": "big", "!": "big"}[f[0]]
        nat = f[0] == "@"
        body = f[1:]
    sizes = dict(SIZES)
    if nat:
        sizes["l"] = sizes["L"] = 8
    out, num = [], ""
    for c in body:
        if c.isspace():
            continue
        if c.isdigit():
            num += c
            continue
        if c not in sizes:
            raise Unsupported(f"struct format {f!r}")
        n = int(num) if num else 1
        num = ""
        if c == "s":
            out.append((c, n))
        else:
            out += [(c, sizes[c])] * n
    if sum(s for _, s in out) != natively(struct.calcsize, (fmt,), {}):
        raise Unsupported(f"struct padding in {f!r}")
    return order, out


def text_layout(fmt):
    """layout of a format in which the counts of 's' are symbolic"""
    order, out, count = None, [], None
    for q in fmt.parts:
        if isinstance(q, str):
            body = q
            if order is None and body[:1] in "@=<>!":
                order, body = body[0], body[1:]
            if count is not None:
                if not body.startswith("s"):
                    raise Unsupported("symbolic struct format")
                out.append(("s", count))
                count, body = None, body[1:]
            o, lay = layout((order or "=") + body)
            out += lay
            if order in (None, "@") and any(n > 1 and c != "s" for c, n in lay):
                raise Unsupported("native alignment in a symbolic struct format")
            order = order or "@"
        elif q[0] == "dec" and count is None:
            order = order or "@"
            count = q[1]
        else:
            raise Unsupported("symbolic struct format")
    if count is not None:
        raise Raised(struct.error("repeat count given without format specifier"))
    return {"<": "little", ">": "big", "!": "big"}.get(order, "little"), out


@model(struct.pack)
def st_pack(fmt, *vs):
    if isinstance(fmt, SymStr):
        order, lay = text_layout(fmt)
    elif is_sym(fmt):
        raise Unsupported("symbolic struct format")
    elif not deep_sym(vs):
        return natively(struct.pack, (fmt,) + vs, {})
    else:
        order, lay = layout(fmt)
    p = current()
    need = [x for x in lay if x[0] != "x"]
    if len(need) != len(vs):
        raise Raised(struct.error(f"pack expected {len(need)} items for packing (got {len(vs)})"))
    vs = list(vs)
    out = []
    for c, n in lay:
        if c == "x":
            out.append(b"\0")
            continue
        v = vs.pop(0)
        if c == "s":
            if not issubclass(type_of(v), (bytes, bytearray)):
                raise Raised(struct.error("argument for 's' must be a bytes object"))
            v = raw(v)
            ln = vl.length(v)
            if p.branch(tm.ge(ln, n)):
                out.append(vl.cut(v, n)[0])
            else:
                if type(n) is T:
                    raise Unsupported("padding of a symbolic count")
                k = p.concretize(ln)
                out.append(vl.concat(v, bytes(n - k)))
            continue
        if c in "?c":
            raise Unsupported("struct format")
        if c in "fd":
            from . import floats
            if type(v) is T:
                v = floats.from_int(as_int(v))
            v = floats.to_sym(v)
            if v is NotImplemented:
                raise Raised(struct.error("required argument is not a float"))
            out.append((floats.pack_float if c == "f" else floats.pack_double)(v, order))
            continue
        v = as_int(v)
        if not I._intlike(v):
            m = I.lookup(type_of(v), "__index__")
            if I.in_user(m):
                v = call(m, (v,))
            else:
                raise Raised(struct.error("required argument is not an integer"))
        lo, hi = (-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1) if c.islower() else (0, (1 << 8 * n) - 1)
        if not p.branch(tm.and_(tm.le(lo, v), tm.le(v, hi))):
            raise Raised(struct.error(f"'{c}' format requires {lo} <= number <= {hi}"))
        out.append(vl.from_items(vl.split_octets(v, n, order)))
    return vl.concat(*out)


@model(struct.unpack)
def st_unpack(fmt, b):
    if is_sym(fmt):
        raise Unsupported("symbolic struct format")
    if not is_sym(b):
        return natively(struct.unpack, (fmt, b), {})
    order, lay = layout(fmt)
    total = sum(s for _, s in lay)
    b = raw(b)
    if not current().branch(tm.eq(vl.length(b), total)):
        raise Raised(struct.error(f"unpack requires a buffer of {total} bytes"))
    return _unpack(order, lay, b)


def _unpack(order, lay, b):
    out = []
    for c, n in lay:
        part, b = vl.cut(b, n)
        if c == "x":
            continue
        if c == "s":
            out.append(part)
        elif c in "?c":
            raise Unsupported("struct format")
        elif c in "fd":
            from . import floats
            out.append((floats.unpack_float if c == "f" else floats.unpack_double)(part, order))
        else:
            out.append(vl.from_bytes(part, order, c.islower()))
    return tuple(out)


@model(struct.unpack_from)
def st_unpack_from(fmt, b, offset=0):
    if not is_sym(b) and not is_sym(offset):
        return natively(struct.unpack_from, (fmt, b, offset), {})
    order, lay = layout(fmt)
    total = sum(s for _, s in lay)
    b = raw(b)
    n = vl.length(b)
    p = current()
    if p.branch(tm.lt(offset, 0)):
        if p.branch(tm.lt(tm.add(offset, n), 0)) or p.branch(tm.gt(tm.add(offset, total), 0)):
            raise Raised(struct.error("offset out of range"))
        offset = tm.add(offset, n)
    if p.branch(tm.gt(tm.add(offset, total), n)):
        raise Raised(struct.error("unpack_from requires a buffer of at least"))
    _, r = vl.cut(b, offset)
    r, _ = vl.cut(r, total)
    return _unpack(order, lay, r)


@model(struct.pack_into)
def st_pack_into(fmt, buf, offset, *vs):
    if not is_sym(buf) and not is_sym(offset) and not deep_sym(vs):
        return natively(struct.pack_into, (fmt, buf, offset) + vs, {})
    data = st_pack(fmt, *vs)
    total = vl.length(data)
    n = m_len(buf)
    p = current()
    if p.branch(tm.lt(offset, 0)):
        if p.branch(tm.lt(tm.add(offset, n), 0)) or p.branch(tm.gt(tm.add(offset, total), 0)):
            raise Raised(struct.error("offset out of range"))
        offset = tm.add(offset, n)
    if p.branch(tm.gt(tm.add(offset, total), n)):
        raise Raised(struct.error("pack_into requires a buffer of at least"))
    I.setitem(buf, slice(offset, tm.add(offset, total)), data)


# ---------------------------------------------------------------- misc

@model(math.ceil)
def m_ceil(v):
    if type(v) is T:
        return as_int(v)
    if isinstance(v, Ratio):
        return tm.neg(tm.div(tm.neg(v.num), v.den))
    return native(math.ceil, (v,), {})


@model(math.floor)
def m_floor(v):
    if type(v) is T:
        return as_int(v)
    if isinstance(v, Ratio):
        return tm.div(v.num, v.den)
    return native(math.floor, (v,), {})


class Ratio(Sym):
    """exact quotient of a symbolic integer by a positive power of two that stays below 2**53:
    the float division is exact, so the quotient may be treated as a rational number"""
    dv_type = float

    def __init__(self, num, den):
        self.num, self.den = num, den

    def dv_int(self):
        p = current()
        if p.branch(tm.ge(self.num, 0)):
            return tm.div(self.num, self.den)
        return tm.neg(tm.div(tm.neg(self.num), self.den))

    def dv_cmp(self, n, o):
        f = {"lt": tm.lt, "le": tm.le, "gt": tm.gt, "ge": tm.ge}[n]
        if I._intlike(o):
            return f(self.num, tm.scale(o, self.den) if type(o) is T else o * self.den)
        raise Unsupported("comparison of a quotient")

    def dv_eq(self, o):
        if I._intlike(o):
            return tm.eq(self.num, tm.scale(o, self.den) if type(o) is T else o * self.den)
        raise Unsupported("comparison of a quotient")

    def dv_binop(self, op, o, r):
        raise Unsupported("arithmetic on a quotient")

    def dv_getattr(self, n):
        raise Unsupported(f"float.{n}")

    def dv_str(self):
        return SymStr([("opaque", "float")])


_int_op = I.int_op


def int_op(op, a, b):
    if op is ast.Div and type(b) is not T and isinstance(b, int) and b > 0 and b & (b - 1) == 0:
        lo, hi = current().interval(a)
        if lo is not None and hi is not None and max(abs(lo), abs(hi)) < 1 << 53:
            return Ratio(a, b)
        if current().entails(tm.and_(tm.lt(a, 1 << 53), tm.gt(a, -(1 << 53)))):
            return Ratio(a, b)
    return _int_op(op, a, b)


I.int_op = int_op


@model(functools.reduce)
def m_reduce(f, it, *init):
    if init and (type(init[0]) is T or type(init[0]) is int):
        from .loops import reduce_hook
        r = reduce_hook(f, it, init[0])
        if r is not None:
            return r
    h = iterate(it)
    if init:
        acc = init[0]
    else:
        acc = next(h, MISSING)
        if acc is MISSING:
            raise Raised(TypeError("reduce() of empty iterable"))
    for x in h:
        acc = call(f, (acc, x))
    return acc


@model(itertools.chain)
def m_chain(*its):
    def g():
        for i in its:
            yield from iterate(i)
    return g()


@model((itertools.chain, "from_iterable"))
def m_chain_fi(cls, its):
    def g():
        for i in iterate(its):
            yield from iterate(i)
    return g()


@model(itertools.islice)
def m_islice(it, *a):
    return itertools.islice(iterate(it), *[current().concretize(x) if type(x) is T else x for x in a])


@model(itertools.accumulate)
def m_accumulate(it, f=None, *, initial=None):
    def g():
        h = iterate(it)
        acc = initial
        if acc is None:
            acc = next(h, MISSING)
            if acc is MISSING:
                return
        yield acc
        for x in h:
            acc = call(f, (acc, x)) if f else binop(ast.Add, acc, x)
            yield acc
    return g()


@model(itertools.count)
def m_count(start=0, step=1):
    def g():
        i = start
        while True:
            yield i
            i = binop(ast.Add, i, step)
    return g()


for _op, _f in ((ast.Add, operator.add), (ast.Sub, operator.sub), (ast.Mult, operator.mul), (ast.BitAnd, operator.and_),
                (ast.BitOr, operator.or_), (ast.BitXor, operator.xor), (ast.FloorDiv, operator.floordiv), (ast.Mod, operator.mod),
                (ast.LShift, operator.lshift), (ast.RShift, operator.rshift)):
    def _mk3(o):
        return lambda a, b: binop(o, a, b)
    MODELS[_f] = _mk3(_op)
for _op, _f in ((ast.Eq, operator.eq), (ast.NotEq, operator.ne), (ast.Lt, operator.lt), (ast.LtE, operator.le), (ast.Gt, operator.gt),
                (ast.GtE, operator.ge)):
    def _mk4(o):
        return lambda a, b: compare(o, a, b)
    MODELS[_f] = _mk4(_op)
MODELS[operator.getitem] = lambda o, i: I.getitem(o, i)
MODELS[operator.index] = index


def _log(*a, **k):
    return None


for _n in ("debug", "info", "warning", "error", "critical", "exception", "log"):
    MODELS[getattr(logging.Logger, _n)] = _log
    MODELS[getattr(logging, _n)] = _log
    I.LOGGING.update((getattr(logging.Logger, _n), getattr(logging, _n)))


import copy as _copy


@model(_copy.copy)
def m_copy(o):
    if isinstance(o, SymBA):
        return SymBA(o.b)
    if is_sym(o):
        return o
    if isinstance(o, (list, dict, set)) and type(o) in (list, dict, set):
        return o.copy()
    c = I.lookup(type(o), "__copy__")
    if I.in_user(c):
        return call(c, (o,))
    if I.is_user_class(type(o)) and hasattr(o, "__dict__") and not hasattr(type(o), "__slots__"):
        n = object.__new__(type(o))
        n.__dict__.update(o.__dict__)
        return n
    if deep_sym(o):
        raise Unsupported("copy.copy")
    return natively(_copy.copy, (o,), {})


@model(_copy.deepcopy)
def m_deepcopy(o, memo=None):
    if is_sym(o):
        return SymBA(o.b) if isinstance(o, SymBA) else o
    if isinstance(o, (list, tuple)) and type(o) in (list, tuple):
        return type(o)(m_deepcopy(x) for x in o)
    if isinstance(o, dict) and type(o) is dict:
        return {k: m_deepcopy(v) for k, v in o.items()}
    if I.is_user_class(type(o)) and I.lookup(type(o), "__deepcopy__") is None and hasattr(o, "__dict__"):
        n = object.__new__(type(o))
        for k, v in o.__dict__.items():
            n.__dict__[k] = m_deepcopy(v)
        return n
    return native(_copy.deepcopy, (o,), {})


@model(object.__setattr__)
def m_obj_setattr(o, n, v):
    I.obj_setattr(o, n, v)


@model(object.__getattribute__)
def m_obj_getattr(o, n):
    return I.obj_getattr(o, n)


@model(vars)
def m_vars(o):
    return getattr_(o, "__dict__")


# ---------------------------------------------------------------- dataclasses

@model(dataclasses.fields)
def dc_fields(obj):
    return natively(dataclasses.fields, (obj if isinstance(obj, type) else type_of(obj),), {})


def _dc_walk(v, make, seq):
    if dataclasses.is_dataclass(type_of(v)) and not isinstance(v, type):
        return make(v)
    if type(v) in (list, tuple):
        return type(v)([_dc_walk(x, make, seq) for x in v])
    if type(v) is dict:
        return {_dc_walk(k, make, seq): _dc_walk(x, make, seq) for k, x in v.items()}
    if is_sym(v) or isinstance(v, (int, str, bytes, float, type(None))):
        return v
    return call(_copy.deepcopy, (v,))


@model(dataclasses.astuple)
def dc_astuple(obj, *, tuple_factory=tuple):
    def make(o):
        return call(tuple_factory, ([_dc_walk(getattr_(o, f.name), make, tuple_factory) for f in dataclasses.fields(type_of(o))],))
    return make(obj)


@model(dataclasses.asdict)
def dc_asdict(obj, *, dict_factory=dict):
    def make(o):
        return call(dict_factory, ([(f.name, _dc_walk(getattr_(o, f.name), make, dict_factory)) for f in dataclasses.fields(type_of(o))],))
    return make(obj)


@model(dataclasses.replace)
def dc_replace(obj, **changes):
    for f in dataclasses.fields(type_of(obj)):
        if f.init and f.name not in changes:
            changes[f.name] = getattr_(obj, f.name)
    return call(type_of(obj), (), changes)
