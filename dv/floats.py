"""Models of IEEE 754 floats: a float is its binary64 bit pattern (an integer term)."""
from __future__ import annotations
import ast
import math
import struct
from . import terms as tm
from . import values as vl
from . import interp as I
from . import models as M
from .terms import T
from .values import SymStr
from .engine import Unsupported, Raised, current
from .interp import Sym

FRAC = (1 << 52) - 1
EXP = 0x7ff << 52


def bits_of(x):
    """pattern of a native float"""
    return int.from_bytes(struct.pack(">d", x), "big")


def native_of(b):
    return struct.unpack(">d", b.to_bytes(8, "big"))[0]


def add(*xs):
    r = 0
    for x in xs:
        r = tm.add(r, x)
    return r


class SymFloat(Sym):
    dv_type = float

    def __init__(self, bits):
        self.bits = bits

    # ---- parts
    def mag(self):
        return tm.mod(self.bits, 1 << 63)

    def sign(self):
        return tm.div(self.bits, 1 << 63)

    def exp(self):
        return tm.mod(tm.div(self.bits, 1 << 52), 2048)

    def frac(self):
        return tm.mod(self.bits, 1 << 52)

    def is_nan(self):
        return tm.gt(self.mag(), EXP)

    def is_inf(self):
        return tm.eq(self.mag(), EXP)

    def key(self):
        """integer with the order of the values (not for NaN)"""
        return tm.ite(tm.eq(self.sign(), 1), tm.neg(self.mag()), self.mag())

    # ---- protocol of modelled objects
    def dv_concrete(self, m):
        return native_of(m.ev(self.bits) if type(self.bits) is T else self.bits)

    def dv_eq(self, o):
        o = to_sym(o)
        if o is NotImplemented:
            return False
        return tm.and_(tm.not_(self.is_nan()), tm.not_(o.is_nan()),
                       tm.or_(tm.eq(self.bits, o.bits), tm.and_(tm.eq(self.mag(), 0), tm.eq(o.mag(), 0))))

    def dv_cmp(self, n, o):
        o = to_sym(o)
        if o is NotImplemented:
            raise Raised(TypeError(f"'{n}' not supported"))
        f = {"lt": tm.lt, "le": tm.le, "gt": tm.gt, "ge": tm.ge}[n]
        return tm.and_(tm.not_(self.is_nan()), tm.not_(o.is_nan()), f(self.key(), o.key()))

    def dv_truth(self):
        return tm.ne(self.mag(), 0)

    def flip(self):
        return SymFloat(tm.add(self.mag(), tm.sub(1 << 63, tm.scale(self.sign(), 1 << 63))))

    def dv_unop(self, op):
        if op is ast.USub:
            return self.flip()
        if op is ast.UAdd:
            return self
        raise Raised(TypeError("bad operand type for unary ~: 'float'"))

    def dv_abs(self):
        return SymFloat(self.mag())

    def dv_binop(self, op, o, r):
        if op is ast.Mult and type(o) in (int, float) and o in (1, -1):
            return self if o == 1 else self.flip()
        if op in (ast.Add, ast.Sub) and type(o) in (int, float) and o == 0 and not r and op is ast.Sub:
            return self
        raise Unsupported("arithmetic on a symbolic float")

    def dv_float(self):
        return self

    def dv_int(self):
        raise Unsupported("int of a symbolic float")

    def dv_str(self):
        p = current()
        if p.branch(self.is_nan()):
            return "nan"
        if p.branch(self.is_inf()):
            return "inf" if p.branch(tm.eq(self.sign(), 0)) else "-inf"
        return FloatText([("flt", self.bits)])

    dv_repr = dv_str

    def dv_getattr(self, n):
        if n == "__class__":
            return float
        if n == "real":
            return self
        if n == "conjugate":
            return I.BoundModel(lambda s: s, self, n)
        if n == "is_integer":
            raise Unsupported("float.is_integer")
        raise Unsupported(f"float.{n}")


class FloatText(SymStr):
    """shortest decimal text of a finite float: digits, sign, point, exponent"""

    def dv_contains(self, x):
        if isinstance(x, str) and x.strip("0123456789.e+-"):
            return False
        raise Unsupported("search in the text of a float")


def to_sym(o):
    if isinstance(o, SymFloat):
        return o
    if type(o) is float:
        return SymFloat(bits_of(o))
    if type(o) in (int, bool):
        try:
            f = float(o)
        except OverflowError:
            raise Unsupported("comparison of a float with a huge integer")
        if f != o:
            raise Unsupported("comparison of a float with an inexact integer")
        return SymFloat(bits_of(f))
    if type(o) is T:
        raise Unsupported("comparison of a symbolic float with a symbolic integer")
    return NotImplemented


# ---- struct

def pack_double(v, order):
    return vl.from_items(vl.split_octets(v.bits, 8, order))


def pack_float(v, order):
    p = current()
    s = tm.scale(v.sign(), 1 << 31)

    def out(mag):
        return vl.from_items(vl.split_octets(tm.add(s, mag), 4, order))
    if p.branch(v.is_nan()):
        # payload truncated, made quiet
        top = tm.div(v.frac(), 1 << 29)
        return out(tm.add(0x7fc00000, tm.mod(top, 1 << 22)))
    if p.branch(v.is_inf()):
        return out(0x7f800000)
    e = v.exp()
    if p.branch(tm.lt(e, 897 - 24)):
        return out(0)
    if p.branch(tm.lt(e, 897)):
        # subnormal binary32: shift the significand right, round half to even
        k = p.concretize(e)
        m = tm.add(v.frac(), (1 << 52) if k else 0)
        sh = 29 + 897 - k
        return out(round_even(m, sh))
    if p.branch(tm.gt(e, 896 + 254)):
        raise Raised(OverflowError("float too large to pack with f format"))
    q = round_even(tm.sub(v.mag(), 896 << 52), 29)
    if p.branch(tm.ge(q, 0x7f800000)):
        raise Raised(OverflowError("float too large to pack with f format"))
    return out(q)


def round_even(m, sh):
    q, r = tm.div(m, 1 << sh), tm.mod(m, 1 << sh)
    h = 1 << sh - 1
    up = tm.or_(tm.gt(r, h), tm.and_(tm.eq(r, h), tm.eq(tm.mod(q, 2), 1)))
    return tm.add(q, tm.b2i(up))


def unpack_double(part, order):
    return SymFloat(vl.from_bytes(part, order, False))


def unpack_float(part, order):
    p = current()
    b = vl.from_bytes(part, order, False)
    s = tm.div(b, 1 << 31)
    s = tm.scale(s, 1 << 63)
    mag = tm.mod(b, 1 << 31)
    e, m = tm.div(mag, 1 << 23), tm.mod(b, 1 << 23)
    sc = lambda x, k: tm.scale(x, 1 << k)
    if p.branch(tm.eq(e, 255)):
        if p.branch(tm.eq(m, 0)):
            return SymFloat(tm.add(s, EXP))
        # payload kept, made quiet
        return SymFloat(add(s, EXP | 1 << 51, sc(tm.mod(m, 1 << 22), 29)))
    if p.branch(tm.gt(e, 0)):
        return SymFloat(add(s, 896 << 52, sc(mag, 29)))
    if p.branch(tm.eq(m, 0)):
        return SymFloat(s)
    for k in range(22, -1, -1):
        if p.branch(tm.ge(m, 1 << k)):
            # value 2**(k-149) * (m / 2**k)
            return SymFloat(add(s, (1023 + k - 149 << 52) - (1 << 52), sc(m, 52 - k)))
    raise AssertionError


# ---- builtins

def from_int(v):
    p = current()
    if not p.entails(tm.and_(tm.lt(v, 1 << 1000), tm.gt(v, -(1 << 1000)))):
        raise Unsupported("float of an unbounded integer")
    r = SymFloat(tm.uf("f64_of_int", (v,), 0, (1 << 64) - 1))
    # known of the conversion: zero, sign, and the exponent range of the magnitudes possible here
    lo, hi = p.interval(v)
    top = max(abs(lo), abs(hi)).bit_length() if lo is not None and hi is not None else 1000
    p.assume(tm.iff(tm.eq(v, 0), tm.eq(r.bits, 0)))
    p.assume(tm.iff(tm.lt(v, 0), tm.eq(r.sign(), 1)))
    p.assume(tm.or_(tm.eq(v, 0), tm.and_(tm.le(1023, r.exp()), tm.le(r.exp(), 1023 + top))))
    return r


tm.NATIVE_UF["f64_of_int"] = lambda v: bits_of(float(v))


@M.model(math.isnan)
def m_isnan(v):
    return v.is_nan() if isinstance(v, SymFloat) else I.native(math.isnan, (v,), {})


@M.model(math.isinf)
def m_isinf(v):
    return v.is_inf() if isinstance(v, SymFloat) else I.native(math.isinf, (v,), {})


@M.model(math.isfinite)
def m_isfinite(v):
    return tm.lt(v.mag(), EXP) if isinstance(v, SymFloat) else I.native(math.isfinite, (v,), {})


@M.model(math.copysign)
def m_copysign(a, b):
    a, b = to_sym(a), to_sym(b)
    s = b.sign()
    return SymFloat(tm.add(a.mag(), tm.scale(s, 1 << 63)))
