"""cdt.Digital and its integer classes (P02)."""
from dv.spec import *

cdt = repo("types.common_data_types")
integers = repo("types.implementations.integers")
lu = repo("types.implementations.long_unsigneds")

INTS = {  # class: (tag, octets, signed)
    cdt.Integer: (15, 1, True), cdt.Long: (16, 2, True), cdt.DoubleLong: (5, 4, True), cdt.Long64: (20, 8, True),
    cdt.Unsigned: (17, 1, False), cdt.LongUnsigned: (18, 2, False), cdt.DoubleLongUnsigned: (6, 4, False),
    cdt.Long64Unsigned: (21, 8, False),
}
ALL = Each(*INTS)


class Ranged(cdt.Long, min=-5, max=300):
    """a type with declared limits"""


class AtLeast(cdt.Unsigned, min=7):
    """a type with a declared minimum only"""


class AtMost(cdt.Integer, max=9):
    """a type with a declared maximum only"""


class Constant(cdt.LongUnsigned, value=513):
    """a constant"""


class Negative(cdt.DoubleLong, value=-2):
    """a constant"""


LIMITED = {  # class: (tag, octets, signed, lowest, highest, default)
    Ranged: (16, 2, True, -5, 300, 0), AtLeast: (17, 1, False, 7, 255, 7), AtMost: (15, 1, True, -128, 9, 0),
    integers.Only0: (15, 1, True, 0, 0, 0), lu.ServerSAP: (18, 2, False, 0, 0x3fff, 0),
}
CONST = {Constant: (18, 2, False, 513, 513), Negative: (5, 4, True, -2, -2), integers.Only0: (15, 1, True, 0, 0)}


def bounds(n, signed):
    return (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)


def is_value(v, cls, tag, n, signed, x):
    """v is the data value x of its class"""
    ensure(type(v) is cls, "type of the value")
    ensure(v.encoding == bytes([tag]) + x.to_bytes(n, "big", signed=signed), "encoding")
    ensure(v.contents == x.to_bytes(n, "big", signed=signed), "contents")
    ensure(v.decode() == x, "decoded value")
    ensure(int(v) == x, "integer value")


@contract("P02", cls=ALL, x=Int())
def integer_from_number(cls, x):
    tag, n, signed = INTS[cls]
    lo, hi = bounds(n, signed)
    r = attempt(cls, x)
    if lo <= x and x <= hi:
        ensure(r.ok, "in range accepted")
        is_value(r.value, cls, tag, n, signed, x)
        ensure(cls(r.value.encoding) == r.value, "encoding decodes to an equal value")
    else:
        ensure(r.raised(ValueError), "out of range refused")


@contract("P02", cls=ALL, t=DecText())
def integer_from_text(cls, t):
    tag, n, signed = INTS[cls]
    lo, hi = bounds(n, signed)
    x = int(t)
    r = attempt(cls, t)
    if lo <= x and x <= hi:
        ensure(r.ok, "in range accepted")
        is_value(r.value, cls, tag, n, signed, x)
        ensure(str(r.value) == t, "text form")
    else:
        ensure(r.raised(ValueError), "out of range refused")


@contract("P02", cls=ALL, data=Bytes())
def integer_from_encoding(cls, data):
    tag, n, signed = INTS[cls]
    r = attempt(cls, data)
    if len(data) > n and data[0] == tag:
        ensure(r.ok, "encoding accepted")
        is_value(r.value, cls, tag, n, signed, int.from_bytes(data[1:1 + n], "big", signed=signed))
        ensure(r.value.encoding == data[:1 + n], "encoding reproduced")
    else:
        ensure(r.raised(ValueError), "wrong tag or truncated encoding refused")


@contract("P02", cls=ALL, data=Bytes(kind="bytearray"))
def integer_from_contents(cls, data):
    tag, n, signed = INTS[cls]
    r = attempt(cls, data)
    if len(data) == n:
        ensure(r.ok, "contents accepted")
        is_value(r.value, cls, tag, n, signed, int.from_bytes(data, "big", signed=signed))
    else:
        ensure(r.raised(ValueError), "contents of another width refused")


@contract("P02", cls=ALL)
def integer_default(cls):
    tag, n, signed = INTS[cls]
    is_value(cls(), cls, tag, n, signed, 0)


@contract("P02", cls=Each(*LIMITED), x=Int())
def limited_from_number(cls, x):
    tag, n, signed, lo, hi, d = LIMITED[cls]
    r = attempt(cls, x)
    if lo <= x and x <= hi:
        ensure(r.ok, "permitted value accepted")
        is_value(r.value, cls, tag, n, signed, x)
    else:
        ensure(r.raised(ValueError), "value outside the declared limits refused")
    is_value(cls(), cls, tag, n, signed, d)


@contract("P02", cls=Each(*LIMITED), data=Bytes())
def limited_from_encoding(cls, data):
    tag, n, signed, lo, hi, d = LIMITED[cls]
    r = attempt(cls, data)
    if len(data) > n and data[0] == tag:
        x = int.from_bytes(data[1:1 + n], "big", signed=signed)
        if lo <= x and x <= hi:
            ensure(r.ok, "permitted encoding accepted")
            is_value(r.value, cls, tag, n, signed, x)
        else:
            ensure(r.raised(ValueError), "encoding outside the declared limits refused")
    else:
        ensure(r.raised(ValueError), "wrong tag or truncated encoding refused")


@contract("P02", cls=Each(*CONST), x=Int())
def constant_from_number(cls, x):
    tag, n, signed, lo, hi = CONST[cls]
    r = attempt(cls, x)
    if x == lo:
        ensure(r.ok, "the constant is accepted")
        is_value(r.value, cls, tag, n, signed, x)
    else:
        ensure(r.raised(ValueError), "any other value refused")


@contract("P02", cls=ALL, x=Int(), y=Int())
def integer_order(cls, x, y):
    """comparison follows the numbers"""
    tag, n, signed = INTS[cls]
    lo, hi = bounds(n, signed)
    require(lo <= x and x <= hi and lo <= y and y <= hi)
    a, b = cls(x), cls(y)
    ensure((a == b) == (x == y), "equality")
    ensure((a > b) == (x > y), "order between values")
    ensure((a > y) == (x > y), "order against a number")


@contract("P02", cls=ALL, other=ALL, x=Int(0, 127))
def integer_type_refused(cls, other, x):
    """an integer value of another type is not silently taken over"""
    r = attempt(cls, other(x))
    if cls is other:
        ensure(r.ok, "same type accepted")
        ensure(int(r.value) == x, "same value")
    else:
        ensure(r.raised(ValueError), "other integer type refused")
        ensure((cls(x) == other(x)) == False, "values of different types differ")
