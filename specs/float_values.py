"""Floating-point values (P05)."""
import struct
import math
from dv.spec import *

cdt = repo("types.common_data_types")
F32, F64 = cdt.Float32, cdt.Float64
W = {F32: 4, F64: 8}
TAGS = {F32: 0x17, F64: 0x18}
FMT = {F32: ">f", F64: ">d"}
BOTH = Each(F32, F64)


def value_of(cls, contents):
    """sign, exponent and fraction of an interchange format as a number (IEEE 754, 3.4)"""
    return struct.unpack(FMT[cls], contents)[0]


def same(a, b):
    """same number: equal with the same sign of zero, or both NaN"""
    if math.isnan(a):
        return math.isnan(b)
    return a == b and struct.pack(">d", a) == struct.pack(">d", b)


def is_float(v, cls, contents):
    ensure(type(v) is cls, "type of the value")
    ensure(v.contents == contents, "contents")
    ensure(v.encoding == bytes([TAGS[cls]]) + contents, "encoding")
    ensure(same(v.decode(), value_of(cls, contents)), "number read back")


@contract("P05", "P09", cls=BOTH, x=Float())
def float_from_number(cls, x):
    """A float value built from a number holds its IEEE 754 representation; numbers without one are refused."""
    o = attempt(cls, x)
    if math.isinf(x):
        ensure(o.raised(ValueError, OverflowError), "infinities are refused as numbers")
        return
    r = attempt(struct.pack, FMT[cls], x)
    ensure(o.ok == r.ok, "accepted exactly if representable")
    if not o.ok:
        ensure(o.raised(ValueError, OverflowError), "documented error")
        return
    v = o.value
    if math.isnan(x):
        ensure(math.isnan(v.decode()), "NaN stays NaN")
        ensure(v.encoding == bytes([TAGS[cls]]) + v.contents and len(v.contents) == W[cls], "well formed")
        return
    is_float(v, cls, r.value)


@contract("P05", cls=BOTH, x=Float())
def float_exact(cls, x):
    """A number the format can represent is read back unchanged."""
    require(not math.isnan(x) and not math.isinf(x))
    r = attempt(struct.pack, FMT[cls], x)
    require(r.ok)
    require(struct.unpack(FMT[cls], r.value)[0] == x)
    ensure(same(cls(x).decode(), x), "same number")


@contract("P05", cls=BOTH, c=Bytes(8, 8), rest=Bytes())
def float_from_encoding(cls, c, rest):
    """Every encoding decodes to the number it represents, whatever follows it."""
    c = c[:W[cls]]
    v = cls(bytes([TAGS[cls]]) + c + rest)
    is_float(v, cls, c)
    w, left = cdt.get_instance_and_pdu(cls, bytes([TAGS[cls]]) + c + rest)
    ensure(left == rest, "decoding leaves what follows")


@contract("P05", cls=Each(F32), c=Bytes(4, 4))
def float32_number(cls, c):
    """The number of a binary32 encoding, by sign, exponent and fraction."""
    x = cls(b"\x17" + c).decode()
    n = int.from_bytes(c, "big")
    s, e, f = n >> 31, (n >> 23) & 0xff, n & 0x7fffff
    d = int.from_bytes(struct.pack(">d", x), "big")
    ds, de, df = d >> 63, (d >> 52) & 0x7ff, d & (2 ** 52 - 1)
    ensure(ds == s, "sign")
    if e == 255:
        ensure(de == 2047 and (df == 0) == (f == 0), "infinity and NaN")
    elif e > 0:
        ensure(de == e - 127 + 1023 and df == f << 29, "normal numbers")
    elif f == 0:
        ensure(de == 0 and df == 0, "zero")
    else:
        # value f * 2**-149 == (1 + df/2**52) * 2**(de-1023): de in 874..896
        ensure(874 <= de and de <= 896, "subnormal exponent")
        for k in range(23):
            if de == 874 + k:
                ensure((2 ** 52 + df) == f << (52 - k), "subnormal numbers")


@contract("P05", cls=Each(F64), c=Bytes(8, 8))
def float64_number(cls, c):
    """The number of a binary64 encoding has that very pattern."""
    x = cls(b"\x18" + c).decode()
    ensure(struct.pack(">d", x) == c, "pattern")


@contract("P05", cls=BOTH, data=Bytes(0, None))
def float_bad_encoding(cls, data):
    """Encodings with another tag or too few octets are refused."""
    require(len(data) < 1 + W[cls] or data[0] != TAGS[cls])
    ensure(attempt(cls, data).raised(ValueError), "refused")


@contract("P05", cls=BOTH, c=Bytes(0, None, kind="bytearray"))
def float_from_octets(cls, c):
    """Raw contents are taken over if they have the width of the type."""
    o = attempt(cls, c)
    if len(c) == W[cls]:
        ensure(o.ok, "accepted")
        is_float(o.value, cls, bytes(c))
    else:
        ensure(o.raised(ValueError), "refused")


@contract("P05", cls=BOTH, n=Int(-2 ** 63, 2 ** 64))
def float_from_int(cls, n):
    """A whole number gives the same value as the float equal to it."""
    a, b = attempt(cls, n), attempt(cls, float(n))
    ensure(a.ok == b.ok, "accepted alike")
    if a.ok:
        ensure(a.value.contents == b.value.contents, "same value")


@contract("P05", cls=BOTH, t=Each("0", "-0.0", "1.5", "0.1", "-2.5e-3", "1e-45", "5e-324", "3.4028235e38", "16777217", "0x1.8p3", "-0x1p-126", "nan", " 7 "))
def float_from_text(cls, t):
    """Decimal and hexadecimal texts give the value of the number they denote."""
    x = float.fromhex(t) if "0x" in t else float(t)
    v = cls(t)
    if math.isnan(x):
        ensure(math.isnan(v.decode()), "NaN")
    else:
        is_float(v, cls, struct.pack(FMT[cls], x))


@contract("P05", cls=BOTH, t=DecText(-2 ** 63, 2 ** 64))
def float_from_int_text(cls, t):
    """The text of a whole number gives the same value as the number."""
    a, b = attempt(cls, t), attempt(cls, float(t))
    ensure(a.ok == b.ok, "accepted alike")
    if a.ok:
        ensure(a.value.contents == b.value.contents, "same value")


@contract("P05", cls=BOTH, t=Each("", "xyz", "1,5", "0xg", "inf", "-inf", "1e400", "--1"))
def float_bad_text(cls, t):
    """Texts that are no number of the format are refused."""
    ensure(attempt(cls, t).raised(ValueError, OverflowError), "refused")


@contract("P05", "P09", cls=BOTH, c=Bytes(8, 8))
def float_clear(cls, c):
    """Clearing gives zero; the cleared value is as good as a new one."""
    c = c[:W[cls]]
    v = cls(bytes([TAGS[cls]]) + c)
    v.clear()
    is_float(v, cls, bytes(W[cls]))
    is_float(cls(), cls, bytes(W[cls]))


@contract("P05", "P09", cls=BOTH, c=Bytes(8, 8), x=Float())
def float_copy(cls, c, x):
    """A copy equals the value and later changes of either do not affect the other."""
    c = c[:W[cls]]
    v = cls(bytes([TAGS[cls]]) + c)
    w = v.copy()
    is_float(w, cls, c)
    ensure(w == v, "equal")
    o = attempt(v.set, x)
    is_float(w, cls, c)
    if not o.ok:
        is_float(v, cls, c)
    else:
        ensure(v.contents == cls(x).contents, "takes the new value")
    is_float(cls(w), cls, c)


@contract("P05", c=Bytes(8, 8))
def float_between_widths(c):
    """A value of one width built from a value of the other has the same number, or is refused."""
    a = F32(b"\x17" + c[:4])
    o = attempt(F64, a)
    if math.isinf(a.decode()):
        ensure(o.raised(ValueError, OverflowError), "infinities are refused")
    else:
        ensure(o.ok, "accepted")
        ensure(len(o.value.contents) == 8, "width")
        ensure(same(o.value.decode(), a.decode()), "same number")
    b = F64(b"\x18" + c)
    o = attempt(F32, b)
    if o.ok:
        ensure(len(o.value.contents) == 4, "width")
        ensure(math.isnan(b.decode()) or o.value.contents == struct.pack(">f", b.decode()), "nearest number")
