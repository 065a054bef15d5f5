"""Octet, visible and UTF-8 strings (P03)."""
from dv.spec import *
from lengths import length_field

cdt = repo("types.common_data_types")
cst = repo("types.cosem_service_types")

STR = {cdt.OctetString: 9, cdt.VisibleString: 10, cdt.Utf8String: 12}
ALL = Each(*STR)
GB4 = 2 ** 32 - 1


class Six(cdt.OctetString, size=6):
    """a size-restricted type"""
    DEFAULT = b"abcdef"


class Vis3(cdt.VisibleString, size=3):
    """a size-restricted type"""
    DEFAULT = b"xyz"


class Utf1(cdt.Utf8String, size=1):
    """a size-restricted type"""
    DEFAULT = b"-"


SIZED = {Six: (9, 6), Vis3: (10, 3), Utf1: (12, 1), cst.LogicalName: (9, 6)}


def parse(data, tag):
    """(well formed, contents) of an encoding: tag, length field, contents"""
    if len(data) < 2:
        return False, b""
    if data[0] != tag:
        return False, b""
    h = data[1]
    if h < 0x80:
        n, rest = h, data[2:]
    else:
        k = h - 0x80
        if len(data) < 2 + k:
            return False, b""
        n, rest = int.from_bytes(data[2:2 + k], "big"), data[2 + k:]
    if n > len(rest):
        return False, b""
    return True, rest[:n]


def is_string(v, cls, tag, contents):
    ensure(type(v) is cls, "type of the value")
    ensure(v.contents == contents, "contents")
    ensure(len(v) == len(contents), "length")
    ensure(v.encoding == bytes([tag]) + length_field(len(contents)) + contents, "encoding")


@contract("P03", cls=ALL, contents=Bytes(0, GB4), rest=Bytes())
def string_round_trip(cls, contents, rest):
    tag = STR[cls]
    v = cls(bytes([tag]) + length_field(len(contents)) + contents + rest)
    is_string(v, cls, tag, contents)


@contract("P03", cls=ALL, data=Bytes(0, GB4))
def string_from_encoding(cls, data):
    tag = STR[cls]
    r = attempt(cls, data)
    good, contents = parse(data, tag)
    if good:
        ensure(r.ok, "well-formed encoding accepted")
        is_string(r.value, cls, tag, contents)
    else:
        ensure(r.raised(ValueError), "wrong tag or truncated encoding refused")


@contract("P03", cls=ALL, data=Bytes(0, GB4, kind="bytearray"))
def string_from_contents(cls, data):
    tag = STR[cls]
    v = cls(data)
    is_string(v, cls, tag, bytes(data))
    ensure(cls(v.encoding) == v, "encoding decodes to an equal value")
    c = v.contents
    data.append(7)
    ensure(v.contents == c, "later changes of the source do not reach the value")


@contract("P03", cls=ALL)
def string_default(cls):
    is_string(cls(), cls, STR[cls], b"")


@contract("P03", cls=Each(*SIZED), data=Bytes(0, GB4))
def sized_from_encoding(cls, data):
    tag, n = SIZED[cls]
    r = attempt(cls, data)
    good, contents = parse(data, tag)
    if good and len(contents) == n:
        ensure(r.ok, "encoding of the fixed size accepted")
        is_string(r.value, cls, tag, contents)
    else:
        ensure(r.raised(ValueError), "wrong tag, truncated encoding or wrong size refused")


@contract("P03", cls=Each(*SIZED), data=Bytes(0, GB4, kind="bytearray"))
def sized_from_contents(cls, data):
    tag, n = SIZED[cls]
    r = attempt(cls, data)
    if len(data) == n:
        ensure(r.ok, "contents of the fixed size accepted")
        is_string(r.value, cls, tag, bytes(data))
    else:
        ensure(r.raised(ValueError), "contents of another size refused")


@contract("P03", cls=Each(*SIZED))
def sized_default(cls):
    tag, n = SIZED[cls]
    is_string(cls(), cls, tag, cls.DEFAULT)


@contract("P03", contents=Bytes(0, GB4))
def octets_text(contents):
    """the text of an octet string is its octets in hexadecimal, and parses back"""
    v = cdt.OctetString(bytearray(contents))
    ensure(str(v) == contents.hex(" "), "hexadecimal text")
    ensure(cdt.OctetString(str(v)).contents == contents, "text parses back")
    ensure(cdt.OctetString(contents.hex()).contents == contents, "text without separators parses back")
    ensure(bytes(v) == contents, "octets")
    ensure(v.decode() == contents, "decoded octets")


@contract("P03", x=Int())
def octets_from_number(x):
    """a number becomes its big-endian octets, as few as needed (at least one, at most 32)"""
    r = attempt(cdt.OctetString, x)
    if x < 0 or x >= 1 << 256:
        ensure(r.raised(ValueError), "number outside 32 octets refused")
    else:
        ensure(r.ok, "number accepted")
        c = r.value.contents
        ensure(int.from_bytes(c, "big") == x, "value of the octets")
        ensure(len(c) == 1 or c[0] != 0, "no leading zero octet")
        ensure(len(c) >= 1 and len(c) <= 32, "number of octets")


@contract("P03", cls=Each(cdt.VisibleString, cdt.Utf8String), t=Text(0, 1, 2, 7, hi=127), bounded="texts of 0, 1, 2 and 7 ASCII characters")
def ascii_text(cls, t):
    """ASCII text is stored as its character codes and printable text is given back"""
    v = cls(t)
    is_string(v, cls, STR[cls], t.encode("ascii"))
    if all_of(*[ord(c) >= 32 for c in t]):
        ensure(str(v) == t, "text")


@contract("P03", cls=Each(cdt.VisibleString, cdt.Utf8String), t=AnyText(ascii=True), standin="ascii_text")
def ascii_text_any(cls, t):
    """ASCII text of any length is stored as its character codes"""
    require(len(t) < 2 ** 32)
    is_string(cls(t), cls, STR[cls], t.encode("ascii"))


@contract("P03", t=AnyText(), standin="ascii_text")
def utf8_text_any(t):
    """The text of a UTF-8 string is the text it was built from."""
    octets = t.encode("utf-8")
    require(len(octets) < 2 ** 32)
    v = cdt.Utf8String(t)
    is_string(v, cdt.Utf8String, STR[cdt.Utf8String], octets)
    ensure(str(v) == t, "text")


@contract("P03", c=Bytes(0, GB4))
def octets_as_text(c):
    """The octets of an octet string as text are read back."""
    v = cdt.OctetString(bytearray(c))
    ensure(bytes(v) == c and v.decode() == c, "octets")
    ensure(cdt.OctetString(str(v)) == v, "hexadecimal text")


@contract("P03", a=ALL, b=ALL, c=Bytes(0, GB4), d=Bytes(0, GB4))
def string_equality(a, b, c, d):
    """equal exactly when type and octets are equal"""
    require(len(c) < 128 and len(d) < 128)
    x, y = a(bytearray(c)), b(bytearray(d))
    ensure((x == y) == (a is b and c == d), "equality")
