"""Types of PDU buffers (P19): types.cosem_pdu."""
from dv.spec import *
from lengths import length_field

cp = repo("types.cosem_pdu")

INTS = {cp.Integer8: (1, True), cp.Integer16: (2, True), cp.Integer32: (4, True), cp.Integer64: (8, True),
        cp.Unsigned8: (1, False), cp.Unsigned16: (2, False), cp.Unsigned32: (4, False), cp.Unsigned64: (8, False)}
FIXED = {cp.OctetString4: 4, cp.OctetString5: 5, cp.OctetString6: 6, cp.OctetString8: 8, cp.OctetString12: 12}
BIG = 2 ** 32 - 1


def fits(x, size, signed):
    if signed:
        return -(1 << (8 * size - 1)) <= x and x < 1 << (8 * size - 1)
    return 0 <= x and x < 1 << (8 * size)


def around(value, enc, before, after):
    """putting a value writes exactly its encoding at the position, reading it there gives it again"""
    data = bytearray(len(before) + len(enc) + len(after))
    data[:len(before)] = before
    data[len(before) + len(enc):] = after
    b = cp.Buffer(memoryview(data))
    b.set_pos(len(before))
    ensure(value.put(b) == len(enc), "number of octets put")
    ensure(bytes(data) == before + enc + after, "encoding in place, the other octets as they were")
    ensure(b.get_pos() == len(before) + len(enc), "position behind the encoding")
    b.set_pos(len(before))
    w = type(value).get(b)
    ensure(type(w) is type(value), "read again: type")
    ensure(b.get_pos() == len(before) + len(enc), "position behind what was read")
    ensure(len(w) == len(enc), "size of the encoding")
    c = cp.create_buf(value)
    ensure(bytes(c) == enc and c.get_pos() == 0, "buffer of the value")
    return w


def is_int(v, cls, x):
    size, signed = INTS[cls]
    ensure(type(v) is cls, "type of the value")
    ensure(int(v) == x, "value")
    ensure(bytes(v) == x.to_bytes(size, "big", signed=signed), "octets")
    ensure(len(v) == size, "number of octets")


@contract("P19", cls=Each(*INTS), x=Int(), before=Bytes(), after=Bytes())
def pdu_integer(cls, x, before, after):
    r = attempt(cls.from_int, x)
    if fits(x, *INTS[cls]):
        ensure(r.ok, "value of the range accepted")
        is_int(r.value, cls, x)
        size, signed = INTS[cls]
        is_int(around(r.value, x.to_bytes(size, "big", signed=signed), before, after), cls, x)
        ensure(str(r.value) == str(x), "text")
    else:
        ensure(r.raised(ValueError, OverflowError), "value outside the range refused")


@contract("P19", cls=Each(*INTS), t=DecText())
def pdu_integer_text(cls, t):
    r = attempt(cls.from_str, t)
    x = int(t)
    if fits(x, *INTS[cls]):
        ensure(r.ok, "text of a value of the range accepted")
        is_int(r.value, cls, x)
    else:
        ensure(r.raised(ValueError, OverflowError), "text of a value outside the range refused")


@contract("P19", cls=Each(*INTS), data=Bytes())
def pdu_integer_octets(cls, data):
    size, signed = INTS[cls]
    r = attempt(cls, memoryview(data))
    if len(data) == size:
        ensure(r.ok, "octets of the size accepted")
        is_int(r.value, cls, int.from_bytes(data, "big", signed=signed))
    else:
        ensure(r.raised(ValueError), "octets of another size refused")
    r = attempt(cls.get, cp.Buffer(memoryview(data)))
    if len(data) >= size:
        ensure(r.ok, "enough octets read")
        is_int(r.value, cls, int.from_bytes(data[:size], "big", signed=signed))
    else:
        ensure(r.raised(BufferError), "too few octets refused")


@contract("P19", cls=Each(*INTS), x=Int(), y=Int())
def pdu_integer_order(cls, x, y):
    require(fits(x, *INTS[cls]) and fits(y, *INTS[cls]))
    a, b = cls.from_int(x), cls.from_int(y)
    ensure((a > b) == (x > y), "ordered by value")
    ensure((a == b) == (x == y), "equal exactly when the values are")
    ensure(int(cls.default()) == 0, "default")


@contract("P19", value=Bytes(0, BIG), before=Bytes(), after=Bytes())
def pdu_octets(value, before, after):
    v = cp.OctetString(memoryview(value))
    enc = length_field(len(value)) + value
    ensure(bytes(v) == value and len(v) == len(enc), "octets and size of the encoding")
    w = around(v, enc, before, after)
    ensure(bytes(w) == value, "octets read again")


@contract("P19", t=AnyText(), before=Bytes(), after=Bytes())
def pdu_octets_text(t, before, after):
    e = t.encode("utf-8")
    require(len(e) <= BIG)
    v = cp.OctetString.from_str(t)
    ensure(bytes(v) == e, "octets of the text")
    ensure(bytes(around(v, length_field(len(e)) + e, before, after)) == e, "octets read again")


@contract("P19", data=Bytes(0, BIG))
def pdu_octets_read(data):
    b = cp.Buffer(memoryview(data))
    r = attempt(cp.OctetString.get, b)
    if len(data) > 0:
        h = data[0]
        if h < 0x80:
            n, start = h, 1
        else:
            n, start = -1, 1 + h - 0x80
            if start <= len(data):
                n = int.from_bytes(data[1:start], "big")
        if n >= 0 and start + n <= len(data):
            ensure(r.ok, "complete encoding read")
            ensure(bytes(r.value) == data[start:start + n], "octets")
            ensure(b.get_pos() == start + n, "position behind the encoding")
            return
    ensure(r.raised(BufferError), "truncated encoding refused")


@contract("P19", cls=Each(*FIXED), data=Bytes(), before=Bytes(), after=Bytes())
def pdu_fixed_octets(cls, data, before, after):
    n = FIXED[cls]
    r = attempt(cls, memoryview(data))
    if len(data) == n:
        ensure(r.ok, "octets of the size accepted")
        ensure(bytes(around(r.value, data, before, after)) == data, "octets read again")
    else:
        ensure(r.raised(ValueError), "octets of another size refused")
    r = attempt(cls.get, cp.Buffer(memoryview(data)))
    if len(data) >= n:
        ensure(r.ok and bytes(r.value) == data[:n], "first octets read")
    else:
        ensure(r.raised(BufferError), "too few octets refused")


@contract("P19", t=Text(1, 4, 5, 6), x=Int(), before=Bytes(), after=Bytes(), o=Int(0, 255))
def pdu_boolean(t, x, before, after, o):
    for v, c in ((cp.FALSE, b"\x00"), (cp.TRUE, b"\x01")):
        w = around(v, c, before, after)
        ensure(w == v and bool(w) == (c == b"\x01"), "boolean read again")
    ensure(bool(cp.BOOLEAN.from_int(x)) == (x != 0), "any number but zero is true")
    ensure(bool(cp.BOOLEAN.get(cp.Buffer(memoryview(bytes([o]))))) == (o != 0), "any octet but zero is true")
    r = attempt(cp.BOOLEAN.from_str, t)
    if t == "0" or t == "False":
        ensure(r.ok and not bool(r.value), "false")
    elif t == "1" or t == "True":
        ensure(r.ok and bool(r.value), "true")
    else:
        ensure(r.raised(ValueError), "other text refused")
    ensure(len(cp.NULL_) == 0 and bytes(cp.NULL_) == b"", "null has no octets")


# ------------------------------------------------------------------ sequences, optional elements, choices

class Three(cp.Sequence):
    x: cp.Integer8
    y: cp.OctetString
    z: cp.Unsigned16


class Outer(cp.Sequence):
    a: cp.Unsigned16
    b: Three
    c: cp.Unsigned8


@contract("P19", x=Int(-128, 127), s=Bytes(0, 127), z=Int(0, 65535), a=Int(0, 65535), c=Int(0, 255), before=Bytes(), after=Bytes())
def pdu_sequence(x, s, z, a, c, before, after):
    v = Three((cp.Integer8.from_int(x), cp.OctetString(memoryview(s)), cp.Unsigned16.from_int(z)))
    enc = x.to_bytes(1, "big", signed=True) + length_field(len(s)) + s + z.to_bytes(2, "big")
    w = around(v, enc, before, after)
    ensure(int(w.x) == x and bytes(w.y) == s and int(w.z) == z, "every element in its place")
    ensure(int(w[0]) == x and bytes(w[1]) == s and int(w[2]) == z, "every element by its index")
    ensure(len(v) == len(enc), "size of the encoding")
    o = Outer((cp.Unsigned16.from_int(a), v, cp.Unsigned8.from_int(c)))
    w = around(o, a.to_bytes(2, "big") + enc + bytes([c]), before, after)
    ensure(int(w.a) == a and int(w.b.x) == x and bytes(w.b.y) == s and int(w.b.z) == z and int(w.c) == c, "every element of a nested sequence in its place")
    d = Three.default()
    ensure(int(d.x) == 0 and bytes(d.y) == b"" and int(d.z) == 0, "default")


class Pair(cp.Sequence):
    x: cp.Integer8
    y: cp.Unsigned16


@contract("P19", x=Int(-128, 127), y=Int(0, 65535), z=Nat())
def pdu_sequence_text(x, y, z):
    v = Pair.from_str(f"{x} {y}")
    ensure(int(v.x) == x and int(v.y) == y, "elements from text")
    ensure(attempt(Pair.from_str, f"{x}").raised(ValueError), "too few elements refused")
    ensure(attempt(Pair.from_str, f"{x} {y} {z}").raised(ValueError), "too many elements refused")


@contract("P19", data=Bytes(0, 3))
def pdu_sequence_short(data):
    r = attempt(Pair.get, cp.Buffer(memoryview(data)))
    if len(data) < 3:
        ensure(r.raised(BufferError), "too few octets refused")
    else:
        ensure(int(r.value.x) == (data[0] ^ 128) - 128 and int(r.value.y) == data[1] * 256 + data[2], "elements read")


OPT = cp.OPTIONAL(cp.Unsigned16)


@contract("P19", x=Int(0, 65535), before=Bytes(), after=Bytes())
def pdu_optional(x, before, after):
    v = OPT(cp.Unsigned16.from_int(x))
    w = around(v, b"\x01" + x.to_bytes(2, "big"), before, after)
    ensure(type(w.value) is cp.Unsigned16 and int(w.value) == x, "value read again")
    w = around(OPT.default(), b"\x00", before, after)
    ensure(w.value is cp.NULL_, "no value read again")
    ensure(int(OPT.from_str(str(x)).value) == x, "value from text")
    ensure(OPT.from_str("").value is cp.NULL_, "no value from empty text")


NUMBERS = {5: (cp.Integer32, 4, True), 6: (cp.Unsigned32, 4, False), 13: (cp.BCD, 1, True), 15: (cp.Integer8, 1, True),
           16: (cp.Integer16, 2, True), 17: (cp.Unsigned8, 1, False), 18: (cp.Unsigned16, 2, False), 20: (cp.Integer64, 8, True),
           21: (cp.Unsigned64, 8, False), 22: (cp.Enum, 1, False)}
OCTETS = {23: (cp.Float32, 4), 24: (cp.OctetString8, 8), 25: (cp.OctetString12, 12), 26: (cp.OctetString5, 5), 27: (cp.OctetString4, 4)}
TAGS = (0, 1, 2, 3, 9, 255) + tuple(NUMBERS) + tuple(OCTETS)


@contract("P19", tag=Each(*NUMBERS), x=Int(), before=Bytes(), after=Bytes())
def pdu_choice_number(tag, x, before, after):
    t, size, signed = NUMBERS[tag]
    require(fits(x, size, signed))
    enc = bytes([tag]) + x.to_bytes(size, "big", signed=signed)
    w = around(cp.Data(t.from_int(x)), enc, before, after)
    ensure(type(w.value) is t and int(w.value) == x, "alternative of the tag")
    ensure(bytes(w) == enc, "encoding of what was read")
    v = cp.Data.from_str(f"{tag}:{x}")
    ensure(type(v.value) is t and int(v.value) == x, "value from text")


@contract("P19", tag=Each(*OCTETS), data=Bytes(12, 12), before=Bytes(), after=Bytes())
def pdu_choice_octets(tag, data, before, after):
    t, n = OCTETS[tag]
    data = data[:n]
    w = around(cp.Data(t(memoryview(data))), bytes([tag]) + data, before, after)
    ensure(type(w.value) is t and bytes(w.value) == data, "alternative of the tag")
    ensure(bytes(w) == bytes([tag]) + data, "encoding of what was read")


@contract("P19", s=Bytes(0, 65535), b=Bool(), before=Bytes(), after=Bytes())
def pdu_choice_other(s, b, before, after):
    f = length_field(len(s))
    w = around(cp.Data(cp.OctetString(memoryview(s))), b"\x09" + f + s, before, after)
    ensure(type(w.value) is cp.OctetString and bytes(w.value) == s, "alternative of the tag")
    w = around(cp.Data(cp.TRUE if b else cp.FALSE), b"\x03\x01" if b else b"\x03\x00", before, after)
    ensure(type(w.value) is cp.BOOLEAN and bool(w.value) == b, "alternative of the tag")
    w = around(cp.Data(cp.NULL_), b"\x00", before, after)
    ensure(type(w.value) is cp.NULL, "alternative of the tag")
    w = around(cp.Data(cp.DontCare.default()), b"\xff", before, after)
    ensure(type(w.value) is cp.DontCare, "alternative of the tag")


@contract("P19", tag=Int(0, 255), after=Bytes())
def pdu_choice_unknown(tag, after):
    known = False
    for t in TAGS:
        if tag == t:
            known = True
    require(not known)
    r = attempt(cp.Data.get, cp.Buffer(memoryview(bytes([tag]) + after)))
    ensure(r.raised(ValueError), "unknown tag refused")
    r = attempt(cp.Data.from_str, f"{tag}:0")
    ensure(r.raised(ValueError), "unknown tag refused")


COUNTS = Each(0, 1, 2, 3, 5, 127, 128, 130)
LIST8 = cp.SEQUENCE_OF(cp.Unsigned16)


@contract("P19", bounded="sequences of 0..3, 5, 127, 128 and 130 elements", n=COUNTS, data=Bytes(260, 260), before=Bytes(), after=Bytes())
def pdu_sequence_of(n, data, before, after):
    xs = [data[2 * i] * 256 + data[2 * i + 1] for i in range(n)]
    v = LIST8([cp.Unsigned16.from_int(x) for x in xs])
    enc = length_field(n) + data[:2 * n]
    w = around(v, enc, before, after)
    ensure([int(e) for e in w.values] == xs, "elements in order")
    for i in (0, n // 2, n - 1):
        if 0 <= i and i < n:
            ensure(int(w[i]) == xs[i], "element by its index")


@contract("P19", bounded="arrays and structures of 0..3 elements of different types", kind=Each(1, 2), n=Each(0, 1, 2, 3), x=Int(-32768, 32767), s=Bytes(0, 200),
          y=Int(0, 255), before=Bytes(), after=Bytes())
def pdu_data_list(kind, n, x, s, y, before, after):
    """array and structure of Data, nested"""
    t = [e.type for e in cp.Data.ELEMENTS if e.tag == kind][0]
    els = [cp.Data(cp.Integer16.from_int(x)), cp.Data(cp.OctetString(memoryview(s))), cp.Data(t([cp.Data(cp.Enum.from_int(y))]))][:n]
    encs = [b"\x10" + x.to_bytes(2, "big", signed=True), b"\x09" + length_field(len(s)) + s, bytes([kind, 1, 22, y])][:n]
    enc = bytes([kind, n])
    for e in encs:
        enc = enc + e
    w = around(cp.Data(t(els)), enc, before, after)
    ensure(len(w.value.values) == n, "number of elements")
    got = w.value.values
    if n > 0:
        ensure(type(got[0].value) is cp.Integer16 and int(got[0].value) == x, "first element")
    if n > 1:
        ensure(type(got[1].value) is cp.OctetString and bytes(got[1].value) == s, "second element")
    if n > 2:
        ensure(type(got[2].value) is t and int(got[2].value.values[0].value) == y, "nested element")


# ---------------------------------------------------------------- equality and access

@contract("P19", s=Each(*NUMBERS), t=Each(*NUMBERS), x=Int(), y=Int())
def pdu_choice_equal(s, t, x, y):
    """choices are equal exactly if they hold the same alternative and value"""
    require(fits(x, *NUMBERS[s][1:]) and fits(y, *NUMBERS[t][1:]))
    a, b = cp.Data(NUMBERS[s][0].from_int(x)), cp.Data(NUMBERS[t][0].from_int(y))
    ensure((a == b) == (s == t and x == y), "equality")


@contract("P19", a=Bytes(1, 1), b=Bytes(1, 1), x=Int(-128, 127))
def pdu_boolean_equal(a, b, x):
    v, w = cp.BOOLEAN(memoryview(a)), cp.BOOLEAN(memoryview(b))
    ensure((v == w) == (a == b), "equality")
    ensure(bool(v) == (a[0] != 0) and int(v) == a[0], "value")
    ensure(not v == cp.Integer8.from_int(x), "other types are different")


class Ten(cp.Sequence):
    a: cp.Unsigned8
    b: cp.Unsigned8
    c: cp.Unsigned8
    d: cp.Unsigned8
    e: cp.Unsigned8
    f: cp.Unsigned8
    g: cp.Unsigned8
    h: cp.Unsigned8
    i: cp.Unsigned8
    j: cp.Unsigned8


@contract("P19", data=Bytes(10, 10), after=Bytes(), k=Each(*range(10)))
def pdu_sequence_names(data, after, k):
    """each element of a sequence has its name"""
    v = Ten.get(cp.Buffer(memoryview(data + after)))
    el = getattr(v, "abcdefghij"[k])
    ensure(type(el) is cp.Unsigned8 and int(el) == data[k] and v[k] is el, "element by name and by index")
