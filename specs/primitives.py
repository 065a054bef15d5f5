"""Service primitives' basic types (P19): types.useful_types."""
from dataclasses import dataclass
from dv.spec import *
from lengths import length_field

ut = repo("types.useful_types")

INTS = {ut.Integer8: (1, True), ut.Integer16: (2, True), ut.Integer32: (4, True), ut.Integer64: (8, True),
        ut.Unsigned8: (1, False), ut.Unsigned16: (2, False), ut.Unsigned32: (4, False), ut.Unsigned64: (8, False),
        ut.CosemClassId: (2, False), ut.CosemObjectAttributeId: (1, True), ut.CosemObjectMethodId: (1, True)}
FIXED = {ut.OctetString4: 4, ut.OctetString5: 5, ut.OctetString6: 6, ut.OctetString8: 8, ut.OctetString12: 12, ut.CosemObjectInstanceId: 6}
BIG = 2 ** 32 - 1


def fits(x, size, signed):
    if signed:
        return -(1 << (8 * size - 1)) <= x and x < 1 << (8 * size - 1)
    return 0 <= x and x < 1 << (8 * size)


def is_int(v, cls, x):
    size, signed = INTS[cls]
    ensure(type(v) is cls, "type of the value")
    ensure(int(v) == x, "value")
    ensure(v.contents == x.to_bytes(size, "big", signed=signed), "contents")
    ensure(len(v) == size, "number of octets")


@contract("P19", cls=Each(*INTS), x=Int(), rest=Bytes())
def prim_integer_value(cls, x, rest):
    """integers of the type's range are encoded big-endian in its width and decoded again; others are refused"""
    r = attempt(cls, x)
    if fits(x, *INTS[cls]):
        ensure(r.ok, "value of the range accepted")
        is_int(r.value, cls, x)
        is_int(cls.from_contents(r.value.contents + rest), cls, x)
    else:
        ensure(r.raised(ValueError, OverflowError), "value outside the range refused")


@contract("P19", cls=Each(*INTS), x=DecText())
def prim_integer_text(cls, x):
    r = attempt(cls.from_str, x)
    n = int(x)
    if fits(n, *INTS[cls]):
        ensure(r.ok, "text of a value of the range accepted")
        is_int(r.value, cls, n)
    else:
        ensure(r.raised(ValueError, OverflowError), "text of a value outside the range refused")


@contract("P19", cls=Each(*[c for c in INTS if c is not ut.CosemClassId]), x=Int())
def prim_integer_as_text(cls, x):
    require(fits(x, *INTS[cls]))
    ensure(str(cls(x)) == str(x), "text")


@contract("P19", cls=Each(*INTS), data=Bytes())
def prim_integer_contents(cls, data):
    size, signed = INTS[cls]
    r = attempt(cls.from_contents, data)
    if len(data) < size:
        ensure(r.raised(ValueError), "too few octets refused")
    else:
        ensure(r.ok, "enough octets accepted")
        is_int(r.value, cls, int.from_bytes(data[:size], "big", signed=signed))
        ensure(r.value.contents == data[:size], "octets carried over")


@contract("P19", cls=Each(*INTS), x=Int(), y=Int())
def prim_integer_order(cls, x, y):
    require(fits(x, *INTS[cls]) and fits(y, *INTS[cls]))
    a, b = cls(x), cls(y)
    ensure((a == b) == (x == y), "equal exactly when the values are")
    ensure((a > b) == (x > y), "ordered by value")
    ensure(hash(a) == hash(b) or x != y, "equal values have equal hashes")


# ------------------------------------------------------------------ octet strings

def is_octets(v, value):
    ensure(type(v) is ut.OctetString, "type of the value")
    ensure(v.value == value and bytes(v) == value, "octets")
    ensure(len(v) == len(value), "number of octets")
    ensure(v.contents == length_field(len(value)) + value, "contents: length field and octets")


@contract("P19", value=Bytes(0, BIG), rest=Bytes())
def prim_octets_value(value, rest):
    v = ut.OctetString(value)
    is_octets(v, value)
    is_octets(ut.OctetString.from_contents(v.contents + rest), value)


@contract("P19", data=Bytes(0, BIG))
def prim_octets_contents(data):
    """the announced octets are taken, truncated contents are refused"""
    r = attempt(ut.OctetString.from_contents, data)
    if len(data) > 0:
        h = data[0]
        if h < 0x80:
            n, start = h, 1
        else:
            n, start = -1, 1 + h - 0x80
            if start <= len(data):
                n = int.from_bytes(data[1:start], "big")
        if n >= 0 and start + n <= len(data):
            ensure(r.ok, "complete contents accepted")
            is_octets(r.value, data[start:start + n])
            return
    ensure(r.raised(ValueError), "truncated contents refused")


@contract("P19", t=AnyText())
def prim_octets_text(t):
    octets = t.encode("utf-8")
    require(len(octets) <= BIG)
    is_octets(ut.OctetString.from_str(t), octets)


@contract("P19", cls=Each(*FIXED), value=Bytes())
def prim_fixed_octets(cls, value):
    n = FIXED[cls]
    r = attempt(cls, value)
    if len(value) == n:
        ensure(r.ok, "octets of the size accepted")
        ensure(type(r.value) is cls and r.value.value == value and r.value.contents == value, "octets carried over, without length field")
        ensure(len(r.value) == n, "number of octets")
    else:
        ensure(r.raised(ValueError), "octets of another size refused")
    r = attempt(cls.from_contents, value)
    if len(value) >= n:
        ensure(r.ok, "enough octets accepted")
        ensure(type(r.value) is cls and r.value.contents == value[:n], "first octets taken")
    else:
        ensure(r.raised(ValueError), "too few octets refused")


@contract("P19", cls=Each(ut.VisibleString, ut.UTF8String), t=AnyText(), rest=Bytes())
def prim_text_value(cls, t, rest):
    codec = "ascii" if cls is ut.VisibleString else "utf-8"
    r = attempt(cls, t)
    e = attempt(t.encode, codec)
    if not e.ok:
        ensure(r.raised(ValueError), "text the type cannot carry refused")
        return
    require(len(e.value) <= BIG)
    ensure(r.ok, "text accepted")
    ensure(r.value.value == t and str(r.value) == t, "text")
    ensure(r.value.contents == length_field(len(e.value)) + e.value, "contents: length field and octets of the text")
    w = cls.from_contents(r.value.contents + rest)
    ensure(type(w) is cls and w.value == t, "decoded again")
    ensure(cls.from_str(t).value == t, "from text")


@contract("P19", cls=Each(ut.VisibleString, ut.UTF8String), data=Bytes(0, BIG))
def prim_text_contents(cls, data):
    codec = "ascii" if cls is ut.VisibleString else "utf-8"
    r = attempt(cls.from_contents, data)
    if len(data) > 0:
        h = data[0]
        if h < 0x80:
            n, start = h, 1
        else:
            n, start = -1, 1 + h - 0x80
            if start <= len(data):
                n = int.from_bytes(data[1:start], "big")
        if n >= 0 and start + n <= len(data):
            octets = data[start:start + n]
            t = attempt(octets.decode, codec)
            if t.ok:
                ensure(r.ok, "complete contents accepted")
                ensure(r.value.value == t.value, "text")
                ensure(r.value.contents == length_field(n) + octets, "contents")
                return
    ensure(r.raised(ValueError), "truncated contents and octets that are no text refused")


# ------------------------------------------------------------------ booleans, bit strings

@contract("P19", data=Bytes(), x=Int(), t=Text(1, 4, 5, 6))
def prim_boolean(data, x, t):
    for b in (False, True):
        v = ut.BOOLEAN(b)
        ensure(v.contents == (b"\x01" if b else b"\x00") and bool(v) == b and int(v) == (1 if b else 0), "contents of a boolean")
        ensure(v == ut.BOOLEAN.from_contents(v.contents + data), "decoded again")
        ensure(ut.BOOLEAN.from_str(str(b)) == v, "text of a boolean")
        ensure(ut.BOOLEAN.from_str("1" if b else "0") == v, "text of a boolean")
    r = attempt(ut.BOOLEAN.from_contents, data)
    if len(data) == 0:
        ensure(r.raised(ValueError), "no octet refused")
    else:
        ensure(bool(r.value) == (data[0] != 0), "any octet but zero is true")
    ensure(bool(ut.BOOLEAN.from_int(x)) == (x != 0), "any number but zero is true")
    r = attempt(ut.BOOLEAN.from_str, t)
    if t == "0" or t == "False":
        ensure(r.ok and not bool(r.value), "false")
    elif t == "1" or t == "True":
        ensure(r.ok and bool(r.value), "true")
    else:
        ensure(r.raised(ValueError), "other text refused")


NB = Each(0, 1, 2, 7, 8, 9, 15, 16, 17, 24, 31)


class BitList(Dom):
    """32 independent bits"""

    def sym(self, p, name):
        return [p.int_var(f"{name}.{i}", 0, 1) for i in range(32)]

    def sample(self, rnd, i):
        return [rnd.randrange(2) for _ in range(32)]


def pack(bits):
    out = []
    for k in range(0, len(bits), 8):
        o = 0
        for i, b in enumerate(bits[k:k + 8]):
            o = o + b * (128 >> i)
        out.append(o)
    return bytes(out)


def is_bits(v, bits):
    ensure(type(v) is ut.BitString, "type of the value")
    ensure(len(v) == len(bits), "number of bits")
    ensure(list(v.value) == bits, "bits in order")
    ensure(v.contents == length_field(len(bits)) + pack(bits), "contents: bit count and bits, most significant first, zero padding")


@contract("P19", bounded="bit strings of up to 31 bits, every padding", n=NB, b=BitList(), i=Int(0, 31), x=Int(0, 1), rest=Bytes())
def prim_bits(n, b, i, x, rest):
    b = b[:n]
    v = ut.BitString(list(b))
    is_bits(v, b)
    is_bits(ut.BitString.from_contents(v.contents + rest), b)
    ensure(str(v) == "".join(map(str, b)), "text")
    is_bits(ut.BitString.from_str("".join(map(str, b))), b)
    if i < n:
        v[i] = x
        c = list(b)
        c[i] = x
        is_bits(v, c)
        v.inverse(i)
        c[i] = 1 - x
        is_bits(v, c)
        v[i] = x == 1
        c[i] = x
        is_bits(v, c)
    v.clear()
    is_bits(v, [0] * n)


@contract("P19", bounded="bit counts up to 31 (contents of any length)", n=NB, data=Bytes())
def prim_bits_contents(n, data):
    r = attempt(ut.BitString.from_contents, length_field(n) + data)
    if len(data) * 8 < n:
        ensure(r.raised(ValueError), "too few octets refused")
    else:
        ensure(r.ok, "enough octets accepted")
        is_bits(r.value, [(data[i // 8] >> (7 - i % 8)) & 1 for i in range(n)])


ANYBITS = ListOf(bit_of, 0, 2 ** 32 - 1)


@contract("P19", b=ANYBITS, rest=Bytes(), standin="prim_bits", deadline=200)
def prim_bits_any(b, rest):
    """a bit string of any size keeps its bits and is decoded again, whatever follows"""
    n = len(b)
    v = ut.BitString(list(b))
    ensure(type(v) is ut.BitString and len(v) == n, "type and number of bits")
    ensure(list(v.value) == b, "bits in order")
    w = ut.BitString.from_contents(v.contents + rest)
    ensure(len(w) == n and list(w.value) == b, "decoded again")


@contract("P19", b=ANYBITS, k=Nat(), standin="prim_bits", deadline=200)
def prim_bits_packed_any(b, k):
    """contents: bit count and bits, most significant first, zero padding"""
    n = len(b)
    require(k < 8 * ((n + 7) // 8))
    c = ut.BitString(list(b)).contents
    h = len(length_field(n))
    ensure(len(c) == h + (n + 7) // 8 and c[:h] == length_field(n), "bit count")
    ensure((c[h + k // 8] >> (7 - k % 8)) & 1 == (b[k] if k < n else 0), "packed most significant bit first, zero padding")


@contract("P19", b=ANYBITS, standin="prim_bits", deadline=200)
def prim_bits_text_any(b):
    """the text of a bit string is its bits"""
    t = "".join(map(str, b))
    v = ut.BitString(list(b))
    ensure(str(v) == t, "text")
    w = ut.BitString.from_str(t)
    ensure(len(w) == len(b) and list(w.value) == b, "text read back")


@contract("P19", n=Int(0, 2 ** 32 - 1), data=Bytes(), standin="prim_bits_contents", deadline=200)
def prim_bits_contents_any(n, data):
    """enough octets give exactly the first bits, too few are refused"""
    r = attempt(ut.BitString.from_contents, length_field(n) + data)
    if len(data) < (n + 7) // 8:
        ensure(r.raised(ValueError), "too few octets refused")
    else:
        ensure(r.ok, "enough octets accepted")
        ensure(len(r.value) == n and list(r.value.value) == [(data[i // 8] >> (7 - i % 8)) & 1 for i in range(n)], "bits in order")


@contract("P19", b=ListOf(bit_of, 1, 2 ** 32 - 1), i=Int(), x=Int(0, 1), standin="prim_bits", deadline=200)
def prim_bits_set_any(b, i, x):
    """setting or inverting a bit changes that bit and no other"""
    n = len(b)
    require(0 <= i and i < n)
    v = ut.BitString(list(b))
    v[i] = x
    want = list(b)
    want[i] = x
    ensure(len(v) == n and list(v.value) == want, "that bit set and no other")
    v = ut.BitString(list(b))
    v.inverse(i)
    want[i] = 1 - b[i]
    ensure(len(v) == n and list(v.value) == want, "that bit inverted and no other")


# ------------------------------------------------------------------ sequences, optional elements, choices

NAME = Bytes(6, 6)


@contract("P19", kind=Each(ut.CosemAttributeDescriptor, ut.CosemMethodDescriptor), c=Int(0, 65535), name=NAME, a=Int(-128, 127), rest=Bytes())
def prim_descriptor(kind, c, name, a, rest):
    """a sequence is encoded as its elements one after the other and decoded into them"""
    el = ut.CosemObjectAttributeId if kind is ut.CosemAttributeDescriptor else ut.CosemObjectMethodId
    v = kind(ut.CosemClassId(c), ut.CosemObjectInstanceId(name), el(a))
    enc = c.to_bytes(2, "big") + name + a.to_bytes(1, "big", signed=True)
    ensure(v.contents == enc, "contents")
    w = kind.from_contents(enc + rest)
    ensure(type(w) is kind and w.contents == enc, "decoded again")
    last = w.attribute_id if kind is ut.CosemAttributeDescriptor else w.method_id
    ensure(int(w.class_id) == c and w.instance_id.contents == name and int(last) == a, "every element in its place")
    ensure(type(w.class_id) is ut.CosemClassId and type(w.instance_id) is ut.CosemObjectInstanceId and type(last) is el, "every element of its type")


@contract("P19", kind=Each(ut.CosemAttributeDescriptor, ut.CosemMethodDescriptor), data=Bytes(0, 8))
def prim_descriptor_short(kind, data):
    r = attempt(kind.from_contents, data)
    ensure(r.raised(ValueError), "too few octets refused")


@contract("P19", s=Int(0, 255), x=Int(-32768, 32767), rest=Bytes())
def prim_selective_access(s, x, rest):
    """a sequence with a choice in it"""
    v = ut.SelectiveAccessDescriptor(ut.Unsigned8(s), ut.Data(ut.Integer16(x)))
    enc = bytes([s, 16]) + x.to_bytes(2, "big", signed=True)
    ensure(v.contents == enc, "contents")
    w = ut.SelectiveAccessDescriptor.from_contents(enc + rest)
    ensure(int(w.access_selector) == s and type(w.access_parameters) is ut.Data, "every element in its place")
    ensure(type(w.access_parameters.value) is ut.Integer16 and int(w.access_parameters.value) == x, "chosen value")
    ensure(w.contents == enc, "decoded again")


@dataclass
class Nested(ut.Sequence):
    a: ut.Unsigned16
    b: ut.CosemAttributeDescriptor
    c: ut.InvokeIdAndPriority
    d: ut.OctetString
    e: ut.Unsigned8


@contract("P19", a=Int(0, 65535), c=Int(0, 65535), name=NAME, i=Int(-128, 127), n=Int(0, 15), d=Bytes(0, 127), e=Int(0, 255), rest=Bytes())
def prim_nested(a, c, name, i, n, d, e, rest):
    """sequences within sequences, and elements whose width depends on their value"""
    b = ut.CosemAttributeDescriptor(ut.CosemClassId(c), ut.CosemObjectInstanceId(name), ut.CosemObjectAttributeId(i))
    v = Nested(ut.Unsigned16(a), b, ut.InvokeIdAndPriority(n, ut.ServiceClass(False), ut.Priority(False)), ut.OctetString(d), ut.Unsigned8(e))
    enc = a.to_bytes(2, "big") + b.contents + bytes([n]) + length_field(len(d)) + d + bytes([e])
    ensure(v.contents == enc, "contents")
    w = Nested.from_contents(enc + rest)
    ensure(int(w.a) == a and w.b.contents == b.contents and w.c.invoke_id == n and w.d.value == d and int(w.e) == e, "decoded again")


OPT8 = ut.OPTIONAL(ut.Unsigned8)
OPTS = ut.OPTIONAL(ut.OctetString)


@contract("P19", x=Int(0, 255), s=Bytes(0, BIG), rest=Bytes(), other=Int(-128, 127))
def prim_optional(x, s, rest, other):
    for t, v in ((OPT8, ut.Unsigned8(x)), (OPTS, ut.OctetString(s))):
        p = t(v)
        ensure(p.contents == b"\x01" + v.contents, "a value follows the presence octet")
        w = t.from_contents(p.contents + rest)
        ensure(type(w) is t and type(w.value) is type(v) and w.value.value == v.value, "decoded again")
        n = t()
        ensure(n.contents == b"\x00", "no value")
        ensure(t.from_contents(b"\x00" + rest).value is ut.NULL, "no value decoded again")
        ensure(attempt(t.from_contents, b"").raised(ValueError), "no octet refused")


VALUES = {0: ut.Null, 3: ut.BOOLEAN, 4: ut.BitString, 5: ut.Integer32, 6: ut.Unsigned32, 9: ut.OctetString, 10: ut.VisibleString,
          12: ut.UTF8String, 13: ut.BCD, 15: ut.Integer8, 16: ut.Integer16, 17: ut.Unsigned8, 18: ut.Unsigned16, 20: ut.Integer64,
          21: ut.Unsigned64, 22: ut.Enum, 255: ut.DontCare}
NUMBERS = {5: (4, True), 6: (4, False), 13: (1, True), 15: (1, True), 16: (2, True), 17: (1, False), 18: (2, False), 20: (8, True),
           21: (8, False), 22: (1, False)}


def is_choice(d, tag, contents):
    ensure(type(d) is ut.Data, "type of the choice")
    ensure(d.contents == bytes([tag]) + contents, "contents: tag and contents of the alternative")


@contract("P19", tag=Each(*NUMBERS), x=Int(), rest=Bytes())
def prim_choice_number(tag, x, rest):
    size, signed = NUMBERS[tag]
    require(fits(x, size, signed))
    v = VALUES[tag](x)
    is_choice(ut.Data(v), tag, x.to_bytes(size, "big", signed=signed))
    w = ut.Data.from_contents(bytes([tag]) + v.contents + rest)
    ensure(type(w.value) is VALUES[tag] and int(w.value) == x, "alternative of the tag")
    is_choice(w, tag, x.to_bytes(size, "big", signed=signed))


@contract("P19", s=Bytes(0, BIG), t=AnyText(), b=Bool(), bits=BitList(), rest=Bytes())
def prim_choice_other(s, t, b, bits, rest):
    d = ut.Data.from_contents(ut.Data(ut.OctetString(s)).contents + rest)
    ensure(type(d.value) is ut.OctetString and d.value.value == s, "octet string")
    is_choice(d, 9, length_field(len(s)) + s)
    d = ut.Data.from_contents(ut.Data(ut.BOOLEAN(b)).contents + rest)
    ensure(type(d.value) is ut.BOOLEAN and bool(d.value) == b, "boolean")
    is_choice(d, 3, b"\x01" if b else b"\x00")
    d = ut.Data.from_contents(ut.Data(ut.BitString(bits[:9])).contents + rest)
    ensure(type(d.value) is ut.BitString and list(d.value.value) == bits[:9], "bit string")
    is_choice(d, 4, b"\x09" + pack(bits[:9]))
    for tag in (0, 255):
        d = ut.Data.from_contents(bytes([tag]) + rest)
        ensure(type(d.value) is VALUES[tag], "alternative of the tag")
        is_choice(d, tag, b"")
    e = t.encode("utf-8")
    require(len(e) <= BIG)
    d = ut.Data.from_contents(ut.Data(ut.UTF8String(t)).contents + rest)
    ensure(type(d.value) is ut.UTF8String and d.value.value == t, "text")
    is_choice(d, 12, length_field(len(e)) + e)
    if attempt(t.encode, "ascii").ok:
        d = ut.Data.from_contents(ut.Data(ut.VisibleString(t)).contents + rest)
        ensure(type(d.value) is ut.VisibleString and d.value.value == t, "visible text")
        is_choice(d, 10, length_field(len(e)) + e)


@contract("P19", data=Bytes(0, BIG))
def prim_choice_unknown(data):
    """a tag is one of the alternatives or refused"""
    require(len(data) == 0 or data[0] != 4)
    r = attempt(ut.Data.from_contents, data)
    if len(data) == 0:
        ensure(r.raised(ValueError), "no octet refused")
        return
    known = False
    for t in VALUES:
        if data[0] == t:
            known = True
    if not known:
        ensure(r.raised(ValueError), "unknown tag refused")
    elif data[0] == 15 and len(data) > 1:
        ensure(r.ok and int(r.value.value) == (data[1] ^ 128) - 128, "known tag accepted")


@contract("P19", name=Bytes(6, 6))
def prim_choice_other_type(name):
    """values of types that are no alternative are refused"""
    for v in (ut.OctetString4(b"1234"), ut.Data(ut.NULL), ut.CosemObjectInstanceId(name)):
        ensure(attempt(Small, v).raised(ValueError), "type that is no alternative refused")
    ensure(attempt(Small, ut.Integer16(3)).raised(ValueError), "type that is no alternative refused")
    ensure(Small(ut.Unsigned8(3)).contents == b"\x05\x03", "alternative accepted")


class Small(ut.Choice):
    ELEMENTS = (ut.ChoiceElement("a", 5, ut.Unsigned8), ut.ChoiceElement("b", 7, ut.OctetString))


# ------------------------------------------------------------------ invoke identifier

@contract("P19", i=Int(), conf=Bool(), high=Bool(), rest=Bytes())
def prim_invoke(i, conf, high, rest):
    r = attempt(ut.InvokeIdAndPriority, i, ut.ServiceClass(conf), ut.Priority(high))
    if i < 0 or i > 15:
        ensure(r.raised(ValueError), "invoke identifier outside 0..15 refused")
        return
    ensure(r.ok, "invoke identifier accepted")
    o = i + (64 if conf else 0) + (128 if high else 0)
    ensure(r.value.contents == bytes([o]), "identifier in the low bits, service class in bit 6, priority in bit 7")
    ensure(int(r.value) == o, "octet as number")


@contract("P19", data=Bytes())
def prim_invoke_contents(data):
    r = attempt(ut.InvokeIdAndPriority.from_contents, data)
    if len(data) == 0:
        ensure(r.raised(ValueError), "no octet refused")
        return
    v = r.value
    ensure(v.invoke_id == data[0] & 15, "invoke identifier")
    ensure(v.service_class.value == (data[0] & 64 != 0), "service class")
    high = data[0] & 128 != 0
    # known finding: the priority is read from the bit of the service class
    ensure(v.priority.value == high or (high != (data[0] & 64 != 0) and v.priority.value == (data[0] & 64 != 0)), "priority")
    ensure(v.contents == bytes([v.invoke_id + (64 if v.service_class.value else 0) + (128 if v.priority.value else 0)]), "encoded as read")


# ---------------------------------------------------------------- equality

ALTS = {el.tag: el.type for el in ut.Data.ELEMENTS}
NUM_TAGS = tuple(t for t, c in ALTS.items() if issubclass(c, ut.INTEGER))


def alternative(tag, x):
    size, signed = (1, True) if ALTS[tag] is ut.BCD else (1, False) if ALTS[tag] is ut.Enum else INTS[ALTS[tag]]
    return size, signed


@contract("P19", s=Each(*NUM_TAGS), t=Each(*NUM_TAGS), x=Int(), y=Int())
def prim_choice_equal(s, t, x, y):
    """choices are equal exactly if they hold the same alternative and value"""
    require(fits(x, *alternative(s, x)) and fits(y, *alternative(t, y)))
    a, b = ut.Data(ALTS[s](x)), ut.Data(ALTS[t](y))
    ensure((a == b) == (s == t and x == y), "equality")


@contract("P19", a=Bool(), b=Bool(), x=Int(-128, 127))
def prim_boolean_equal(a, b, x):
    ensure((ut.BOOLEAN(a) == ut.BOOLEAN(b)) == (a == b), "equality")
    ensure(not ut.BOOLEAN(a) == ut.Integer8(x), "other types are different")
