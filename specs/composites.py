"""Arrays and structures (P08)."""
from dv.spec import *
from lengths import length_field

cdt = repo("types.common_data_types")
cst = repo("types.cosem_service_types")
structs = repo("types.implementations.structs")
impl_arrays = repo("types.implementations.arrays")
lu = repo("types.implementations.long_unsigneds")

BIG = 2 ** 32 - 1
# class: (tag, octets)
FIXED = {cdt.NullData: (0, 0), cdt.Boolean: (3, 1), cdt.DoubleLong: (5, 4), cdt.DoubleLongUnsigned: (6, 4), cdt.Bcd: (13, 1),
         cdt.Integer: (15, 1), cdt.Long: (16, 2), cdt.Unsigned: (17, 1), cdt.LongUnsigned: (18, 2), cdt.Long64: (20, 8),
         cdt.Long64Unsigned: (21, 8), cdt.Enum: (22, 1), cdt.Float32: (23, 4), cdt.Float64: (24, 8)}
STRINGS = {cdt.OctetString: 9, cdt.VisibleString: 10, cdt.Utf8String: 12}
SOME = (cdt.NullData, cdt.Boolean, cdt.Long, cdt.Unsigned, cdt.Long64, cdt.Enum, cdt.Float32)


def contents(cls, data):
    """octets of a value of the type"""
    n = FIXED[cls][1]
    if cls is cdt.Boolean:
        return bytes([o % 2 for o in data[:n]])
    return data[:n]


def is_item(v, cls, enc):
    ensure(type(v) is cls, "type of the element")
    ensure(v.encoding == enc, "encoding of the element")


@contract("P08", cls=Each(*FIXED), data=Bytes(8, 8), rest=Bytes())
def item_fixed(cls, data, rest):
    """one value and what follows it"""
    tag, n = FIXED[cls]
    enc = bytes([tag]) + contents(cls, data)
    v, left = cdt.get_instance_and_pdu(cls, enc + rest)
    is_item(v, cls, enc)
    ensure(left == rest, "what follows is untouched")
    v, left = cdt.get_instance_and_pdu_from_value(enc + rest)
    is_item(v, cls, enc)
    ensure(left == rest, "what follows is untouched")


@contract("P08", cls=Each(*STRINGS), data=Bytes(0, BIG), rest=Bytes())
def item_string(cls, data, rest):
    enc = bytes([STRINGS[cls]]) + length_field(len(data)) + data
    v, left = cdt.get_instance_and_pdu(cls, enc + rest)
    is_item(v, cls, enc)
    ensure(left == rest, "what follows is untouched")
    v, left = cdt.get_instance_and_pdu_from_value(enc + rest)
    is_item(v, cls, enc)
    ensure(left == rest, "what follows is untouched")


@contract("P08", cls=Each(*FIXED, *STRINGS, cdt.Structure, cdt.Array, cdt.BitString, cdt.Date, cdt.Time, cdt.DateTime), data=Bytes())
def item_other_tag(cls, data):
    """the tag of another type"""
    require(len(data) > 0)
    require(data[0] != cls.TAG[0])
    ensure(attempt(cdt.get_instance_and_pdu, cls, data).raised(ValueError), "tag of another type refused")


@contract("P08", cls=Each(*FIXED), data=Bytes(0, 9))
def item_truncated(cls, data):
    tag, n = FIXED[cls]
    r = attempt(cdt.get_instance_and_pdu, cls, data)
    if len(data) < n + 1:
        ensure(r.raised(ValueError), "truncated encoding refused")


# ------------------------------------------------------------------ structures


class Inner(cdt.Structure):
    a: cdt.Long
    b: cdt.OctetString


class Words(cdt.Array):
    TYPE = cdt.LongUnsigned


class Mixed(cdt.Structure):
    n: cdt.Unsigned
    s: cdt.OctetString
    i: Inner
    w: Words
    e: cdt.Enum


def word(x):
    return b"\x12" + x.to_bytes(2, "big")


def inner(a, b):
    return b"\x02\x02\x10" + a.to_bytes(2, "big", signed=True) + b"\x09" + length_field(len(b)) + b


@contract("P08", n=Int(0, 255), s=Bytes(0, BIG), a=Int(-32768, 32767), b=Bytes(0, BIG), w=Int(0, 65535), e=Int(0, 255), rest=Bytes())
def structure_round_trip(n, s, a, b, w, e, rest):
    encs = [b"\x11" + bytes([n]), b"\x09" + length_field(len(s)) + s, inner(a, b), b"\x01\x02" + word(w) + word(65535 - w), b"\x16" + bytes([e])]
    enc = b"\x02\x05"
    for x in encs:
        enc = enc + x
    v, left = cdt.get_instance_and_pdu(Mixed, enc + rest)
    ensure(left == rest, "what follows is untouched")
    ensure(v.encoding == enc, "encoding")
    ensure(len(v) == 5 and len(v.values) == 5, "number of elements")
    for i, (x, t) in enumerate(zip(encs, (cdt.Unsigned, cdt.OctetString, Inner, Words, cdt.Enum))):
        is_item(v[i], t, x)
    ensure(int(v.n) == n and v.s.contents == s and int(v.i.a) == a and v.i.b.contents == b, "elements by name")
    ensure(int(v.w[0]) == w and int(v.w[1]) == 65535 - w and len(v.w) == 2 and v.e.contents == bytes([e]), "elements by name")


@contract("P08", n=Int(), s=Bytes(0, BIG), a=Int(), b=Bytes(0, BIG), e=Int())
def structure_from_values(n, s, a, b, e):
    """a structure of given values: the structure of exactly these, or refused"""
    r = attempt(Mixed, (n, bytearray(s), (a, bytearray(b)), [1, 2, 3], e))
    if 0 <= n and n <= 255 and -32768 <= a and a <= 32767 and 0 <= e and e <= 255:
        ensure(r.ok, "values of the types accepted")
        ensure(r.value.encoding == b"\x02\x05\x11" + bytes([n]) + b"\x09" + length_field(len(s)) + s + inner(a, b)
               + b"\x01\x03\x12\x00\x01\x12\x00\x02\x12\x00\x03\x16" + bytes([e]), "encoding")
        w = Mixed(r.value)
        ensure(w.encoding == r.value.encoding and w.values is not r.value.values, "structure of a structure")
    else:
        ensure(r.raised(ValueError), "value outside the range of its element refused")


@contract("P08", k=Each(0, 1, 2, 3, 4, 6, 7), n=Int(0, 255))
def structure_wrong_count(k, n):
    """more or fewer elements than declared"""
    ensure(attempt(Mixed, (n, "", (1, ""), [], 0, 0, 0)[:k]).raised(ValueError), "wrong number of values refused")
    enc = [b"\x11" + bytes([n]), b"\x09\x00", inner(0, b""), b"\x01\x00", b"\x16\x00", b"\x11\x00", b"\x00"][:k]
    ensure(attempt(Mixed, b"\x02" + bytes([k]) + b"".join(enc)).raised(ValueError), "wrong number of elements refused")


@contract("P08", data=Bytes())
def structure_any_octets(data):
    """any octets: a structure of exactly the declared elements at their place, or refused"""
    r = attempt(Pair, data)
    ok = all_of(len(data) >= 7, data[:3] == b"\x02\x02\x11", data[4:5] == b"\x12")
    if r.ok:
        v = r.value
        ensure(len(v.values) == 2 and type(v[0]) is cdt.Unsigned and type(v[1]) is cdt.LongUnsigned, "declared elements")
        ensure(v.encoding == b"\x02\x02\x11" + v[0].contents + b"\x12" + v[1].contents, "encoding")
    else:
        ensure(not ok, "complete encoding accepted")
        ensure(r.raised(ValueError), "refused with a value error")
    if ok:
        ensure(r.value.encoding == data[:7], "values of the octets")


class Pair(cdt.Structure):
    x: cdt.Unsigned
    y: cdt.LongUnsigned


@contract("P08", index=Each(0, 1), cls=Each(*FIXED, *STRINGS), x=Int(0, 255), y=Int(0, 65535))
def structure_element_type(index, cls, x, y):
    """an element only ever holds a value of its declared type"""
    v = Pair((x, y))
    el = cls(bytes([FIXED[cls][0]]) + bytes(FIXED[cls][1])) if cls in FIXED else cls()
    r = attempt(v.__setitem__, index, el)
    if cls is (cdt.Unsigned, cdt.LongUnsigned)[index]:
        ensure(r.ok and v[index] is el, "value of the type taken")
        ensure(v[1 - index].encoding == Pair((x, y))[1 - index].encoding, "other element unchanged")
    else:
        ensure(r.raised(ValueError), "value of another type refused")
        ensure(v.encoding == b"\x02\x02\x11" + bytes([x]) + word(y), "unchanged")


@contract("P08", "P09", x=Int(0, 255), y=Int(0, 65535), p=Int(), q=Int())
def structure_set(x, y, p, q):
    """a refused value changes nothing"""
    v = Pair((x, y))
    r = attempt(v.set, (p, q))
    if 0 <= p and p <= 255 and 0 <= q and q <= 65535:
        ensure(r.ok and int(v.x) == p and int(v.y) == q, "new values taken")
    else:
        ensure(r.raised(ValueError), "value outside the range refused")
        ensure(int(v.x) == x and int(v.y) == y, "unchanged")
    ensure(type(v.x) is cdt.Unsigned and type(v.y) is cdt.LongUnsigned and len(v.values) == 2, "types of the elements")


@contract("P08", "P09", x=Int(0, 255), y=Int(0, 65535), data=Bytes(0, 12))
def structure_set_encoding(x, y, data):
    require(len(data) < 2 or data[1] < 0x80)
    v = Pair((x, y))
    c = v.copy()
    r = attempt(v.set, data)
    if all_of(len(data) >= 7, data[:3] == b"\x02\x02\x11", data[4:5] == b"\x12"):
        ensure(r.ok and v.encoding == data[:7], "new values taken")
    else:
        ensure(r.raised(ValueError), "octets that are no encoding refused")
        ensure(v.encoding == b"\x02\x02\x11" + bytes([x]) + word(y), "unchanged")
    ensure(c.encoding == b"\x02\x02\x11" + bytes([x]) + word(y), "copy unchanged")
    v.clear()
    ensure(v.encoding == b"\x02\x02\x11\x00\x12\x00\x00", "cleared")
    ensure(c.encoding == b"\x02\x02\x11" + bytes([x]) + word(y), "copy unchanged")


class Nested(cdt.Structure):
    n: cdt.Unsigned
    s: cdt.BitString
    i: Inner
    w: Words
    l: cdt.LongUnsigned


class Refuse:
    """callback that refuses a new value"""

    def __init__(self):
        self.no, self.seen = True, []

    def before(self, value):
        self.seen.append(value)
        if self.no:
            raise ValueError("refused")


@contract("P09", x=Int(0, 255), y=Int(0, 65535), a=Int(-32768, 32767), b=Bytes(0, BIG), p=Int(0, 255), q=Int(0, 65535), at=Each(0, 1, 2, 3, 4, "a", "b"), no=Bool())
def structure_set_observed(x, y, a, b, p, q, at, no):
    """a callback of any element that refuses leaves the whole structure as it was"""
    v = Nested((x, "1011", (a, bytearray(b)), [y, x], y))
    new = b"\x02\x05\x11" + bytes([p]) + b"\x04\x09" + bytes([x]) + b"\x80" + inner(5, b"new") + b"\x01\x01" + word(q) + word(q)
    old = b"\x02\x05\x11" + bytes([x]) + b"\x04\x04\xb0" + inner(a, b) + b"\x01\x02" + word(y) + b"\x12\x00" + bytes([x]) + word(y)
    items = list(v.values)
    obs = Refuse()
    obs.no = no
    el = v[2][0] if at == "a" else v[2][1] if at == "b" else v[at]
    if at != 2:
        el.register_cb_preset(obs.before)
    else:
        v[2][1].register_cb_preset(obs.before)
    r = attempt(v.set, new)
    ensure(r.ok == (not no), "refused exactly by the callback")
    if no:
        ensure(v.encoding == old and len(v[1]) == 4 and len(v[3]) == 2, "unchanged")
    else:
        ensure(v.encoding == new and len(v[1]) == 9 and len(v[3]) == 1, "new values taken")
    ensure(all_of(*[v[i] is items[i] for i in range(5)]), "the elements stay the same objects")
    ensure(len(obs.seen) == 1, "callback called once")


@contract("P09", y=Int(0, 65535), z=Int(0, 65535), p=Int(0, 65535), no=Bool(), bounded="arrays of two elements, set to one")
def array_set_observed(y, z, p, no):
    """a callback that refuses leaves the array as it was"""
    v = Words([y, z])
    obs = Refuse()
    obs.no = no
    v.register_cb_preset(obs.before)
    r = attempt(v.set, b"\x01\x01" + word(p))
    ensure(r.ok == (not no), "refused exactly by the callback")
    ensure([int(e) for e in v.values] == ([y, z] if no else [p]), "value")
    ensure(len(obs.seen) == 1, "callback called once")


# structures whose elements are found in the encoding

@contract("P08", bounded="structures of up to 3 elements without a declaration", n=Each(0, 1, 2, 3), x=Int(-128, 127), s=Bytes(0, BIG), a=Int(-32768, 32767), b=Bytes(0, BIG),
          rest=Bytes())
def structure_undeclared(n, x, s, a, b, rest):
    encs = [b"\x0f" + x.to_bytes(1, "big", signed=True), b"\x0a" + length_field(len(s)) + s, inner(a, b)][:n]
    enc = b"\x02" + bytes([n])
    for e in encs:
        enc = enc + e
    v, left = cdt.get_instance_and_pdu_from_value(enc + rest)
    ensure(left == rest, "what follows is untouched")
    ensure(v.encoding == enc and len(v) == n and len(v.values) == n, "encoding")
    for i, (e, t) in enumerate(zip(encs, (cdt.Integer, cdt.VisibleString, cdt.Structure))):
        is_item(v[i], t, e)
    if n == 3:
        ensure(int(v[2][0]) == a and v[2][1].contents == b, "elements of the inner structure")


@contract("P08", bounded="structures of up to 3 elements without a declaration", at=Each(*[(n, m) for n in range(4) for m in range(3) if n + m]), null=Bool(), x=Int(0, 255), s=Bytes(0, BIG), cut=Nat())
def structure_undeclared_truncated(at, null, x, s, cut):
    """fewer elements or octets than announced"""
    n, more = at
    enc = b""
    for e in [b"\x00" if null else b"\x11" + bytes([x]), b"\x0a" + length_field(len(s)) + s, b"\x00" if null else b"\x12\x00" + bytes([x])][:n]:
        enc = enc + e
    require(cut <= len(enc) and (more > 0 or cut < len(enc)))
    r = attempt(cdt.Structure, b"\x02" + bytes([n + more]) + enc[:cut])
    ensure(r.raised(ValueError, NotImplementedError, KeyError), "refused")


@contract("P08", "P09", bounded="structures of 2 elements without a declaration", x=Int(0, 255), y=Int(0, 65535), p=Int(0, 65535), n=Each(0, 1, 2, 3), cls=Each(cdt.Unsigned, cdt.LongUnsigned))
def structure_undeclared_set(x, y, p, n, cls):
    enc = b"\x02\x02\x11" + bytes([x]) + word(y)
    v = cdt.Structure(enc)
    tag, size = FIXED[cls]
    item = bytes([tag]) + (p % 256 ** size).to_bytes(size, "big")
    r = attempt(v.set, b"\x02" + bytes([n]) + (item + word(p) + item)[:n * 3 + (n + 1) // 2 * (size - 2)])
    if n == 2 and cls is cdt.Unsigned:
        ensure(r.ok and int(v[0]) == p % 256 and int(v[1]) == p, "new values taken")
    else:
        ensure(r.raised(ValueError), "other elements refused")
        ensure(v.encoding == enc, "unchanged")
    ensure(type(v[0]) is cdt.Unsigned and type(v[1]) is cdt.LongUnsigned and len(v.values) == 2, "types of the elements")


# ------------------------------------------------------------------ arrays

COUNTS = (0, 1, 2, 3, 5, 127, 128)
COUNTED = "arrays of 0..3, 5, 127 and 128 elements"


@contract("P08", bounded=COUNTED, of=Each(*[(c, n) for c in FIXED for n in COUNTS if n < 5 or c is not cdt.Boolean]), data=Bytes(1024, 1024), rest=Bytes())
def array_round_trip(of, data, rest):
    cls, n = of
    tag, size = FIXED[cls]
    encs = [bytes([tag]) + contents(cls, data[size * i:size * i + size]) for i in range(n)]
    enc = b"\x01" + length_field(n)
    for e in encs:
        enc = enc + e
    v, left = cdt.get_instance_and_pdu_from_value(enc + rest)
    ensure(left == rest, "what follows is untouched")
    ensure(type(v) is cdt.Array and len(v) == n and v.encoding == enc, "array of the encoding")
    ensure(n == 0 or v.get_type() is cls, "type of the elements")
    for i in range(n):
        is_item(v[i], cls, encs[i])


@contract("P08", cls=Each(*[c for c in FIXED if FIXED[c][1]]), n=Int(0, BIG), data=Bytes(0, None), rest=Bytes(), k=Nat(), standin="array_round_trip")
def array_round_trip_any(cls, n, data, rest, k):
    """an array of any number of elements of a type of fixed size"""
    tag, size = FIXED[cls]
    require(len(data) >= size * n)
    body = b"".join(bytes([tag]) + contents(cls, data[size * i:size * i + size]) for i in range(n))
    enc = b"\x01" + length_field(n) + body
    v, left = cdt.get_instance_and_pdu_from_value(enc + rest)
    ensure(left == rest, "what follows is untouched")
    ensure(type(v) is cdt.Array and len(v) == n, "number of elements")
    ensure(v.encoding == enc, "array of the encoding")
    if k < n:
        ensure(v.get_type() is cls, "type of the elements")
        is_item(v[k], cls, bytes([tag]) + contents(cls, data[size * k:size * k + size]))


@contract("P08", bounded="arrays of 0..3 elements", n=Each(0, 1, 2, 3), s=Bytes(0, BIG), t=Bytes(0, BIG), u=Bytes(0, BIG), rest=Bytes())
def array_of_strings(n, s, t, u, rest):
    encs = [b"\x09" + length_field(len(x)) + x for x in (s, t, u)[:n]]
    enc = b"\x01" + bytes([n])
    for e in encs:
        enc = enc + e
    v, left = cdt.get_instance_and_pdu_from_value(enc + rest)
    ensure(left == rest, "what follows is untouched")
    ensure(len(v) == n and v.encoding == enc, "array of the encoding")
    for i in range(n):
        is_item(v[i], cdt.OctetString, encs[i])
    w = cdt.Array(v)
    ensure(w.encoding == enc and w.values is not v.values, "array of an array")
    w = cdt.Array(list(v.values), type_=cdt.OctetString)
    ensure(w.encoding == enc, "array of the elements")


class Pairs(cdt.Array):
    TYPE = Pair


@contract("P08", bounded="arrays of 0..3 elements", n=Each(0, 1, 2, 3), x=Int(0, 255), y=Int(0, 65535), rest=Bytes())
def array_of_structures(n, x, y, rest):
    encs = [b"\x02\x02\x11" + bytes([x]) + word(y), b"\x02\x02\x11" + bytes([255 - x]) + word(0), b"\x02\x02\x11\x00" + word(y)][:n]
    enc = b"\x01" + bytes([n])
    for e in encs:
        enc = enc + e
    v, left = cdt.get_instance_and_pdu(Pairs, enc + rest)
    ensure(left == rest, "what follows is untouched")
    ensure(type(v) is Pairs and len(v) == n and v.encoding == enc, "array of the encoding")
    for i in range(n):
        is_item(v[i], Pair, encs[i])
        ensure(int(v[i].x) == (x, 255 - x, 0)[i] and int(v[i].y) == (y, 0, y)[i], "elements of the structures")


@contract("P08", bounded="arrays of 1..3 elements", at=Each((1, 0), (2, 1), (3, 1), (3, 2)), pair=Each(*[(a, b) for a in SOME + (cdt.OctetString,) for b in SOME if a is not b]), data=Bytes(16, 16))
def array_mixed(at, pair, data):
    """an element of another type among the elements"""
    (n, k), (cls, other) = at, pair
    tag, size = FIXED[cls] if cls in FIXED else (STRINGS[cls], 0)
    one = bytes([tag]) + (data[:size] if cls in FIXED else b"\x00")
    tag, size = FIXED[other]
    enc = b"\x01" + bytes([n]) + one * k + bytes([tag]) + data[8:8 + size] + one * (n - k - 1)
    ensure(attempt(cdt.Array, enc, cls).raised(ValueError), "element of another type refused")
    if n > 1:
        ensure(attempt(cdt.Array, enc).raised(ValueError), "elements of different types refused")


@contract("P08", bounded="arrays of 0..5 announced elements", n=Int(0, 5), data=Bytes(0, 12))
def array_truncated(n, data):
    """fewer elements than announced"""
    r = attempt(Words, b"\x01" + bytes([n]) + data)
    if r.ok:
        ensure(len(r.value) == n and 3 * n <= len(data) and r.value.encoding == b"\x01" + bytes([n]) + data[:3 * n], "announced elements")
    else:
        ensure(r.raised(ValueError), "refused with a value error")
        ensure(len(data) < 3 * n or any_of(*[data[3 * i] != 0x12 for i in range(0, 4) if 3 * i < len(data) and i < n]), "complete encoding accepted")


@contract("P08", x=Int(), y=Int(0, 65535), z=Int(0, 65535), index=Int(-3, 3))
def array_changes(x, y, z, index):
    """appending, inserting, removing"""
    v = Words([y])
    r = attempt(v.append, x)
    if 0 <= x and x <= 65535:
        ensure(r.ok and len(v) == 2 and int(v[0]) == y and int(v[1]) == x and type(v[1]) is cdt.LongUnsigned, "appended at the end")
    else:
        ensure(r.raised(ValueError), "value outside the range refused")
        ensure(len(v) == 1 and int(v[0]) == y, "unchanged")
    v = Words([y, z])
    v.insert(index, cdt.LongUnsigned(7))
    was = [y, z]
    was.insert(index, 7)
    ensure([int(e) for e in v.values] == was, "inserted in place")
    attempt(v.insert, 0, cdt.Unsigned(1))
    attempt(v.remove, cdt.Unsigned(1))
    ensure([int(e) for e in v.values] == was, "element of another type not taken")
    ensure(int(v.pop()) == was.pop(), "last element")
    ensure([int(e) for e in v.values] == was, "the other elements remain")
    ensure(int(v.pop(0)) == was.pop(0), "first element")
    ensure([int(e) for e in v.values] == was, "the other elements remain")
    v = Words([y, z, y])
    v.remove(cdt.LongUnsigned(y))
    ensure([int(e) for e in v.values] == [z, y] or y == z and [int(e) for e in v.values] == [y, y], "first such element removed")
    v.clear()
    ensure(len(v) == 0 and v.encoding == b"\x01\x00", "cleared")


class Few(cdt.Enum, elements=(0, 1)):
    """members of an enumeration"""


class More(cdt.Enum, elements=(0, 1, 2, 3)):
    """members of another enumeration"""


class Narrow(cdt.Unsigned, min=0, max=9):
    """integer of a declared range"""


class Three(cdt.OctetString, size=3):
    """octet string of a declared size"""


class Riap(cdt.Structure):
    x: cdt.LongUnsigned
    y: cdt.Unsigned


LIKE = (Few, More, Narrow, Three, Pair, Riap, Words, Pairs, cdt.Unsigned, cdt.OctetString, cst.LogicalName, cdt.Structure, cdt.Enum)


def example(cls, x):
    return (cls([x]) if cls is Words else cls([(x, x)]) if cls is Pairs else cls(b"\x02\x02\x11" + bytes([x]) + b"\x12\x01" + bytes([x])) if cls is cdt.Structure else
            cls((x, x)) if issubclass(cls, cdt.Structure) else cls(bytearray(bytes([x]) * (6 if cls is cst.LogicalName else 3))) if issubclass(cls, cdt.OctetString) else
            cls(b"\x16" + bytes([x])) if issubclass(cls, cdt.Enum) else cls(x))


@contract("P08", cls=Each(*[c for c in LIKE if c not in (cdt.Structure, cdt.Enum)]), other=Each(*LIKE), x=Int(0, 255))
def array_element_type(cls, other, x):
    """an array only ever holds elements of its declared type, also of types with the same tag"""
    require(x < 2 or issubclass(other, (cdt.Structure, cdt.Array, cdt.OctetString)) or other in (cdt.Unsigned, cdt.Enum) or x < (4 if other is More else 10 if other is Narrow else 2))
    el = example(other, x)
    first = example(cls, 1)
    v = cdt.Array([first], cls)
    enc = first.encoding
    r = attempt(v.append, el)
    ensure(all_of(*[isinstance(e, cls) for e in v.values]), "elements of the declared type")
    if r.ok:
        ensure(len(v) == 2 and v[0] is first and v[1].TAG == cls.TAG and v.encoding == b"\x01\x02" + enc + (el if issubclass(other, cls) else cls(el)).encoding, "appended at the end")
    else:
        ensure(len(v) == 1 and v[0] is first and v.encoding == b"\x01\x01" + enc, "unchanged")
    if issubclass(other, cls):
        ensure(r.ok and v[1] is el, "value of the type taken")
    r = attempt(cdt.Array, [el], cls)
    if r.ok:
        ensure(len(r.value) == 1 and isinstance(r.value[0], cls) and r.value[0].encoding == v[1].encoding, "value of the type")
    ensure(r.ok == (len(v) == 2), "taken or refused alike")


@contract("P08", "P09", bounded="arrays of two elements, set to 0..3 values", x=Int(), y=Int(0, 65535), z=Int(0, 65535), n=Each(0, 1, 2, 3))
def array_set(x, y, z, n):
    v = Words([y, z])
    c = v.copy()
    r = attempt(v.set, [x, 5, x][:n])
    if n == 0 or 0 <= x and x <= 65535:
        ensure(r.ok and [int(e) for e in v.values] == [x, 5, x][:n], "new values taken")
    else:
        ensure(r.raised(ValueError), "value outside the range refused")
        ensure([int(e) for e in v.values] == [y, z], "unchanged")
    ensure([int(e) for e in c.values] == [y, z] and type(c) is Words, "copy unchanged")


@contract("P08", "P09", bounded="arrays of two elements, set to octets of up to 12", y=Int(0, 65535), z=Int(0, 65535), data=Bytes(0, 12))
def array_set_encoding(y, z, data):
    require(len(data) < 2 or data[1] < 0x80)
    v = Words([y, z])
    r = attempt(v.set, data)
    if r.ok:
        n = data[1]
        ensure(data[0] == 1 and len(v) == n and v.encoding == data[:2 + 3 * n], "new values taken")
    else:
        ensure(r.raised(ValueError), "octets that are no encoding refused")
        ensure([int(e) for e in v.values] == [y, z], "unchanged")
    ensure(v.get_type() is cdt.LongUnsigned, "type of the elements")


@contract("P08", data=Bytes(), cls=Each(cdt.Array, Words, Pairs, Pair, Mixed, cdt.Structure))
def composite_no_encoding(data, cls):
    """octets that begin with another tag"""
    require(len(data) == 0 or data[0] != (1 if issubclass(cls, cdt.Array) else 2))
    ensure(attempt(cls, data).raised(ValueError), "refused")
