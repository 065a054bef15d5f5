"""Enumerated data values and flags (P21)."""
from dv.spec import *

cdt = repo("types.common_data_types")
en = repo("types.implementations.enums")
ch = repo("types.choices")


class Spread(cdt.Enum, elements=(2, 7, 0x80, 0xfe)):
    """members with gaps"""


class OnlyOne(cdt.Enum, elements=(5,)):
    """a single member"""


class Flags8(cdt.FlagMixin, cdt.Enum, elements=(0, 1, 2, 3, 4, 5, 6, 7)):
    """every bit is used"""


class Flags3(cdt.FlagMixin, cdt.Enum, elements=(0, 1, 2)):
    """only the lowest bits are used"""


class FlagsGap(cdt.FlagMixin, cdt.Enum, elements=(1, 4, 7)):
    """some bits are used"""


ENUMS = {  # class: (tag, members)
    cdt.Unit: (22, range(1, 256)), en.CommSpeed: (22, range(10)), en.RestrictionType: (22, (0, 1, 2)), en.KeyInfoType: (22, (0, 1, 2)),
    en.ProtectionType: (22, (0, 1, 2, 3)), en.ClientSAP: (15, (0, 1, 0x10, 0x20, 0x30, 0x40, 0x50, 0x60)),
    ch.IdentifiedKeyInfoOptions: (22, (0, 1)), ch.KEKId: (22, (0,)), Spread: (22, (2, 7, 0x80, 0xfe)), OnlyOne: (22, (5,)),
}
FLAGS = {Flags8: 0xff, Flags3: 0x07, FlagsGap: 0x92}
SPEEDS = (300, 600, 1200, 2400, 4800, 9600, 19200, 38400, 57600, 115200)
ALL = Each(*ENUMS)


def is_member(v, cls, x):
    """v is the member x of its class"""
    tag, members = ENUMS[cls]
    ensure(type(v) is cls, "type of the value")
    ensure(v.contents == bytes([x]), "contents")
    ensure(v.encoding == bytes([tag, x]), "encoding")
    ensure(int(v) == x, "number of the member")
    ensure(v.value2 == x, "number of the member")


@contract("P21", cls=Each(*(c for c in ENUMS if c is not en.CommSpeed)), x=Int())
def enum_from_number(cls, x):
    tag, members = ENUMS[cls]
    r = attempt(cls, x)
    if x in members:
        ensure(r.ok, "member accepted")
        is_member(r.value, cls, x)
        ensure(r.value.decode() == x, "decoded value")
        ensure(cls(r.value.encoding) == r.value, "encoding decodes to the member")
        ensure(hash(r.value) == hash(cls(x)), "equal members have equal hashes")
    else:
        ensure(r.raised(ValueError), "other number refused")


@contract("P21", cls=ALL, data=Bytes())
def enum_from_encoding(cls, data):
    tag, members = ENUMS[cls]
    r = attempt(cls, data)
    if len(data) >= 2 and data[0] == tag and data[1] in members:
        ensure(r.ok, "encoding of a member accepted")
        is_member(r.value, cls, data[1])
    else:
        ensure(r.raised(ValueError, TypeError), "wrong tag, missing octet or other octet refused")


@contract("P21", cls=ALL, data=Bytes(kind="bytearray"))
def enum_from_contents(cls, data):
    tag, members = ENUMS[cls]
    r = attempt(cls, data)
    if len(data) == 1 and data[0] in members:
        ensure(r.ok, "contents of a member accepted")
        is_member(r.value, cls, data[0])
    else:
        ensure(r.raised(ValueError), "other contents refused")


@contract("P21", cls=ALL, x=Nat())
def enum_from_digits(cls, x):
    tag, members = ENUMS[cls]
    r = attempt(cls, str(x))
    if cls is en.CommSpeed and x in SPEEDS:
        ensure(r.ok, "speed accepted")
        is_member(r.value, cls, SPEEDS.index(x))
    elif x in members:
        ensure(r.ok, "number of a member accepted")
        is_member(r.value, cls, x)
    else:
        ensure(r.raised(ValueError), "other number refused")


@contract("P21", cls=ALL, x=Int(0, 255))
def enum_names(cls, x):
    """the name of a member parses back to a member of that name"""
    tag, members = ENUMS[cls]
    require(x in members)
    v = cls(x)
    names = cls.get_values()
    s = cls.ELEMENTS[bytes([x])]
    ensure(v.value == str(v), "name")
    ensure(str(v) == s or cls is cdt.Unit and v.get_scaler() != 0 and str(v).endswith(s), "name, of a unit with its prefix")
    ensure(s in names, "name among the names")
    w = cls(s)
    ensure(cls.ELEMENTS[w.contents] == s, "name parses back")
    ensure(w.contents == v.contents or names.count(s) > 1, "to the member, unless it shares its name")


@contract("P21", cls=ALL, t=Text(1, 2, 3, hi=127), bounded="ASCII texts of at most 3 characters that are no numbers")
def enum_from_text(cls, t):
    """a text that is neither a number nor a name is refused"""
    require(not all(c in "0123456789" for c in t))
    require(t not in cls.get_values())
    ensure(attempt(cls, t).raised(ValueError), "unknown name refused")


@contract("P21", cls=ALL, x=Int(0, 255), y=Int(0, 255))
def enum_equality(cls, x, y):
    tag, members = ENUMS[cls]
    require(x in members and y in members)
    u, v = cls(x), cls(y)
    ensure((u == v) == (x == y), "equality")
    ensure((u > v) == (x > y), "order")


@contract("P21", cls=ALL)
def enum_default(cls):
    tag, members = ENUMS[cls]
    is_member(cls(), cls, members[0])


@contract("P21", x=Int())
def speed_from_number(x):
    """a communication speed is given by its member or by the speed itself"""
    r = attempt(en.CommSpeed, x)
    if x in SPEEDS:
        ensure(r.ok, "speed accepted")
        is_member(r.value, en.CommSpeed, SPEEDS.index(x))
        ensure(r.value.decode() == x, "speed")
    elif x >= 0 and x < 10:
        ensure(r.ok, "member accepted")
        is_member(r.value, en.CommSpeed, x)
        ensure(r.value.decode() == SPEEDS[x], "speed of the member")
    else:
        ensure(r.raised(ValueError), "other number refused")


@contract("P21", cls=Each(*FLAGS), x=Int())
def flags_from_number(cls, x):
    """an octet is accepted exactly if only used bits are set"""
    r = attempt(cls, x)
    if x >= 0 and x < 256 and x & (255 - FLAGS[cls]) == 0:
        ensure(r.ok, "used bits accepted")
        v = r.value
        ensure(v.contents == bytes([x]), "contents")
        ensure(v.encoding == bytes([22, x]), "encoding")
        ensure(int(v) == x, "number")
        ensure(cls(v.encoding) == v, "encoding decodes to the value")
    else:
        ensure(r.raised(ValueError), "unused bit or number beyond an octet refused")


@contract("P21", cls=Each(*FLAGS), data=Bytes())
def flags_from_encoding(cls, data):
    r = attempt(cls, data)
    if len(data) >= 2 and data[0] == 22 and data[1] & (255 - FLAGS[cls]) == 0:
        ensure(r.ok, "encoding with used bits accepted")
        ensure(r.value.contents == data[1:2], "contents")
        ensure(r.value.encoding == data[:2], "encoding")
    else:
        ensure(r.raised(ValueError, TypeError), "wrong tag, missing octet or unused bit refused")


@contract("P21", x=Int(0, 255))
def flags_text(x):
    """flags of a whole octet: the text lists the bits, the highest first, and parses back"""
    v = Flags8(x)
    ensure(v.decode() == [x >> (7 - i) & 1 for i in range(8)], "bits")
    s = str(v)
    ensure(s == "".join(str(x >> (7 - i) & 1) for i in range(8)), "text")
    ensure(Flags8(s).contents == bytes([x]), "the text parses back")


@contract("P21", cls=Each(Flags8, Flags3))
def flags_default(cls):
    v = cls()
    ensure(type(v) is cls and len(v.contents) == 1, "an octet")
    ensure(cls(v.encoding) == v, "encoding decodes to the value")


@contract("P21", cls=ALL, x=Int(0, 255), y=Int())
def enum_set(cls, x, y):
    """a member is replaced by a member, or stays"""
    tag, members = ENUMS[cls]
    require(x in members)
    v = cls(x)
    r = attempt(v.set, y)
    if r.ok:
        is_member(v, cls, SPEEDS.index(y) if cls is en.CommSpeed and y in SPEEDS else y)
    else:
        ensure(y not in members, "a member is taken")
        is_member(v, cls, x)


@contract("P21", data=Bytes())
def open_enum(data):
    """an enumerated value without defined members takes any octet, and nothing else"""
    r, s = attempt(cdt.Enum, data), attempt(cdt.Enum, bytearray(data))
    ensure(r.ok == (len(data) >= 2 and data[0] == 22), "exactly encodings accepted")
    ensure(s.ok == (len(data) == 1), "exactly an octet accepted as contents")
    if r.ok:
        ensure(r.value.encoding == data[:2], "encoding")
        ensure(int(r.value) == data[1], "number")
    else:
        ensure(r.raised(ValueError, TypeError), "refused")
    if s.ok:
        ensure(s.value.encoding == b"\x16" + data, "encoding")
