"""Logical names and network addresses as text and as octets (P20)."""
from dv.spec import *

cst = repo("types.cosem_service_types")
ut = repo("types.useful_types")
cdt = repo("types.common_data_types")
ip = repo("types.implementations.double_long_usingneds")

LN, COID, IP = cst.LogicalName, ut.CosemObjectInstanceId, ip.IPAddress
SIZE = {LN: 6, COID: 6, IP: 4}
ALL = Each(*SIZE)
NAMES = Each(LN, COID)
Octet = Int(0, 255)


def from_text(cls, s):
    return COID.from_str(s) if cls is COID else cls(s)


def from_octets(cls, b):
    return cls(b) if cls is COID else cls(bytearray(b))


def octets(v):
    """the octets the value carries"""
    return bytes(v.contents)


def default(cls, i):
    """the value of a group that is left out"""
    return 255 if i == 5 else 0


@contract("P20", cls=ALL, data=Bytes(6, 6))
def name_text(cls, data):
    """every value has the text of its octets, which parses back to them"""
    b = data[:SIZE[cls]]
    v = from_octets(cls, b)
    ensure(octets(v) == b, "octets")
    s = str(v)
    ensure(s == ".".join(str(x) for x in b), "text form")
    w = from_text(cls, s)
    ensure(type(w) is cls, "type")
    ensure(octets(w) == b, "the text parses back to the octets")
    ensure(cls is COID or w == v, "equal value")
    ensure(bytes(w.encoding if cls is not COID else w.contents)[-SIZE[cls]:] == b, "encoded octets")


@contract("P20", cls=ALL, groups=Seq(Int(), 4, 6))
def name_from_numbers(cls, groups):
    """a text of decimal groups is accepted exactly if each group is an octet"""
    require(len(groups) == SIZE[cls])
    r = attempt(from_text, cls, ".".join(str(x) for x in groups))
    if all_of(*[0 <= x and x <= 255 for x in groups]):
        ensure(r.ok, "octets accepted")
        b = octets(r.value)
        ensure(len(b) == len(groups), "number of octets")
        for i in range(len(groups)):
            ensure(b[i] == groups[i], "octet")
        ensure(str(r.value) == ".".join(str(x) for x in groups), "text form")
    else:
        ensure(r.raised(ValueError), "group outside an octet refused")


@contract("P20", cls=ALL, groups=Seq(Octet, 1, 2, 3, 4, 5))
def name_short(cls, groups):
    """groups left out are 0, the last one of a logical name is 255"""
    n = SIZE[cls]
    require(len(groups) < n)
    v = from_text(cls, ".".join(str(x) for x in groups))
    b = octets(v)
    ensure(len(b) == n, "number of octets")
    for i in range(n):
        ensure(b[i] == (groups[i] if i < len(groups) else default(cls, i)), "octet")


@contract("P20", cls=ALL, groups=Seq(Octet, 5, 7))
def name_long(cls, groups):
    """a group too many is refused"""
    require(len(groups) == SIZE[cls] + 1)
    r = attempt(from_text, cls, ".".join(str(x) for x in groups))
    ensure(r.raised(ValueError), "group too many refused")


@contract("P20", cls=ALL, groups=Seq(Octet, 6), at=Each(0, 1, 2, 3, 4, 5), t=Text(1, 2, 3, hi=127),
          bounded="one group is an ASCII text of at most 3 characters without spaces, signs, underscores and points")
def name_malformed(cls, groups, at, t):
    """a group that is not a number is refused"""
    n = SIZE[cls]
    at = min(at, n - 1)
    require(not any(c in " .+_-\t\n\x0b\x0c\r\x1c\x1d\x1e\x1f" for c in t))
    texts = [t if i == at else str(groups[i]) for i in range(n)]
    r = attempt(from_text, cls, ".".join(texts))
    if all(c in "0123456789" for c in t) and int(t) <= 255:
        ensure(r.ok, "number accepted")
        ensure(octets(r.value)[at] == int(t), "octet")
    else:
        ensure(r.raised(ValueError), "malformed group refused")


@contract("P20", cls=ALL, groups=Seq(Octet, 6), at=Each(0, 2, 3, 5), zeros=Each(1, 2, 5), x=Int(0, 99999))
def name_padded(cls, groups, at, zeros, x):
    """leading zeros of a group do not count"""
    n = SIZE[cls]
    at = min(at, n - 1)
    r = attempt(from_text, cls, ".".join("0" * zeros + str(x) if i == at else str(groups[i]) for i in range(n)))
    ensure(r.ok == (x <= 255), "accepted exactly within an octet")
    if r.ok:
        for i in range(n):
            ensure(octets(r.value)[i] == (x if i == at else groups[i]), "octet")
    else:
        ensure(r.raised(ValueError), "group outside an octet refused")


@contract("P20", cls=ALL, data=Bytes(0, 40))
def name_size(cls, data):
    """octets of another number are refused"""
    r = attempt(from_octets, cls, data)
    if len(data) == SIZE[cls]:
        ensure(r.ok, "octets accepted")
        ensure(octets(r.value) == data, "octets")
    else:
        ensure(r.raised(ValueError), "another number of octets refused")


@contract("P20", a=Bytes(6, 6), b=Bytes(6, 6))
def name_groups(a, b):
    """value groups, order and hash of a logical name"""
    x, y = LN(bytearray(a)), LN(bytearray(b))
    ensure(x.a == a[0] and x.b == a[1] and x.c == a[2] and x.d == a[3] and x.e == a[4] and x.f == a[5], "value groups")
    ensure((x == y) == (a == b), "equality")
    ensure(hash(x) == int.from_bytes(a, "big"), "hash follows the octets")
    ensure((x < y) == (int.from_bytes(a, "big") < int.from_bytes(b, "big")), "order")
