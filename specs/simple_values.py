"""Simple data values: default, clear, copy and set (P09); booleans and decimal-coded values (P21, P02)."""
from dv.spec import *

cdt = repo("types.common_data_types")
cst = repo("types.cosem_service_types")
en = repo("types.implementations.enums")
lu = repo("types.implementations.long_unsigneds")
integers = repo("types.implementations.integers")
ip = repo("types.implementations.double_long_usingneds")


class Sized(cdt.OctetString, size=3):
    """a size-restricted type"""
    DEFAULT = b"\x01\x02\x03"


class Limited(cdt.Long, min=-5, max=300):
    """a type with declared limits"""


class AtLeast(cdt.Unsigned, min=7):
    """a type whose limits exclude zero"""


class Gapped(cdt.Enum, elements=(2, 7, 0x80)):
    """members with gaps"""


DEFAULTS = {  # class: the encoding of its default value
    cdt.NullData: b"\x00", cdt.Boolean: b"\x03\x00", cdt.Bcd: b"\x0d\x00",
    cdt.Integer: b"\x0f\x00", cdt.Long: b"\x10\x00\x00", cdt.DoubleLong: b"\x05" + bytes(4), cdt.Long64: b"\x14" + bytes(8),
    cdt.Unsigned: b"\x11\x00", cdt.LongUnsigned: b"\x12\x00\x00", cdt.DoubleLongUnsigned: b"\x06" + bytes(4), cdt.Long64Unsigned: b"\x15" + bytes(8),
    Limited: b"\x10\x00\x00", AtLeast: b"\x11\x07", integers.Only0: b"\x0f\x00", lu.ServerSAP: b"\x12\x00\x00", lu.ClassId: b"\x12\x00\x01",
    ip.IPAddress: b"\x06" + bytes(4),
    cdt.OctetString: b"\x09\x00", cdt.VisibleString: b"\x0a\x00", cdt.Utf8String: b"\x0c\x00",
    Sized: b"\x09\x03\x01\x02\x03", cst.LogicalName: b"\x09\x06\x00\x00\x01\x00\x00\xff",
    cdt.Float32: b"\x17" + bytes(4), cdt.Float64: b"\x18" + bytes(8), cdt.BitString: b"\x04\x00",
    Gapped: b"\x16\x02", en.CommSpeed: b"\x16\x00", cdt.Unit: b"\x16\x01",
    cdt.Date: b"\x1a\x07\xe4\x01\x01\x03", cdt.Time: b"\x1b\x00\x00\x00\x00", cdt.DateTime: b"\x19\x07\xe4\x01\x01\xff\x00\x00\x00\x00\x00\xb4\xff",
    cst.OctetStringDate: b"\x09\x05\x07\xe4\x01\x01\xff", cst.OctetStringTime: b"\x09\x04\x00\x00\x00\x00",
    cst.OctetStringDateTime: b"\x09\x0c\x07\xe4\x01\x01\xff\xff\xff\xff\xff\x80\x00\xff",
}
CLEARED = {**DEFAULTS, cst.OctetStringDate: b"\x09\x05\x07\xe4\x01\x01\x03",
           cst.OctetStringDateTime: b"\x09\x0c\x07\xe4\x01\x01\xff\x00\x00\x00\x00\x00\xb4\xff"}
ENUMS = (Gapped, en.CommSpeed, cdt.Unit)
BITS = (cdt.BitString,)
TEXTS = (cdt.VisibleString, cdt.Utf8String)
FLOATS = (cdt.Float32, cdt.Float64)
ALL = Each(*DEFAULTS)
PLAIN = Each(*(c for c in DEFAULTS if c not in BITS))


class Body(Bytes):
    """what follows the tag of an encoding, sampled near the acceptable ones"""

    def sample(self, rnd, i):
        r = rnd.random()
        c = rnd.choice((b"", b"\x07", b"\x09", b"\x00\x00", b"\x01\x02", b"abc", bytes(4), b"\x07\xe4\x01\x01\xff", b"\x07\xe8\x02\x1d\x04", b"\x0c\x1e\x3b\x63",
                        b"\x00\x00\x01\x00\x00\xff", bytes(8), b"\x07\xe8\x02\x1d\x04\x0c\x1e\x3b\x63\xff\x88\x00", bytes([rnd.randrange(256) for _ in range(rnd.randrange(13))])))
        if r < .45:
            c = bytes([len(c)]) + c
        elif r < .6:
            c = b"\x81" + bytes([len(c)]) + c
        elif r < .7:
            c = bytes([8 * len(c)]) + c
        if rnd.random() < .2:
            c += bytes([rnd.randrange(256)])
        return c[:self.hi]


def body(cls, data):
    """data as an encoding of the class"""
    return bytes(cls().TAG) + data


@contract("P09", cls=ALL)
def value_default(cls):
    v = cls()
    ensure(type(v) is cls, "type")
    ensure(v.encoding == DEFAULTS[cls], "encoding of the default value")


@contract("P09", cls=Each(*(c for c in DEFAULTS if c not in ENUMS and c is not cdt.BitString)), data=Body(0, 40))
def value_clear(cls, data):
    r = attempt(cls, body(cls, data))
    require(r.ok)
    v = r.value
    v.clear()
    ensure(type(v) is cls, "type")
    ensure(v.encoding == CLEARED[cls], "encoding of the cleared value")
    ensure(cls(v.encoding) == v, "the cleared value is a value of the type")


@contract("P09", cls=Each(*ENUMS), data=Body(0, 4))
def enum_clear(cls, data):
    """an enumerated value stays a member of its type"""
    r = attempt(cls, body(cls, data))
    require(r.ok)
    v = r.value
    v.clear()
    ensure(type(v) is cls, "type")
    ensure(cls(v.encoding) == v, "the cleared value is a value of the type")


def copy_contract(cls, data):
    r = attempt(cls, body(cls, data))
    require(r.ok)
    v = r.value
    e = v.encoding
    w = v.copy()
    ensure(type(w) is cls, "type of the copy")
    ensure(w == v and w.encoding == e, "equal value")
    v.clear()
    ensure(w.encoding == e, "later changes of the original do not reach the copy")


@contract("P09", cls=PLAIN, data=Body(0, 40))
def value_copy(cls, data):
    copy_contract(cls, data)


@contract("P09", cls=Each(*BITS), data=Body(0, 6), bounded="bit strings of up to 40 bits")
def bits_copy(cls, data):
    copy_contract(cls, data)


class New(Union):
    """values that may be set"""

    def __init__(self, numbers):
        super().__init__(Bytes(0, 24), Bytes(0, 24, kind="bytearray"), numbers, Choice(None, "", "1", "7", "300", "-", "x", "0.0.1.0.0.255", "True"))


def set_contract(cls, data, new):
    r = attempt(cls, body(cls, data))
    require(r.ok)
    v = r.value
    e = v.encoding
    s = attempt(v.set, new)
    ensure(type(v) is cls, "type")
    if s.ok:
        ensure(v.encoding == cls(new).encoding, "takes the new value")
    else:
        ensure(v.encoding == e, "a refused value changes nothing")
        ensure(attempt(cls, new).raised(Exception), "refused because there is no such value")


@contract("P09", cls=Each(*(c for c in DEFAULTS if c not in BITS + TEXTS + FLOATS)), data=Body(0, 24), new=New(Int()))
def value_set(cls, data, new):
    """a value is replaced by what a new value of the type would be, or an error leaves it as it was"""
    set_contract(cls, data, new)


@contract("P09", cls=Each(*TEXTS), data=Body(0, 24), new=New(Int(-100, 100)), bounded="numbers of up to 3 digits as text")
def text_set(cls, data, new):
    set_contract(cls, data, new)


@contract("P09", cls=Each(*FLOATS), data=Body(0, 24), new=New(Choice(0, 1, -3, 1 << 200)))
def float_set(cls, data, new):
    set_contract(cls, data, new)


@contract("P09", cls=Each(*BITS), data=Body(0, 3), new=New(Int(-9, 300)), bounded="bit strings of up to 16 bits")
def bits_set(cls, data, new):
    set_contract(cls, data, new)


class Refuse:
    """callback that refuses a new value"""

    def __init__(self, no):
        self.no, self.seen = no, []

    def before(self, value):
        self.seen.append(value)
        if self.no:
            raise ValueError("refused")

    def after(self):
        self.seen.append("after")


@contract("P09", cls=PLAIN, a=Body(0, 24), b=Body(0, 24), no=Bool())
def value_set_observed(cls, a, b, no):
    """the callback before a change may refuse it; the one after it is called when it is done"""
    r, q = attempt(cls, body(cls, a)), attempt(cls, body(cls, b))
    require(r.ok and q.ok)
    v, e = r.value, r.value.encoding
    obs = Refuse(no)
    v.register_cb_preset(obs.before)
    v.register_cb_post_set(obs.after)
    s = attempt(v.set, body(cls, b))
    ensure(s.ok == (not no), "refused exactly by the callback")
    ensure(v.encoding == (e if no else q.value.encoding), "value")
    ensure(len(obs.seen) == (1 if no else 2), "callbacks called once")
    ensure(obs.seen[0] == q.value, "the callback sees the new value")


@contract("P09", m=Each(*range(10)), n=Each(*range(10)), data=Bytes(4, 4), no=Bool(), bounded="bit strings of up to 9 bits")
def bits_set_observed(m, n, data, no):
    """also the size of a bit string stays when the callback refuses"""
    old = b"\x04" + bytes([m]) + data[:(m + 7) // 8]
    new = b"\x04" + bytes([n]) + data[2:2 + (n + 7) // 8]
    v, w = cdt.BitString(old), cdt.BitString(new)
    obs = Refuse(no)
    v.register_cb_preset(obs.before)
    v.register_cb_post_set(obs.after)
    s = attempt(v.set, new)
    ensure(s.ok == (not no), "refused exactly by the callback")
    ensure(v.encoding == (old if no else new) and len(v) == (m if no else n), "value and size")
    ensure(v.decode() == (cdt.BitString(old) if no else w).decode(), "bits")
    ensure(len(obs.seen) == (1 if no else 2), "callbacks called once")


@contract("P09", cls=Each(*(c for c in DEFAULTS if c not in BITS + TEXTS + FLOATS)), a=Body(0, 24), new=New(Int()))
def value_get_copy(cls, a, new):
    """a copy with another value leaves the original alone"""
    r = attempt(cls, body(cls, a))
    require(r.ok)
    v, e = r.value, r.value.encoding
    s = attempt(v.get_copy, new)
    ensure(v.encoding == e, "original unchanged")
    if s.ok:
        ensure(type(s.value) is cls, "type of the copy")
        ensure(s.value.encoding == cls(new).encoding, "copy has the new value")


@contract("P21", x=Int())
def boolean_from_number(x):
    v = cdt.Boolean(x)
    ensure(v.encoding == bytes([3, 0 if x == 0 else 1]), "encoding")
    ensure(v.decode() == (x != 0), "value")
    ensure(int(v) == (0 if x == 0 else 1), "number")


@contract("P21", data=Bytes())
def boolean_from_encoding(data):
    r = attempt(cdt.Boolean, data)
    if len(data) >= 2 and data[0] == 3:
        ensure(r.ok, "encoding accepted")
        ensure(r.value.encoding == bytes([3, 0 if data[1] == 0 else 1]), "encoding")
        ensure(r.value.decode() == (data[1] != 0), "value")
    else:
        ensure(r.raised(ValueError), "wrong tag or missing octet refused")


@contract("P21", data=Bytes(kind="bytearray"))
def boolean_from_contents(data):
    r = attempt(cdt.Boolean, data)
    if len(data) == 1:
        ensure(r.ok, "an octet accepted")
        ensure(r.value.decode() == (data[0] != 0), "value")
    else:
        ensure(r.raised(ValueError), "other contents refused")


@contract("P21", t=Choice("0", "1", "True", "true", "TRUE", "False", "false", "yes", "no", "Yes", "No", "t", "f", "y", "n", "2", "01", "truth", "None", "x"))
def boolean_from_text(t):
    r = attempt(cdt.Boolean, t)
    if t in ("1", "True", "true", "TRUE", "yes", "Yes", "t", "y"):
        ensure(r.ok and r.value.decode() is True, "true")
        ensure(r.value.encoding == b"\x03\x01", "encoding")
    elif t in ("0", "False", "false", "no", "No", "f", "n"):
        ensure(r.ok and r.value.decode() is False, "false")
        ensure(r.value.encoding == b"\x03\x00", "encoding")
    else:
        ensure(r.raised(ValueError), "another text refused")


@contract("P21", x=Int(0, 1))
def boolean_text(x):
    v = cdt.Boolean(x)
    ensure(cdt.Boolean(str(v)) == v, "the text parses back")


@contract("P02", x=Int())
def bcd_from_number(x):
    r, s = attempt(cdt.Bcd, x), attempt(cdt.Bcd, str(x))
    if 0 <= x <= 255:
        ensure(r.ok and s.ok, "octet accepted")
        ensure(r.value.encoding == bytes([13, x]), "encoding")
        ensure(s.value.encoding == bytes([13, x]), "encoding from text")
        ensure(str(r.value) == str(x), "text")
    else:
        ensure(r.raised(ValueError) and s.raised(ValueError), "other number refused")


@contract("P02", data=Bytes())
def bcd_from_encoding(data):
    r = attempt(cdt.Bcd, data)
    if len(data) >= 2 and data[0] == 13:
        ensure(r.ok, "encoding accepted")
        ensure(r.value.encoding == data[:2], "encoding")
    else:
        ensure(r.raised(ValueError), "wrong tag or missing octet refused")
