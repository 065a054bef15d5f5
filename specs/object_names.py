"""Association names in both forms (P23): the object identifier form of common_data_types.AXDR and Structure.get_a_xdr."""
from dv.spec import *
from lengths import length_field

cdt = repo("types.common_data_types")


class Arcs(cdt.Structure):
    """a name as structure of the arcs of an object identifier (as the names of the class Association LN)"""
    DEFAULT = (2, 16, 756, 5, 8, 2, 0)
    joint_iso_ctt_element: cdt.Unsigned
    country_element: cdt.Unsigned
    country_name_element: cdt.LongUnsigned
    identified_organization_element: cdt.Unsigned
    dlms_ua_element: cdt.Unsigned
    name_element: cdt.Unsigned
    id_element: cdt.Unsigned


class Name(cdt.AXDR, Arcs):
    DEFAULT = b"\x09\x07\x60\x85\x74\x05\x08\x02\x00"


class Wide(cdt.Structure):
    """arcs of other sizes"""
    DEFAULT = (1, 3, 0, 1, 2)
    a: cdt.Unsigned
    b: cdt.Unsigned
    c: cdt.DoubleLongUnsigned
    d: cdt.Integer
    e: cdt.Long64Unsigned


class WideName(cdt.AXDR, Wide):
    DEFAULT = b"\x09\x04\x2b\x00\x01\x02"


KINDS = {Name: Arcs, WideName: Wide}
SIZES = {cdt.Unsigned: 1, cdt.LongUnsigned: 2, cdt.DoubleLongUnsigned: 4, cdt.Integer: 1, cdt.Long64Unsigned: 8}


def largest(t):
    return 2 ** (8 * SIZES[t] - (1 if t is cdt.Integer else 0)) - 1


def types(cls):
    return [e.TYPE for e in KINDS[cls].ELEMENTS]


def groups(x):
    """an arc, seven bits an octet, all but the last with the highest bit set"""
    out = bytes([x % 128])
    x = x // 128
    while x > 0:
        out = bytes([128 + x % 128]) + out
        x = x // 128
    return out


def identifier(arcs):
    """the octets of an object identifier"""
    out = bytes([40 * arcs[0] + arcs[1]])
    for x in arcs[2:]:
        out = out + groups(x)
    return out


def has(v, cls, arcs):
    """v is a name of these arcs"""
    ensure(type(v) is cls, "type of the name")
    ts = types(cls)
    ensure(len(v.values) == len(ts), "number of arcs")
    for x, t, a in zip(v.values, ts, arcs):
        ensure(type(x) is t, "type of an arc")
        ensure(x.decode() == a, "arcs in order")


class ArcValues(Dom):
    """arcs that fit the largest type"""

    def sym(self, p, name):
        return [p.int_var(f"{name}.0", 0, 2), p.int_var(f"{name}.1", 0, 47), *[p.int_var(f"{name}.{i}", 0, 2 ** 64 - 1) for i in range(2, 7)]]

    def sample(self, rnd, i):
        return [rnd.randrange(3), rnd.randrange(48), *[rnd.choice((0, 1, 5, 127, 128, 255, 756, 16383, 16384, 65535, 2 ** 21, 2 ** 32 - 1, 2 ** 64 - 1, rnd.randrange(300))) for _ in range(5)]]


def allowed(cls, arcs):
    """the arcs of a name of this type; the first two share an octet"""
    ts = types(cls)
    arcs = [x % (largest(t) + 1) for x, t in zip(arcs, ts)]
    require(arcs[0] == 2 or arcs[1] < 40)
    return arcs


@contract("P23", cls=Each(*KINDS), arcs=ArcValues(), rest=Bytes(), deadline=300)
def name_identifier(cls, arcs, rest):
    """The object identifier form is decoded into its arcs and encoded as the same octets."""
    arcs = allowed(cls, arcs)
    octets = identifier(arcs)
    v = cls(b"\x09" + length_field(len(octets)) + octets + rest)
    has(v, cls, arcs)
    ensure(v.contents == octets, "contents")
    ensure(v.encoding == b"\x09" + length_field(len(octets)) + octets, "encoding")
    w, left = cdt.get_instance_and_pdu(cls, v.encoding + rest)
    has(w, cls, arcs)
    ensure(left == rest, "decoding leaves what follows")


@contract("P23", cls=Each(*KINDS), arcs=ArcValues(), rest=Bytes(), deadline=300)
def name_structure(cls, arcs, rest):
    """The structure form is decoded into its elements and encoded as the same octets; its object identifier has the same arcs."""
    arcs = allowed(cls, arcs)
    ts = types(cls)
    enc = bytes([2, len(ts)])
    for t, a in zip(ts, arcs):
        enc = enc + t.TAG + a.to_bytes(SIZES[t], "big")
    v = cls(enc + rest)
    has(v, cls, arcs)
    ensure(v.encoding == enc, "encoding")
    ensure(v.get_a_xdr() == identifier(arcs), "object identifier")
    v = cls(tuple(arcs))
    has(v, cls, arcs)
    ensure(v.encoding == enc, "encoding of a name given as its arcs")
    ensure(KINDS[cls](tuple(arcs)).get_a_xdr() == identifier(arcs), "object identifier of a structure")


def arcs_of(octets):
    """arcs of the octets of an object identifier, nothing if incomplete"""
    if len(octets) == 0 or octets[len(octets) - 1] >= 128:
        return None
    first = octets[0]
    out = [0, first] if first < 40 else [1, first - 40] if first < 80 else [2, first - 80]
    x = 0
    for o in octets[1:]:
        x = x * 128 + o % 128
        if o < 128:
            out.append(x)
            x = 0
    return out


@contract("P23", cls=Each(*KINDS), n=Each(*range(0, 11)), data=Bytes(10, 10), cut=Choice(0, 1), bounded="object identifiers of at most 10 octets", deadline=300)
def name_octets(cls, n, data, cut):
    """Any octets: those of as many arcs as the name has, each within its element, are taken, all others refused."""
    octets = data[:n]
    require(n == 0 or octets[0] < 128)
    r = attempt(cls, bytes([9, n + cut]) + octets)
    arcs = arcs_of(octets)
    ts = types(cls)
    if cut == 0 and arcs is not None and len(arcs) == len(ts) and all_of(*[a <= largest(t) for a, t in zip(arcs, ts)]):
        ensure(r.ok, "accepted")
        has(r.value, cls, arcs)
    else:
        ensure(r.raised(ValueError), "refused")


@contract("P23", cls=Each(*KINDS), tag=Int(0, 255), data=Bytes())
def name_wrong_tag(cls, tag, data):
    """Another tag is refused."""
    require(tag != 9 and tag != 2)
    ensure(attempt(cls, bytes([tag]) + data).raised(ValueError), "refused")


@contract("P23", cls=Each(*KINDS))
def name_default(cls):
    """Without a value a name has its default."""
    v = cls()
    ensure(v.encoding == cls.DEFAULT, "default")
    ensure(cls(v.encoding).encoding == cls.DEFAULT, "default read back")


@contract("P23", cls=Each(*KINDS), form=Each(1, 2), a=ArcValues(), x=ArcValues(), deadline=300)
def name_set(cls, form, a, x):
    """Copying and setting keep the form and take exactly the arcs."""
    x = [0, 3, x[2] % 128, x[3] % 128, x[4] % 128, x[5] % 128, x[6] % 128][:len(types(cls))]
    a = [2, 16, 756, a[3] % 128, a[4] % 128, 8, 0][:len(types(cls))]
    v = cls(tuple(a)) if form == 2 else cls(b"\x09" + length_field(len(identifier(a))) + identifier(a))
    w = v.copy()
    v.set(b"\x09" + length_field(len(identifier(x))) + identifier(x))
    has(v, cls, x)
    ensure(v.encoding[0] == (2 if form == 2 else 9), "form")
    ensure(v.get_a_xdr() == identifier(x), "object identifier")
    has(w, cls, a)
    ensure(w.encoding[0] == (2 if form == 2 else 9), "form of the copy")
