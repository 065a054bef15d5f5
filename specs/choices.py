"""Choices of data types (P24): useful_types.CHOICE and types.choices."""
from dv.spec import *
from lengths import length_field

cdt = repo("types.common_data_types")
ut = repo("types.useful_types")
cst = repo("types.cosem_service_types")
ch = repo("types.choices")
structs = repo("types.implementations.structs")

SIMPLE = {0: cdt.NullData, 3: cdt.Boolean, 4: cdt.BitString, 5: cdt.DoubleLong, 6: cdt.DoubleLongUnsigned, 9: cdt.OctetString, 10: cdt.VisibleString,
          12: cdt.Utf8String, 13: cdt.Bcd, 15: cdt.Integer, 16: cdt.Long, 17: cdt.Unsigned, 18: cdt.LongUnsigned, 20: cdt.Long64,
          21: cdt.Long64Unsigned, 22: cdt.Enum, 23: cdt.Float32, 24: cdt.Float64, 25: cdt.DateTime, 26: cdt.Date, 27: cdt.Time}
COMPLEX = {1: cdt.Array, 2: cdt.Structure}


def some(*tags):
    return {t: SIMPLE[t] for t in tags}


# the alternatives of every choice
CHOICES = {
    "simple_dt": SIMPLE,
    "common_dt": SIMPLE | COMPLEX,
    "extended_register": some(0, 4, 6, 9, 10, 12, 17, 18, 21),
    "register": some(0, 4, 5, 6, 9, 10, 12, 15, 16, 17, 18, 20, 21, 22, 23, 24),
    "device_id_object": some(6, 9, 10, 12, 17, 18),
    "access_selectors": {0: cdt.NullData, 1: cdt.Array},
    "any_date_time": some(25, 26, 27),
}
DATES = {12: cst.OctetStringDateTime, 5: cst.OctetStringDate, 4: cst.OctetStringTime}
WIDTH = {cdt.NullData: 0, cdt.Boolean: 1, cdt.DoubleLong: 4, cdt.DoubleLongUnsigned: 4, cdt.Bcd: 1, cdt.Integer: 1, cdt.Long: 2, cdt.Unsigned: 1,
         cdt.LongUnsigned: 2, cdt.Long64: 8, cdt.Long64Unsigned: 8, cdt.Float32: 4, cdt.Float64: 8, cdt.DateTime: 12, cdt.Date: 5, cdt.Time: 4}
PLAIN = [(c, t) for c, alternatives in CHOICES.items() for t in alternatives if alternatives[t] not in (cdt.Array, cdt.Structure, cdt.Enum)]


@contract("P24", at=Each(*PLAIN), data=Bytes(0, 2 ** 29 - 1))
def choice_from_encoding(at, data):
    """An encoding gives a value of the alternative with its tag, as that alternative decodes it."""
    name, tag = at
    choice, t = getattr(ch, name), CHOICES[name][tag]
    enc = bytes([tag]) + (data if t in WIDTH else length_field(len(data) * 8 if t is cdt.BitString else len(data)) + data)
    r, s = attempt(choice, enc), attempt(t, enc)
    ensure(r.ok == s.ok, "taken exactly if the alternative takes it")
    if r.ok:
        ensure(type(r.value) is t, "type of the value")
        ensure(r.value.encoding == s.value.encoding, "value")


@contract("P24", name=Each("common_dt", "access_selectors"), n=Each(0, 1, 2), x=Int(0, 65535), y=Int(0, 65535))
def choice_of_array(name, n, x, y):
    """An array is an alternative with its elements."""
    enc = bytes([1, n]) + b"".join(b"\x12" + v.to_bytes(2, "big") for v in [x, y][:n])
    v = getattr(ch, name)(enc)
    ensure(type(v) is cdt.Array, "type of the value")
    ensure(v.encoding == enc, "value")


@contract("P24", name=Each(*CHOICES), tag=Int(0, 255), data=Bytes())
def choice_other_tag(name, tag, data):
    """An encoding with the tag of no alternative is refused."""
    choice, alternatives = getattr(ch, name), CHOICES[name]
    require(not any_of(*[tag == t for t in alternatives]))
    require(tag != 19 or name != "common_dt")
    require(tag != 9 or name != "any_date_time")
    ensure(attempt(choice, bytes([tag]) + data).raised(ValueError, ut.UserfulTypesException), "refused")


@contract("P24", name=Each(*CHOICES))
def choice_default(name):
    """A tag gives an alternative with its default, no value the first one; other tags are refused."""
    choice, alternatives = getattr(ch, name), CHOICES[name]
    for tag in range(256):
        if name == "any_date_time" and tag == 9 or name == "common_dt" and (tag == 19 or tag == 2):
            continue
        r = attempt(choice, tag)
        if tag in alternatives:
            t = alternatives[tag]
            if t is cdt.Enum:
                continue
            ensure(r.ok, "alternative created")
            ensure(type(r.value) is t and r.value.encoding == t().encoding, "default of the alternative")
        else:
            ensure(r.raised(ValueError, ut.UserfulTypesException), "other tag refused")
    first = list(alternatives.values())[0]
    ensure(type(choice()) is first, "first alternative")
    ensure(len(choice) == len(alternatives) + (name == "common_dt") + (name == "any_date_time"), "number of alternatives")
    for tag in range(256):
        if tag != 19 and tag != 9:
            ensure(choice.is_key(tag) == (tag in alternatives), "tags of alternatives")
    types = choice.get_types()
    ensure(all(t in types for t in alternatives.values()), "types of the alternatives")


@contract("P24", n=Int(0, 127), data=Bytes(0, 130))
def date_time_choice(n, data):
    """An octet string of 12, 5 or 4 octets is a date-time, a date or a time; other lengths are refused."""
    enc = bytes([9, n]) + data
    r = attempt(ch.any_date_time, enc)
    if n == 12 or n == 5 or n == 4:
        t = DATES[12] if n == 12 else DATES[5] if n == 5 else DATES[4]
        s = attempt(t, enc)
        ensure(r.ok == s.ok, "taken exactly if the alternative takes it")
        if r.ok:
            ensure(type(r.value) is t, "type of the value")
            ensure(r.value.encoding == s.value.encoding, "value")
    else:
        ensure(r.raised(ValueError), "other length refused")


class Restriction(cdt.Enum, elements=(0, 1, 2)):
    """selector of a restriction (as in push setup)"""


class RestrictionElement(ch.StructureMixin, cdt.Structure):
    kind: Restriction
    value: ch.restriction_value


class KeyKind(cdt.Enum, elements=(0, 1, 2)):
    """selector of key information"""


class KeyInfo(ch.StructureMixin, cdt.Structure):
    kind: KeyKind
    value: ch.key_info_options


RESTRICTIONS = {0: cdt.NullData, 1: structs.RestrictionByDate, 2: structs.RestrictionByEntry}
KEYS = {0: ch.IdentifiedKeyInfoOptions, 1: ch.WrappedKeyInfoOptions, 2: ch.AgreedKeyInfoOptions}


def is_chosen(v, cls, kind, t, enc):
    ensure(type(v) is cls and len(v.values) == 2, "type of the structure")
    ensure(int(v.values[0]) == kind, "selector")
    ensure(type(v.values[1]) is t, "type the selector stands for")
    ensure(v.encoding == enc, "encoding")


@contract("P24", kind=Each(0, 1, 2), a=Int(0, 1), s=Bytes(0, 2 ** 32 - 1), t=Bytes(0, 2 ** 32 - 1), rest=Bytes())
def selected_key(kind, a, s, t, rest):
    """A structure whose first element selects the type of the second."""
    body = (b"\x16" + bytes([a]) if kind == 0 else
            b"\x02\x02\x16\x00\x09" + length_field(len(s)) + s if kind == 1 else
            b"\x02\x02\x09" + length_field(len(s)) + s + b"\x09" + length_field(len(t)) + t)
    enc = b"\x02\x02\x16" + bytes([kind]) + body
    v = KeyInfo(enc + rest)
    is_chosen(v, KeyInfo, kind, KEYS[kind], enc)
    ensure(v.values[1].encoding == body, "chosen value")


@contract("P24", kind=Each(0, 1, 2), x=Int(0, 2 ** 32 - 1), y=Int(0, 2 ** 32 - 1), rest=Bytes())
def selected_restriction(kind, x, y, rest):
    body = (b"\x00" if kind == 0 else structs.RestrictionByDate().encoding if kind == 1 else
            b"\x02\x02\x06" + x.to_bytes(4, "big") + b"\x06" + y.to_bytes(4, "big"))
    enc = b"\x02\x02\x16" + bytes([kind]) + body
    v = RestrictionElement(enc + rest)
    is_chosen(v, RestrictionElement, kind, RESTRICTIONS[kind], enc)
    ensure(v.values[1].encoding == body, "chosen value")
    if kind == 2:
        w = RestrictionElement((2, (x, y)))
        is_chosen(w, RestrictionElement, 2, RESTRICTIONS[2], enc)


@contract("P24", kind=Int(0, 255), tag=Int(0, 255), data=Bytes(0, 8))
def selected_wrong(kind, tag, data):
    """An unknown selector and a value of another type than selected are refused."""
    enc = b"\x02\x02\x16" + bytes([kind, tag]) + data
    if kind > 2 or tag != (0x16 if kind == 0 else 2):
        ensure(attempt(KeyInfo, enc).raised(ValueError, KeyError, ut.UserfulTypesException), "refused")
    if kind > 2 or tag != (0 if kind == 0 else 2):
        ensure(attempt(RestrictionElement, enc).raised(ValueError, KeyError, ut.UserfulTypesException), "refused")
