"""Length fields (P01)."""
from dv.spec import *

cdt = repo("types.common_data_types")
ut = repo("types.useful_types")
pdu = repo("types.cosem_pdu")

ENC = Each(cdt.encode_length, ut.encode_length, pdu.encode_length)
DEC = Each(cdt.get_length_and_pdu, ut.get_length_and_pdu)


def octets_of(n):
    """number of octets of the long form (0: one-octet form)"""
    if n < 0x80:
        return 0
    if n < 0x100:
        return 1
    if n < 0x10000:
        return 2
    if n < 0x100000000:
        return 4
    return (n.bit_length() + 7) // 8


def length_field(n):
    """the length field of the encoding rules"""
    k = octets_of(n)
    if k == 0:
        return bytes([n])
    return bytes([0x80 + k]) + n.to_bytes(k, "big")


MAXLEN = (1 << 8 * 127) - 1


@contract("P01", f=ENC, n=Int(0, 2 ** 64 - 1))
def length_field_form(f, n):
    """one octet below 128, else 0x80 + number of big-endian octets"""
    ensure(f(n) == length_field(n), "length field has the prescribed form")


@contract("P01", n=Int(0, 2 ** 64 - 1))
def length_field_size(n):
    ensure(pdu.decide_len(n) == len(length_field(n)), "announced size of the length field")


@contract("P01", f=ENC, g=DEC, n=Int(0, 2 ** 64 - 1), rest=Bytes())
def length_round_trip(f, g, n, rest):
    field = f(n)
    got, tail = g(field + rest)
    ensure(got == n, "decoded length")
    ensure(tail == rest, "following octets untouched")


@contract("P01", g=DEC, data=Bytes())
def length_decode(g, data):
    """decoding arbitrary octets: exact value, exact remainder, truncated fields refused"""
    r = attempt(g, data)
    n = len(data)
    if n == 0:
        ensure(r.raised(ValueError), "empty input refused")
        return
    h = data[0]
    if h < 0x80:
        ensure(r.ok, "short form accepted")
        ensure(r.value[0] == h, "short form value")
        ensure(r.value[1] == data[1:], "short form remainder")
    elif n - 1 < h - 0x80:
        ensure(r.raised(ValueError), "truncated length field refused")
    else:
        k = h - 0x80
        ensure(r.ok, "long form accepted")
        ensure(r.value[0] == int.from_bytes(data[1:1 + k], "big"), "long form value")
        ensure(r.value[1] == data[1 + k:], "long form remainder")
