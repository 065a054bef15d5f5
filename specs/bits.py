"""Bit strings (P04)."""
from dv.spec import *
from lengths import length_field

cdt = repo("types.common_data_types")
bitstrings = repo("types.implementations.bitstrings")
BS, CF = cdt.BitString, bitstrings.Conformance

N = Each(*range(0, 42))
N1 = Each(*range(1, 42))
NMAX = "bit strings of 0..41 bits (every padding); Conformance (24 bits) is covered completely"


class Bits(Dom):
    """48 independent bits"""

    def sym(self, p, name):
        from dv import terms as tm
        return [p.int_var(f"{name}.{i}", 0, 1) for i in range(48)]

    def sample(self, rnd, i):
        r = rnd.random()
        return [0] * 48 if r < .05 else [1] * 48 if r < .1 else [rnd.randrange(2) for _ in range(48)]


def text(bits):
    return "".join(map(str, bits))


def pack(bits):
    """bits packed most significant first, zero padding"""
    out = []
    for k in range(0, len(bits), 8):
        o = 0
        for i, b in enumerate(bits[k:k + 8]):
            o = o + b * (128 >> i)
        out.append(o)
    return bytes(out)


def shows(v, bits):
    n = len(bits)
    ensure(len(v) == n, "number of bits")
    ensure(v.decode() == bits, "bits in order")
    for i in (0, n // 2, n - 1):
        if 0 <= i < n:
            ensure(v[i] == bytes([bits[i]]), "one bit by its index")


def is_bits(v, cls, bits):
    """v reports the bits, and encodes to tag, bit count, packed bits"""
    ensure(type(v) is cls, "type of the value")
    shows(v, bits)
    ensure(v.encoding == b"\x04" + length_field(len(bits)) + pack(bits), "encoding")


@contract("P04", bounded=NMAX, n=N, b=Bits())
def bits_from_list(n, b):
    """A bit string built from a list of bits reports them and encodes them."""
    b = b[:n]
    is_bits(BS(list(b)), BS, b)


@contract("P04", bounded=NMAX, n=N, b=Bits())
def bits_from_text(n, b):
    """A bit string built from text reports its bits; its text is the text it was built from."""
    b = b[:n]
    v = BS(text(b))
    is_bits(v, BS, b)
    ensure(str(v) == text(b), "text")


@contract("P04", bounded=NMAX, n=N, b=Bits(), rest=Bytes())
def bits_round_trip(n, b, rest):
    """Decoding the encoding, whatever follows it, gives the same bits."""
    b = b[:n]
    enc = BS(list(b)).encoding
    v = BS(enc + rest)
    is_bits(v, BS, b)
    ensure(v.encoding == enc, "same encoding")
    w, left = cdt.get_instance_and_pdu(BS, enc + rest)
    ensure(w.decode() == b and left == rest, "decoding leaves what follows")


@contract("P04", bounded="bit counts up to 40 (contents of any length)", n=Each(*range(0, 41)), data=Bytes())
def bits_from_encoding(n, data):
    """An encoding with enough octets gives exactly its first bits; one with too few is refused."""
    o = attempt(BS, b"\x04" + length_field(n) + data)
    k = (n + 7) // 8
    if len(data) < k:
        ensure(o.raised(ValueError), "too few octets are refused")
    else:
        ensure(o.ok, "complete encodings are accepted")
        bits = [(data[i // 8] >> (7 - i % 8)) & 1 for i in range(n)]
        shows(o.value, bits)
        ensure(o.value.contents == data[:k], "octets carried over")
        ensure(o.value.encoding == b"\x04" + length_field(n) + data[:k], "encoding")


@contract("P04", data=Bytes(), n=Int(0, 2 ** 32 - 1))
def bits_encoding_carried(n, data):
    """For every bit count the encoding keeps the announced number of octets and the bit count."""
    k = (n + 7) // 8
    require(len(data) >= k)
    v = BS(b"\x04" + length_field(n) + data)
    ensure(len(v) == n, "number of bits")
    ensure(v.contents == data[:k], "octets carried over")
    ensure(v.encoding == b"\x04" + length_field(n) + data[:k], "encoding")


@contract("P04", data=Bytes(), n=Int(0, 2 ** 32 - 1))
def bits_short_encoding(n, data):
    """For every bit count an encoding with too few octets is refused."""
    require(len(data) < (n + 7) // 8)
    o = attempt(BS, b"\x04" + length_field(n) + data)
    ensure(o.raised(ValueError), "too few octets are refused")


@contract("P04", data=Bytes(0, None))
def bits_wrong_tag(data):
    """An encoding with another tag is refused."""
    require(len(data) == 0 or data[0] != 4)
    ensure(attempt(BS, data).raised(ValueError), "refused")


@contract("P04", bounded="up to 4 octets", n=Each(0, 1, 2, 3, 4), d=Bytes(4, 4, kind="bytearray"))
def bits_from_octets(n, d):
    """Raw contents given as octets are taken over, eight bits each."""
    d = d[:n]
    v = BS(d)
    bits = [(d[i // 8] >> (7 - i % 8)) & 1 for i in range(8 * n)]
    is_bits(v, BS, bits)


@contract("P04", bounded=NMAX, n=N1, b=Bits(), i=Int(-43, 43), x=Int(0, 1))
def bits_set_one(n, b, i, x):
    """Setting one bit changes that bit and no other; an index outside is refused and changes nothing."""
    b = b[:n]
    v = BS(list(b))
    o = attempt(v.__setitem__, i, x)
    if -n <= i < n:
        ensure(o.ok, "accepted")
        want = list(b)
        want[i] = x
        is_bits(v, BS, want)
    else:
        ensure(o.raised(IndexError), "refused")
        is_bits(v, BS, b)


@contract("P04", bounded=NMAX, n=N1, b=Bits(), i=Int(-43, 43))
def bits_inverse(n, b, i):
    """Inverting one bit changes that bit and no other."""
    b = b[:n]
    v = BS(list(b))
    o = attempt(v.inverse, i)
    if -n <= i < n:
        ensure(o.ok, "accepted")
        want = list(b)
        want[i] = 1 - b[i]
        is_bits(v, BS, want)
    else:
        ensure(o.raised(IndexError), "refused")
        is_bits(v, BS, b)


@contract("P04", bounded="bit strings of 1..17 bits, distances 0..20", n=Each(*range(1, 18)), b=Bits(), k=Choice(0, 1, 2, 3, 7, 8, 9, 16, 17, 20))
def bits_rotate(n, b, k):
    """Rotating left or right moves every bit by the distance."""
    b = b[:n]
    v = BS(list(b))
    v << k
    is_bits(v, BS, [b[(j + k) % n] for j in range(n)])
    w = BS(list(b))
    w >> k
    is_bits(w, BS, [b[(j - k) % n] for j in range(n)])


@contract("P04", bounded=NMAX, n=N, b=Bits())
def bits_clear(n, b):
    """Clearing sets every bit to zero and keeps the number of bits."""
    v = BS(list(b[:n]))
    v.clear()
    is_bits(v, BS, [0] * n)


@contract("P04", b=Bits(), rest=Bytes())
def conformance_bits(b, rest):
    """The conformance block keeps its 24 bits through text, list and encoding."""
    b = b[:24]
    v = CF(list(b))
    is_bits(v, CF, b)
    is_bits(CF(text(b)), CF, b)
    is_bits(CF(v.encoding + rest), CF, b)
    is_bits(CF(v), CF, b)
    is_bits(CF(bytearray(pack(b))), CF, b)
    ensure(str(v) == text(b), "text")
    ensure(v.general_protection == b[1] and v.general_block_transfer == b[2] and v.selective_access == b[21], "named bits")


@contract("P04", b=Bits(), k=Int())
def conformance_from_int(b, k):
    """Bit i of a number given as conformance block is element i of the block; other numbers are refused."""
    o = attempt(CF, k)
    if 0 <= k < 2 ** 24:
        ensure(o.ok, "accepted")
        is_bits(o.value, CF, [(k >> i) & 1 for i in range(24)])
    else:
        ensure(o.raised(ValueError), "refused")


@contract("P04", b=Bits(), i=Int(-30, 30), x=Int(0, 1))
def conformance_set_one(b, i, x):
    """Setting one bit of the conformance block changes that bit and no other."""
    b = b[:24]
    v = CF(list(b))
    o = attempt(v.__setitem__, i, x)
    if -24 <= i < 24:
        ensure(o.ok, "accepted")
        want = list(b)
        want[i] = x
        is_bits(v, CF, want)
    else:
        ensure(o.raised(IndexError), "refused")
        is_bits(v, CF, b)


@contract("P04", b=Bits(), i=Int(0, 23))
def conformance_inverse(b, i):
    """Inverting one bit of the conformance block changes that bit and no other."""
    b = b[:24]
    v = CF(list(b))
    v.inverse(i)
    want = list(b)
    want[i] = 1 - b[i]
    is_bits(v, CF, want)


@contract("P04", b=Bits(), k=Choice(0, 1, 5, 8, 23, 24))
def conformance_rotate(b, k):
    """Rotating the conformance block moves every bit by the distance."""
    b = b[:24]
    v = CF(list(b))
    v << k
    is_bits(v, CF, [b[(j + k) % 24] for j in range(24)])
    w = CF(list(b))
    w >> k
    is_bits(w, CF, [b[(j - k) % 24] for j in range(24)])


@contract("P04", n=Each(0, 1, 8, 16, 20, 23, 25, 32), b=Bits())
def conformance_wrong_size(n, b):
    """A conformance block of another size is refused, however it is given."""
    b = b[:n]
    ensure(attempt(CF, list(b)).raised(ValueError), "list refused")
    ensure(attempt(CF, text(b)).raised(ValueError), "text refused")
    ensure(attempt(CF, BS(list(b))).raised(ValueError), "bit string refused")
    ensure(attempt(CF, BS(list(b)).encoding).raised(ValueError), "encoding refused")


@contract("P04", data=Bytes(0, None), tag=Int(0, 255))
def conformance_bad_encoding(data, tag):
    """An encoding with another tag or too few octets is refused."""
    require(tag != 4 or len(data) < 3)
    ensure(attempt(CF, bytes([tag, 24]) + data).raised(ValueError, TypeError), "refused")


# ---------------------------------------------------------------- any number of bits

ANY = ListOf(bit_of, 0, 2 ** 32 - 1)
ANY1 = ListOf(bit_of, 1, 2 ** 32 - 1)


def octet_count(n):
    return (n + 7) // 8


@contract("P04", b=ANY, standin="bits_from_list")
def bits_from_list_any(b):
    """A bit string built from a list of bits reports them and encodes them."""
    n = len(b)
    v = BS(list(b))
    ensure(type(v) is BS and len(v) == n, "type and number of bits")
    ensure(v.decode() == b, "bits in order")
    ensure(len(v.contents) == octet_count(n), "number of octets")
    ensure(v.encoding == b"\x04" + length_field(n) + v.contents, "tag and bit count")


@contract("P04", b=ANY, k=Nat(), standin="bits_from_list")
def bits_packed_any(b, k):
    """Bit k is bit 7 - k mod 8 of octet k div 8 of the encoding; the bits after the last are zero."""
    n = len(b)
    require(k < 8 * octet_count(n))
    v = BS(list(b))
    ensure((v.contents[k // 8] >> (7 - k % 8)) & 1 == (b[k] if k < n else 0), "packed most significant bit first, zero padding")


@contract("P04", b=ANY, standin="bits_from_text")
def bits_from_text_any(b):
    """A bit string built from text reports its bits; its text is the text it was built from."""
    t = "".join(map(str, b))
    v = BS(t)
    ensure(len(v) == len(b), "number of bits")
    ensure(v.decode() == b, "bits in order")
    ensure(str(v) == t, "text")


@contract("P04", b=ANY, rest=Bytes(), deadline=300, standin="bits_round_trip")
def bits_round_trip_any(b, rest):
    """Decoding the encoding, whatever follows it, gives the same bits."""
    enc = BS(list(b)).encoding
    v = BS(enc + rest)
    ensure(len(v) == len(b), "number of bits")
    ensure(v.decode() == b, "bits in order")
    ensure(v.encoding == enc, "same encoding")
    w, left = cdt.get_instance_and_pdu(BS, enc + rest)
    ensure(len(w) == len(b) and w.contents == v.contents and left == rest, "decoding leaves what follows")


@contract("P04", n=Int(0, 2 ** 32 - 1), data=Bytes(), standin="bits_from_encoding")
def bits_from_encoding_any(n, data):
    """An encoding with enough octets gives exactly its first bits."""
    require(len(data) >= octet_count(n))
    v = BS(b"\x04" + length_field(n) + data)
    ensure(len(v) == n, "number of bits")
    ensure(v.decode() == [(data[i // 8] >> (7 - i % 8)) & 1 for i in range(n)], "bits in order")


@contract("P04", data=Bytes(kind="bytearray"), standin="bits_from_octets")
def bits_from_octets_any(data):
    """Raw contents given as octets are taken over, eight bits each."""
    n = 8 * len(data)
    v = BS(data)
    ensure(len(v) == n and v.contents == bytes(data), "octets")
    ensure(v.decode() == [(data[i // 8] >> (7 - i % 8)) & 1 for i in range(n)], "bits in order")


@contract("P04", b=ANY1, i=Int(), x=Int(0, 1), deadline=300, standin="bits_set_one")
def bits_set_one_any(b, i, x):
    """Setting one bit changes that bit and no other; an index outside is refused and changes nothing."""
    n = len(b)
    v = BS(list(b))
    o = attempt(v.__setitem__, i, x)
    if -n <= i < n:
        ensure(o.ok, "accepted")
        want = list(b)
        want[i] = x
        ensure(v.decode() == want, "that bit and no other")
    else:
        ensure(o.raised(IndexError), "refused")
        ensure(v.decode() == b, "nothing changed")
    ensure(len(v) == n, "number of bits")


@contract("P04", b=ANY1, i=Int(), deadline=300, standin="bits_inverse")
def bits_inverse_any(b, i):
    """Inverting one bit changes that bit and no other."""
    n = len(b)
    v = BS(list(b))
    o = attempt(v.inverse, i)
    if -n <= i < n:
        ensure(o.ok, "accepted")
        want = list(b)
        want[i] = 1 - b[i]
        ensure(v.decode() == want, "that bit and no other")
    else:
        ensure(o.raised(IndexError), "refused")
        ensure(v.decode() == b, "nothing changed")
    ensure(len(v) == n, "number of bits")


@contract("P04", b=ANY1, k=Each(0, 1, 2), deadline=300, standin="bits_rotate")
def bits_rotate_any(b, k):
    """Rotating left or right moves every bit by the distance."""
    n = len(b)
    require(k < n)
    v = BS(list(b))
    v << k
    ensure(len(v) == n, "number of bits")
    ensure(v.decode() == b[k:] + b[:k], "to the left")
    w = BS(list(b))
    w >> k
    ensure(len(w) == n, "number of bits")
    ensure(w.decode() == b[n - k:] + b[:n - k], "to the right")
