"""PDU buffers (P17)."""
from dv.spec import *
from lengths import length_field

bb = repo("types.byte_buffer")
cp = repo("types.cosem_pdu")

BOTH = Each(bb.ByteBuffer, cp.Buffer)
DATA = Bytes(kind="bytearray")
BIG = 2 ** 32 - 1


def at(cls, data, pos):
    """a buffer on data, positioned (any position up to the end of the data)"""
    require(pos <= len(data))
    b = cls(memoryview(data))
    b.set_pos(pos)
    ensure(b.get_pos() == pos, "position set")
    return b


def left(b, data, was, pos):
    """nothing changed"""
    ensure(data == was, "contents unchanged")
    ensure(b.get_pos() == pos, "position unchanged")


def fits(data, pos, n):
    return 0 <= pos and 0 <= n and pos + n <= len(data)


@contract("P17", cls=BOTH, data=DATA, pos=Nat(), n=Int())
def buffer_read(cls, data, pos, n):
    """a read returns the octets at the position and advances it, or is refused"""
    b = at(cls, data, pos)
    was = bytes(data)
    r = attempt(b.read, n)
    ensure(data == was, "contents unchanged")
    if fits(data, pos, n):
        ensure(r.ok, "read that fits succeeds")
        ensure(bytes(r.value) == was[pos:pos + n], "octets read")
        ensure(b.get_pos() == pos + n, "position advanced by the octets read")
        ensure(b.remaining() == len(was) - pos - n, "remaining octets")
    else:
        ensure(r.raised(BufferError), "read that does not fit refused")
        ensure(b.get_pos() == pos, "position unchanged")


@contract("P17", cls=BOTH, data=DATA, pos=Nat(), start=Int(), n=Int())
def buffer_read_elsewhere(cls, data, pos, start, n):
    """a read at another place never moves the position"""
    b = at(cls, data, pos)
    was = bytes(data)
    r = attempt(b.read_pos, start, n)
    left(b, data, was, pos)
    if fits(data, start, n):
        ensure(r.ok, "read that fits succeeds")
        ensure(bytes(r.value) == was[start:start + n], "octets read")
    else:
        ensure(r.raised(BufferError), "read that does not fit refused")


@contract("P17", cls=BOTH, data=DATA, pos=Nat(), value=Bytes(), view=Bool())
def buffer_write(cls, data, pos, value, view):
    """a write puts the octets at the position and advances it, or is refused; what was written is read back"""
    b = at(cls, data, pos)
    was = bytes(data)
    n = len(value)
    r = attempt(b.write, memoryview(value) if view else value)
    if fits(data, pos, n):
        ensure(r.ok, "write that fits succeeds")
        ensure(r.value == n, "number of octets reported")
        ensure(data == was[:pos] + value + was[pos + n:], "written octets in place, the others as they were")
        ensure(b.get_pos() == pos + n, "position advanced by the octets written")
        b.set_pos(pos)
        ensure(bytes(b.read(n)) == value, "what was written is read back")
    else:
        ensure(r.raised(BufferError), "write that does not fit refused")
        left(b, data, was, pos)


@contract("P17", cls=BOTH, data=DATA, pos=Nat(), value=Bytes(), start=Int())
def buffer_write_elsewhere(cls, data, pos, value, start):
    """a write at another place never moves the position"""
    b = at(cls, data, pos)
    was = bytes(data)
    n = len(value)
    r = attempt(b.write_pos, value, start)
    ensure(b.get_pos() == pos, "position unchanged")
    if fits(data, start, n):
        ensure(r.ok, "write that fits succeeds")
        ensure(r.value == n, "number of octets reported")
        ensure(data == was[:start] + value + was[start + n:], "written octets in place, the others as they were")
        ensure(bytes(b.read_pos(start, n)) == value, "what was written is read back")
    else:
        ensure(r.raised(BufferError), "write that does not fit refused")
        ensure(data == was, "contents unchanged")


@contract("P17", cls=BOTH, data=DATA, pos=Nat(), value=Bytes(), n=Int())
def buffer_write_with_count(cls, data, pos, value, n):
    """an explicit number of octets must be the number given"""
    b = at(cls, data, pos)
    was = bytes(data)
    r = attempt(b.write, value, n)
    if n == len(value) and fits(data, pos, n):
        ensure(r.ok, "write that fits succeeds")
        ensure(data == was[:pos] + value + was[pos + n:], "written octets in place, the others as they were")
        ensure(b.get_pos() == pos + n, "position advanced by the octets written")
    else:
        ensure(r.raised(BufferError, ValueError), "write that does not fit refused")
        left(b, data, was, pos)


@contract("P17", cls=BOTH, data=DATA, pos=Nat(), x=Int())
def buffer_put_octet(cls, data, pos, x):
    b = at(cls, data, pos)
    was = bytes(data)
    r = attempt(b.put_int, x)
    if 0 <= x and x <= 255 and pos < len(data):
        ensure(r.ok, "octet that fits is put")
        ensure(r.value == 1, "number of octets reported")
        ensure(data == was[:pos] + bytes([x]) + was[pos + 1:], "octet in place, the others as they were")
        ensure(b.get_pos() == pos + 1, "position advanced by one")
        b.set_pos(pos)
        ensure(b.get_uint8() == x, "what was put is read back")
    else:
        ensure(r.raised(BufferError, ValueError), "octet that does not fit or is no octet refused")
        left(b, data, was, pos)


@contract("P17", cls=BOTH, data=DATA, pos=Nat(), n=Int(), start=Int())
def buffer_read_number(cls, data, pos, n, start):
    """big-endian numbers"""
    b = at(cls, data, pos)
    was = bytes(data)
    r = attempt(b.get_uint_pos, start, n)
    left(b, data, was, pos)
    if fits(data, start, n):
        ensure(r.ok, "number that fits is read")
        ensure(r.value == int.from_bytes(was[start:start + n], "big"), "value of the number")
    else:
        ensure(r.raised(BufferError), "number that does not fit refused")
    r = attempt(b.get_uint, n)
    ensure(data == was, "contents unchanged")
    if fits(data, pos, n):
        ensure(r.ok, "number that fits is read")
        ensure(r.value == int.from_bytes(was[pos:pos + n], "big"), "value of the number")
        ensure(b.get_pos() == pos + n, "position advanced by the octets read")
    else:
        ensure(r.raised(BufferError), "number that does not fit refused")
        ensure(b.get_pos() == pos, "position unchanged")


@contract("P17", cls=BOTH, data=DATA, pos=Nat(), one=Bool())
def buffer_read_octet(cls, data, pos, one):
    b = at(cls, data, pos)
    was = bytes(data)
    r = attempt(b.get_uint8 if one else b.get)
    ensure(data == was, "contents unchanged")
    if pos < len(was):
        ensure(r.ok, "octet read")
        if one:
            ensure(r.value == was[pos], "value of the octet")
        else:
            ensure(r.value == was[pos:pos + 1], "octet read")
        ensure(b.get_pos() == pos + 1, "position advanced by one")
    else:
        ensure(r.raised(BufferError), "read behind the end refused")
        ensure(b.get_pos() == pos, "position unchanged")


@contract("P17", cls=BOTH, data=DATA, pos=Nat(), to=Int())
def buffer_position(cls, data, pos, to):
    b = at(cls, data, pos)
    was = bytes(data)
    r = attempt(b.set_pos, to)
    ensure(data == was, "contents unchanged")
    if 0 <= to and to <= len(was):
        ensure(r.ok, "position inside the buffer taken")
        ensure(b.get_pos() == to, "new position")
        ensure(b.remaining() == len(was) - to, "remaining octets")
    else:
        ensure(r.raised(IndexError), "position outside the buffer refused")
        ensure(b.get_pos() == pos, "position unchanged")


@contract("P17", cls=BOTH, data=DATA, pos=Nat(), x=Int(0, 255))
def buffer_views(cls, data, pos, x):
    """a slice shares the octets, a frozen copy does not"""
    b = at(cls, data, pos)
    was = bytes(data)
    ensure(len(b) == len(was), "length of the buffer")
    ensure(bytes(b) == was, "octets of the buffer")
    s = b.slice()
    f = b.frozen()
    ensure(type(s) is cls and type(f) is cls, "same kind of buffer")
    ensure(len(s) == len(was) - pos and s.get_pos() == 0, "the slice starts at the position")
    ensure(bytes(s) == was[pos:], "octets of the slice")
    ensure(bytes(f) == was and f.get_pos() == 0, "octets of the frozen copy")
    left(b, data, was, pos)
    if pos < len(was):
        s.put_int(x)
        ensure(data == was[:pos] + bytes([x]) + was[pos + 1:], "writing through the slice reaches the buffer")
        ensure(bytes(f) == was, "the frozen copy keeps its octets")
        r = attempt(f.put_int, x)
        ensure(not r.ok, "writing to a frozen copy refused")
        ensure(bytes(f) == was and f.get_pos() == 0, "the frozen copy is unchanged")
        r = attempt(f.write, bytes([x]))
        ensure(not r.ok, "writing to a frozen copy refused")
        ensure(bytes(f) == was and f.get_pos() == 0, "the frozen copy is unchanged")


@contract("P17", cls=BOTH, data=Bytes(), n=Int(0, 64))
def buffer_made(cls, data, n):
    b = cls.wrap(data)
    ensure(type(b) is cls and b.get_pos() == 0 and bytes(b) == data, "buffer around octets")
    a = cls.allocate(n)
    ensure(type(a) is cls and a.get_pos() == 0 and len(a) == n, "buffer of the size asked for")
    ensure(bytes(a) == bytes(n), "it starts with zeros")


# ------------------------------------------------------------------ length fields in buffers

@contract("P17", "P01", data=DATA, pos=Nat(), n=Nat())
def buffer_put_length(data, pos, n):
    require(n < 2 ** 64)
    b = at(cp.Buffer, data, pos)
    was = bytes(data)
    f = length_field(n)
    r = attempt(b.put_len, n)
    if fits(data, pos, len(f)):
        ensure(r.ok, "length field that fits is put")
        ensure(r.value == len(f), "number of octets reported")
        ensure(data == was[:pos] + f + was[pos + len(f):], "length field in place, the other octets as they were")
        ensure(b.get_pos() == pos + len(f), "position advanced by the octets written")
        b.set_pos(pos)
        ensure(b.get_length() == n, "the length is read back")
        ensure(b.get_pos() == pos + len(f), "position advanced by the octets read")
    else:
        ensure(r.raised(BufferError), "length field that does not fit refused")
        left(b, data, was, pos)


@contract("P17", "P01", data=DATA, pos=Nat())
def buffer_get_length(data, pos):
    """a length field is read exactly, or refused"""
    b = at(cp.Buffer, data, pos)
    was = bytes(data)
    r = attempt(b.get_length)
    ensure(data == was, "contents unchanged")
    if pos == len(was):
        ensure(r.raised(BufferError), "no octet left: refused")
        ensure(b.get_pos() == pos, "position unchanged")
        return
    h = was[pos]
    if h < 0x80:
        ensure(r.ok, "short form read")
        ensure(r.value == h, "length")
        ensure(b.get_pos() == pos + 1, "position advanced by one")
        return
    k = h - 0x80
    if pos + 1 + k <= len(was):
        ensure(r.ok, "long form read")
        ensure(r.value == int.from_bytes(was[pos + 1:pos + 1 + k], "big"), "length")
        ensure(b.get_pos() == pos + 1 + k, "position advanced by the octets read")
    else:
        ensure(r.raised(BufferError), "truncated length field refused")
        ensure(b.get_pos() == pos, "position unchanged")


@contract("P17", data=DATA, pos=Nat(), value=Bytes(0, BIG))
def buffer_write_counted(data, pos, value):
    """octets with their length field"""
    b = at(cp.Buffer, data, pos)
    was = bytes(data)
    f = length_field(len(value))
    n = len(f) + len(value)
    r = attempt(b.write_with_length, memoryview(value))
    if fits(data, pos, n):
        ensure(r.ok, "octets that fit are written")
        ensure(r.value == n, "number of octets reported")
        ensure(data == was[:pos] + f + value + was[pos + n:], "written octets in place, the others as they were")
        ensure(b.get_pos() == pos + n, "position advanced by the octets written")
        b.set_pos(pos)
        ensure(bytes(b.read_by_length()) == value, "what was written is read back")
        ensure(b.get_pos() == pos + n, "position advanced by the octets read")
    else:
        ensure(r.raised(BufferError), "octets that do not fit refused")
        left(b, data, was, pos)


@contract("P17", data=DATA, pos=Nat())
def buffer_read_counted(data, pos):
    b = at(cp.Buffer, data, pos)
    was = bytes(data)
    r = attempt(b.read_by_length)
    ensure(data == was, "contents unchanged")
    if pos < len(was):
        h = was[pos]
        if h < 0x80:
            n, start = h, pos + 1
        else:
            n, start = -1, pos + 1 + h - 0x80
            if start <= len(was):
                n = int.from_bytes(was[pos + 1:start], "big")
        if n >= 0 and start + n <= len(was):
            ensure(r.ok, "counted octets read")
            ensure(bytes(r.value) == was[start:start + n], "octets read")
            ensure(b.get_pos() == start + n, "position advanced by the octets read")
            return
    ensure(r.raised(BufferError), "truncated octets refused")
    ensure(b.get_pos() == pos, "position unchanged")


@contract("P17", cls=BOTH, data=DATA, pos=Nat(), start=Nat())
def buffer_read_one(cls, data, pos, start):
    """without a length, one octet is read"""
    b = at(cls, data, pos)
    was = bytes(data)
    r = attempt(b.read_pos, start)
    ensure(r.ok == (start < len(was)), "accepted exactly if there is an octet")
    if r.ok:
        ensure(bytes(r.value) == was[start:start + 1], "octet elsewhere")
    ensure(b.get_pos() == pos, "position not moved")
    r = attempt(b.read)
    ensure(r.ok == (pos < len(was)), "accepted exactly if an octet is left")
    if r.ok:
        ensure(bytes(r.value) == was[pos:pos + 1], "octet at the position")
    ensure(b.get_pos() == pos + (1 if r.ok else 0), "position advanced by one octet")
