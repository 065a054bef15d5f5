"""HDLC frames (P10, P11)."""
from dv.spec import *
from collections import deque
from hdlc_fields import fcs, fcs_step, address_octets

fr = repo("hdlc.frame")
FLAG = 0x7e


def layout(da, sa, control, info, seg):
    """the octets of a frame"""
    n = len(da) + len(sa) + (5 if len(info) == 0 else 7 + len(info))
    f = 0xa000 + (0x800 if seg else 0) + n
    head = bytes([f >> 8, f & 255]) + da + sa + bytes([control])
    if len(info) == 0:
        body = head
    else:
        body = head + fcs(head) + info
    return bytes([FLAG]) + body + fcs(body) + bytes([FLAG])


def is_frame(f, da, sa, control, info, seg, n):
    ensure(f.get_header()[0].content == da, "destination address")
    ensure(f.get_header()[1].content == sa, "source address")
    ensure(f.control == control, "control field")
    ensure(f.info == info, "information field")
    ensure(f.is_segmentation == seg, "segmentation bit")
    ensure(len(f) == n - 2, "announced length is the number of octets between the flags")


def parts(u, l, n):
    """address parts an address of n octets can hold"""
    return (u, l) if n == 4 else (u % 128, l % 128)


A = (1, 2, 4)
PARTS = Int(0, 0x3fff)


@contract("P10", n1=Each(*A), n2=Each(*A), u1=PARTS, l1=PARTS, u2=PARTS, l2=PARTS,
          control=Int(0, 255), info=Bytes(), seg=Bool(), rest=Bytes(), folds=(fcs_step,), drops=(FLAG,), deadline=200)
def frame_round_trip(n1, n2, u1, l1, u2, l2, control, info, seg, rest):
    u1, l1 = parts(u1, l1, n1)
    u2, l2 = parts(u2, l2, n2)
    da, sa = address_octets(u1, l1, n1), address_octets(u2, l2, n2)
    r = attempt(fr.Frame, DA=fr.Address(content=da), SA=fr.Address(content=sa), control=fr.Control(control), info=info, is_segmentation=seg)
    if n1 + n2 + len(info) + 7 > 2047:
        ensure(r.raised(ValueError), "information longer than the length field allows refused")
        return
    ensure(r.ok, "frame built")
    octets = layout(da, sa, control, info, seg)
    ensure(r.value.content == octets, "octets of the frame")
    is_frame(r.value, da, sa, control, info, seg, len(octets))
    data = bytearray(octets + rest)
    f = fr.Frame.try_from(data)
    ensure(f is not None, "built frame is recognised")
    is_frame(f, da, sa, control, info, seg, len(octets))
    ensure(f.content == octets, "octets of the parsed frame")
    ensure(data == bytes([FLAG]) + rest, "the closing flag and what follows stay in the buffer")


def address_size(b):
    """octets of the address at the head of b, 0 if there is none"""
    n = len(b)
    if n > 0 and b[0] % 2 == 1:
        return 1
    if n > 1 and b[1] % 2 == 1:
        return 2
    if n > 3 and b[2] % 2 == 0 and b[3] % 2 == 1:
        return 4
    return 0


class Frames(Bytes):
    """arbitrary octets; concrete search prefers frames with small defects"""

    def sample(self, rnd, i):
        if rnd.random() < .1:
            return super().sample(rnd, i)
        n1, n2 = rnd.choice(A), rnd.choice(A)
        k = rnd.choice((0, 0, 1, 2, 3, 5, 20, 120, 128, 260, rnd.randrange(2047), 2047 - 7 - n1 - n2))
        c = rnd.choice((rnd.randrange(256), 0x10, 0x93, 0x13, 0x1e))
        da = address_octets(rnd.randrange(128 if n1 < 4 else 16384), rnd.randrange(128 if n1 < 4 else 16384), n1)
        sa = address_octets(rnd.randrange(128 if n2 < 4 else 16384), rnd.randrange(128 if n2 < 4 else 16384), n2)
        k = min(k, 2047 - 7 - n1 - n2)
        b = bytearray(layout(da, sa, c, rnd.randbytes(k), rnd.random() < .5))
        b += rnd.choice((b"", b"", bytes(b), b"\x7e", rnd.randbytes(5)))
        if rnd.random() < .3:
            b = rnd.choice((b"\x00", b"\x7e", rnd.randbytes(3), b"\x7e\xa0\x07", bytes(8))) + b
        if rnd.random() < .75:
            b = self.mutate(b, rnd, ())
        return bytearray(b)

    def mutate(self, v, rnd, pool):
        r = rnd.random()
        if r < .45 and v:
            b = bytearray(v)
            i = rnd.choice((rnd.randrange(len(b)), rnd.randrange(min(len(b), 16))))
            b[i] = b[i] ^ 1 << rnd.randrange(8) if rnd.random() < .7 else rnd.randrange(256)
        elif r < .6:
            b = bytearray(v[:rnd.randrange(len(v) + 1)])
        else:
            b = super().mutate(v, rnd, pool)
        if rnd.random() < .5:        # make the check sequences right again
            k = b.find(FLAG)
            q = bytes(b[k + 1:])
            if k >= 0 and len(q) > 8:
                if rnd.random() < .3:
                    n = len(q) - 1
                    b[k + 1], b[k + 2] = 0xa0 | b[k + 1] & 8 | n >> 8 & 7, n & 255
                    q = bytes(b[k + 1:])
                n = (q[0] & 7) * 256 + q[1]
                i = address_size(q[2:n])
                j = address_size(q[2 + i:n]) if i else 0
                h = 2 + i + j + 1
                if j and h + 4 <= n <= len(q) and rnd.random() < .8:
                    b[k + 1 + h:k + 3 + h] = fcs(q[:h])
                    q = bytes(b[k + 1:])
                if 2 < n <= len(q) and rnd.random() < .8:
                    b[k - 1 + n:k + 1 + n] = fcs(q[:n - 2])
        return b


@contract("P11", data=Frames(kind="bytearray"), folds=(fcs_step,), drops=(FLAG,), deadline=400)
def frame_parse(data):
    """the parser on arbitrary octets: exactly the well-formed frames are taken"""
    was = bytes(data)
    r = attempt(fr.Frame.try_from, data)
    ensure(r.ok, "no error")
    f = r.value
    k = was.find(FLAG)
    if k == -1:
        ensure(f is None, "no opening flag: no frame")
        ensure(data == b"", "octets without a flag are dropped")
        return
    b = was[k:]
    if len(b) < 9:
        ensure(f is None, "too few octets: no frame")
        ensure(data == b, "octets before the opening flag are dropped, nothing else")
        return
    if b[1] >> 4 != 10:
        ensure(f is None, "not format type 3: no frame")
        ensure(data == b[1:], "the flag is dropped")
        return
    n = (b[1] & 7) * 256 + b[2]
    if n + 2 > len(b):
        ensure(f is None, "incomplete: no frame")
        ensure(data == b, "nothing is consumed from the frame's start")
        return
    if b[n + 1] == FLAG and n >= 2:
        body = b[1:n + 1]
        at = body[2:]
        i = address_size(at)
        if i != 0:
            j = address_size(at[i:])
            if j != 0:
                tail = at[i + j:]
                if len(tail) == 3:
                    if tail[1:] == fcs(body[:-2]):
                        taken(f, data, b, n, at[:i], at[i:i + j], tail[0], b"")
                        return
                elif len(tail) >= 5:
                    head = body[:2 + i + j + 1]
                    if tail[1:3] == fcs(head) and tail[-2:] == fcs(body[:-2]):
                        taken(f, data, b, n, at[:i], at[i:i + j], tail[0], tail[3:-2])
                        return
    ensure(f is None, "malformed: no frame")
    ensure(data == b[1:], "only the flag of the malformed frame is dropped")


def taken(f, data, b, n, da, sa, control, info):
    ensure(f is not None, "well-formed frame is taken")
    is_frame(f, da, sa, control, info, b[1] & 8 != 0, n + 2)
    ensure(f.content == b[:n + 2], "octets of the frame")
    ensure(data == b[n + 1:], "the closing flag and what follows stay in the buffer")


@contract("P12", u=Seq(PARTS, 4), l=Seq(PARTS, 4), info=Bytes(0, 2000), folds=(fcs_step,), deadline=100)
def frame_for_me(u, l, info):
    """A received frame is the answer of the addressed station exactly if it comes from there and goes to the own address."""
    own, peer, da, sa = [fr.Address(content=address_octets(u[i], l[i], 4)) for i in range(4)]
    f = fr.Frame(DA=da, SA=sa, control=fr.Control(0x10), info=info, is_segmentation=False)
    ensure(f.is_for_me(peer, own) == (u[2] == u[0] and l[2] == l[0] and u[3] == u[1] and l[3] == l[1]), "source and destination compared")


# ------------------------------------------------------------------ segmented information (P22)

CTRL = Int(0, 255)


def frame_of(segment):
    control, info, seg = segment
    return fr.Frame(DA=fr.Address(upper_address=16), SA=fr.Address(upper_address=1), control=fr.Control(control), info=info, is_segmentation=seg)


def is_info(control):
    return control % 2 == 0


def send_number(control):
    return control // 2 % 8


def joined(segments):
    """(complete, the information, number of segments used)"""
    i = 0
    while i < len(segments) and not is_info(segments[i][0]):
        i += 1
    if i == len(segments):
        return False, b"", i
    control, out, more = segments[i]
    i += 1
    while more:
        if i == len(segments):
            return False, b"", i
        c, info, seg = segments[i]
        if is_info(c) and send_number(c) == (send_number(control) + 1) % 8:
            control, more = c, seg
            out = out + info
        i += 1
    return True, out, i


def join(segments):
    frames = [frame_of(s) for s in segments]
    queue = deque(frames)
    r = attempt(fr.Frame.join_info, queue)
    complete, info, used = joined(segments)
    if complete:
        ensure(r.ok, "complete information accepted")
        ensure(bytes(r.value) == info, "information of the segments in order")
        ensure(list(queue) == frames[used:], "the frames after the last segment stay in the queue")
    else:
        ensure(r.raised(ValueError), "incomplete information refused")


@contract("P22", n=Each(0, 1, 2, 3, 4), c=Seq(CTRL, 4), infos=Seq(Bytes(0, 2000), 4), more=Seq(Bool(), 4),
          bounded="queues of up to 4 frames, with any control octets and any information", folds=(fcs_step,), deadline=300)
def segments_joined(n, c, infos, more):
    """Joining takes the information of the first information frame and of every frame that continues it."""
    join([(c[i], infos[i], more[i]) for i in range(n)])


@contract("P22", n=Each(*range(1, 13), 20, 40), first=Int(0, 7), infos=Seq(Bytes(1, 2000), 40), rp=Seq(CTRL, 40), folds=(fcs_step,),
          bounded="up to 12, 20 and 40 segments in sequence, none of them empty, with any poll bits and receive numbers", deadline=300)
def segments_in_sequence(n, first, infos, rp):
    """Segments in sequence are joined whatever their poll bits and receive numbers; without the last one they are refused."""
    controls = [rp[i] // 16 * 16 + (first + i) % 8 * 2 for i in range(n)]
    queue = deque([frame_of((controls[i], infos[i], i < n - 1)) for i in range(n)])
    r = attempt(fr.Frame.join_info, queue)
    ensure(r.ok, "accepted")
    ensure(bytes(r.value) == b"".join(infos[:n]), "information of the segments in order")
    ensure(len(queue) == 0, "all taken from the queue")
    queue = deque([frame_of((controls[i], infos[i], True)) for i in range(n)])
    ensure(attempt(fr.Frame.join_info, queue).raised(ValueError), "without the last segment refused")


@contract("P22", a=CTRL, b=CTRL)
def next_segment(a, b):
    """An information frame is the next one exactly if its send number follows."""
    require(is_info(a) and is_info(b))
    f, g = frame_of((a, b"", True)), frame_of((b, b"", False))
    ensure(bool(g.is_next_send(f)) == (send_number(b) == (send_number(a) + 1) % 8), "next send number")
