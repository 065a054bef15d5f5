"""HDLC parameter negotiation (P15)."""
from dv.spec import *

ng = repo("hdlc.negotiation")
INFO, WINDOW = Int(32, 2030), Int(1, 7)


def info_field(tag, x):
    if x == 128:
        return b""
    if x < 256:
        return bytes([tag, 1, x])
    return bytes([tag, 2, x >> 8, x & 255])


def window_field(tag, x):
    return b"" if x == 1 else bytes([tag, 4, 0, 0, 0, x])


def negotiation_octets(it, ir, wt, wr):
    """format and group identifier, group length, the parameters that differ from the defaults"""
    body = info_field(5, it) + info_field(6, ir) + window_field(7, wt) + window_field(8, wr)
    return b"" if len(body) == 0 else bytes([0x81, 0x80, len(body)]) + body


def has(n, it, ir, wt, wr):
    ensure(n.max_info_transmit == it, "largest information field to transmit")
    ensure(n.max_info_receive == ir, "largest information field to receive")
    ensure(n.window_transmit == wt, "transmit window")
    ensure(n.window_receive == wr, "receive window")


@contract("P15", it=INFO, ir=INFO, wt=WINDOW, wr=WINDOW)
def negotiation_field(it, ir, wt, wr):
    n = ng.Negotiation(it, ir, wt, wr)
    octets = negotiation_octets(it, ir, wt, wr)
    ensure(n.content == octets, "every parameter is in its own place")
    ensure(n.info == octets, "information")
    ensure(len(n) == len(octets), "length")
    ensure(bytes(n.SNRM) == octets, "field of the request")
    has(n, it, ir, wt, wr)


@contract("P15", it=INFO, ir=INFO, wt=WINDOW, wr=WINDOW, jt=INFO, jr=INFO, xt=WINDOW, xr=WINDOW)
def negotiation_round_trip(it, ir, wt, wr, jt, jr, xt, xr):
    """what the peer announces to transmit is what we may receive, and the other way round"""
    n = ng.Negotiation(jt, jr, xt, xr)
    n.set_from_UA(negotiation_octets(it, ir, wt, wr))
    has(n, ir, it, wr, wt)


@contract("P15", it=INFO, ir=INFO, wt=WINDOW, wr=WINDOW, jt=INFO, jr=INFO, xt=WINDOW, xr=WINDOW)
def negotiation_follows_changes(it, ir, wt, wr, jt, jr, xt, xr):
    """the field is built from the present parameters, also after they were used and changed"""
    n = ng.Negotiation(jt, jr, xt, xr)
    observe(n.content)
    n.set_from_UA(negotiation_octets(it, ir, wt, wr))
    ensure(n.content == negotiation_octets(ir, it, wr, wt), "field after a response")
    n.max_info_transmit, n.max_info_receive, n.window_transmit, n.window_receive = it, ir, wt, wr
    ensure(n.content == negotiation_octets(it, ir, wt, wr), "field after an assignment")


def take(content):
    """(accepted, receive info, transmit info, receive window, transmit window)"""
    ir, it, wr, wt = 128, 128, 1, 1
    bad = (False, 0, 0, 0, 0)
    n = len(content)
    if n == 0:
        return True, ir, it, wr, wt
    if n < 3 or content[0] != 0x81 or content[1] != 0x80 or content[2] != n - 3:
        return bad
    at = 3
    while at < n:
        tag = content[at]
        if tag < 5 or tag > 8 or at + 1 >= n:
            return bad
        k = content[at + 1]
        if at + 2 + k > n:
            return bad
        v = int.from_bytes(content[at + 2:at + 2 + k], "big")
        if tag < 7 and not (32 <= v and v <= 2030) or tag >= 7 and not (1 <= v and v <= 7):
            return bad
        if tag == 5:
            ir = v
        elif tag == 6:
            it = v
        elif tag == 7:
            wr = v
        else:
            wt = v
        at += 2 + k
    return True, ir, it, wr, wt


def response(jt, jr, xt, xr, content):
    n = ng.Negotiation(jt, jr, xt, xr)
    r = attempt(n.set_from_UA, content)
    good, ir, it, wr, wt = take(content)
    if good:
        ensure(r.ok, "response accepted")
        has(n, it, ir, wt, wr)
    else:
        ensure(r.raised(ValueError), "response refused")
        has(n, jt, jr, xt, xr)


class Response(Bytes):
    """octets that look like a response"""

    def sample(self, rnd, i):
        body = b""
        for _ in range(rnd.randrange(4)):
            k = rnd.choice((0, 1, 1, 1, 2, 2, 4, 4, 3))
            v = rnd.choice((0, 1, 2, 3, 7, 8, 31, 32, 33, 127, 128, 129, 255, 256, 2030, 2031, rnd.randrange(4096)))
            body += bytes([rnd.choice((5, 6, 7, 8, 5, 6, 7, 8, 4, 9)), k + rnd.choice((0,) * 9 + (1,))]) + (v % (1 << 8 * k)).to_bytes(k, "big")
        b = bytes([0x81, 0x80, len(body)]) + body
        if rnd.random() < .1:
            b = bytearray(b)
            b[rnd.randrange(len(b))] = rnd.randrange(256)
            b = bytes(b)
        b = b[:rnd.choice((len(b),) * 4 + (len(b) - 1,))]
        return b[:self.hi] if self.hi is not None else b


@contract("P15", jt=INFO, jr=INFO, xt=WINDOW, xr=WINDOW, content=Response(0, 9), bounded="responses of at most 9 octets", deadline=300)
def negotiation_response(jt, jr, xt, xr, content):
    response(jt, jr, xt, xr, content)


TAG = Int(0, 255)


@contract("P15", jt=INFO, jr=INFO, xt=WINDOW, xr=WINDOW, t1=TAG, v1=Bytes(0, 120), t2=TAG, v2=Bytes(0, 120), deadline=300)
def negotiation_response_two(jt, jr, xt, xr, t1, v1, t2, v2):
    """two parameters of any tag and length"""
    body = bytes([t1, len(v1)]) + v1 + bytes([t2, len(v2)]) + v2
    response(jt, jr, xt, xr, bytes([0x81, 0x80, len(body)]) + body)


SHORT = Choice(1, 2, 4)


@contract("P15", jt=INFO, jr=INFO, xt=WINDOW, xr=WINDOW, order=Each((5, 6, 7, 8), (6, 5, 8, 7), (8, 7, 6, 5), (7, 8, 5, 6), (5, 7, 6, 8), (5, 5, 7, 7)),
          size=Each((2, 2, 4, 4), (1, 2, 1, 1), (2, 1, 1, 4), (4, 4, 2, 2)), v=Seq(Bytes(4, 4), 4), tail=Bytes(0, 3), short=Int(0, 4), deadline=300)
def negotiation_response_four(jt, jr, xt, xr, order, size, v, tail, short):
    """four parameters, the last one possibly incomplete, and what follows them"""
    body = b""
    for i in range(4):
        body = body + bytes([order[i], size[i]]) + v[i][:size[i]]
    require(len(tail) == 0 or short == 0)
    require(short < size[3])
    body = body[:len(body) - short] + tail
    response(jt, jr, xt, xr, bytes([0x81, 0x80, len(body)]) + body)
