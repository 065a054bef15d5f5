"""HDLC addresses (P12), control field (P13), check sequence (P14), LLC header (P16)."""
from dv.spec import *

fr = repo("hdlc.frame")
llc = repo("hdlc.sub_layer")


# ------------------------------------------------------------------ addresses

def address_octets(upper, lower, n):
    if n == 1:
        return bytes([upper * 2 + 1])
    if n == 2:
        return bytes([upper * 2, lower * 2 + 1])
    return bytes([upper // 128 * 2, upper % 128 * 2, lower // 128 * 2, lower % 128 * 2 + 1])


def needed(upper, lower):
    """octets an address needs (a lower part of zero counts as absent)"""
    if not lower:
        return 1 if upper < 128 else 4
    return 2 if upper < 128 and lower < 128 else 4


def part_ok(x):
    return 0 <= x and x <= 0x3fff


def is_address(a, upper, lower, n):
    ensure(a.content == address_octets(upper, 0 if lower is None else lower, n), "octets of the address")
    ensure(len(a) == n, "length of the address")
    ensure(a.upper == upper, "upper part")
    if n == 1:
        ensure(a.lower is None, "no lower part")
    else:
        ensure(a.lower == (0 if lower is None else lower), "lower part")


@contract("P12", upper=Int(), lower=Opt(Int()))
def address_from_parts(upper, lower):
    r = attempt(fr.Address, upper_address=upper, lower_address=lower)
    if part_ok(upper) and (lower is None or part_ok(lower)):
        ensure(r.ok, "parts in range accepted")
        is_address(r.value, upper, lower, needed(upper, lower))
    else:
        ensure(r.raised(ValueError), "part out of range refused")


@contract("P12", upper=Int(0, 0x3fff), lower=Opt(Int(0, 0x3fff)), n=Each(1, 2, 4))
def address_forced_length(upper, lower, n):
    r = attempt(fr.Address, upper_address=upper, lower_address=lower, length=n)
    k = needed(upper, lower)
    if n < k or (n > 1 and lower is None and k == 1):
        ensure(r.raised(ValueError), "impossible length refused")
    else:
        ensure(r.ok, "possible length accepted")
        is_address(r.value, upper, lower, n)


@contract("P12", n=Each(*range(-4, 12), 16, 127, 128, 255, 256), bounded="lengths of -4..11 and a few others")
def address_length_values(n):
    """An address length is automatic (-1), one, two or four octets."""
    r = attempt(fr.AddressLength, n)
    if n == -1 or n == 1 or n == 2 or n == 4:
        ensure(r.ok and r.value == n and isinstance(r.value, fr.AddressLength), "accepted")
        t = "AUTO" if n == -1 else str(n)
        ensure(str(r.value) == t, "text")
        ensure(fr.AddressLength.from_str(t) == n, "text read back")
    else:
        ensure(r.raised(ValueError), "refused")


@contract("P12", "P10", upper=Int(0, 0x3fff), lower=Opt(Int(0, 0x3fff)), rest=Bytes())
def address_round_trip(upper, lower, rest):
    a = fr.Address(upper_address=upper, lower_address=lower)
    data = bytearray(a.content + rest)
    b = fr.Address.from_frame(data)
    ensure(data == rest, "exactly the address is consumed")
    is_address(b, upper, lower, needed(upper, lower))
    ensure(b == a, "equal address")
    ensure(hash(a) == hash(b), "equal hash")


@contract("P12", "P11", data=Bytes(kind="bytearray"))
def address_from_octets(data):
    """the end bit is in the first, second or fourth octet, and nowhere before"""
    was = bytes(data)
    n = len(was)
    r = attempt(fr.Address.from_frame, data)
    if n > 0 and was[0] % 2 == 1:
        k = 1
    elif n > 1 and was[1] % 2 == 1:
        k = 2
    elif n > 3 and was[2] % 2 == 0 and was[3] % 2 == 1:
        k = 4
    else:
        ensure(r.raised(ValueError), "not a complete address: refused")
        ensure(data == was, "nothing consumed")
        return
    ensure(r.ok, "complete address accepted")
    ensure(r.value.content == was[:k], "octets of the address")
    ensure(data == was[k:], "exactly the address is consumed")


@contract("P12", data=Bytes())
def address_from_content(data):
    r = attempt(fr.Address, data)
    n = len(data)
    if n == 1:
        good = data[0] % 2 == 1
    elif n == 2:
        good = data[0] % 2 == 0 and data[1] % 2 == 1
    elif n == 4:
        good = data[0] % 2 == 0 and data[1] % 2 == 0 and data[2] % 2 == 0 and data[3] % 2 == 1
    else:
        good = False
    if good:
        ensure(r.ok, "address accepted")
        a = r.value
        if n == 1:
            is_address(a, data[0] // 2, None, 1)
        elif n == 2:
            is_address(a, data[0] // 2, data[1] // 2, 2)
        else:
            is_address(a, data[0] // 2 * 128 + data[1] // 2, data[2] // 2 * 128 + data[3] // 2, 4)
    else:
        ensure(r.raised(ValueError), "not an address: refused")


@contract("P12", u1=Int(0, 0x3fff), l1=Opt(Int(1, 0x3fff)), u2=Int(0, 0x3fff), l2=Opt(Int(1, 0x3fff)))
def address_equality(u1, l1, u2, l2):
    a, b = fr.Address(upper_address=u1, lower_address=l1), fr.Address(upper_address=u2, lower_address=l2)
    ensure((a == b) == (u1 == u2 and l1 == l2), "addresses are equal exactly when their parts are")


# ------------------------------------------------------------------ control field

@contract("P13", "P10", c=Int(0, 255))
def control_octet(c):
    k = fr.Control(c)
    ensure(k.content == bytes([c]), "octet of the control field")
    data = bytearray([c, 1, 2])
    ensure(fr.Control.from_frame(data) == k, "parsed control field")
    ensure(data == bytes([1, 2]), "exactly one octet is consumed")


@contract("P13", c=Int(0, 255))
def control_kind(c):
    k = fr.Control(c)
    i, s, u = c % 2 == 0, c % 4 == 1, c % 4 == 3
    ensure(k.is_info() == i, "information")
    ensure(k.is_supervisory() == s, "supervisory")
    ensure(k.is_unnumbered() == u, "unnumbered")
    ensure(k.is_information() == (i or c == 0x03 or c == 0x13), "carries information")
    ensure(k.is_receive_ready() == (s and c // 4 % 4 == 0), "receive ready")
    ensure(k.is_receive_not_ready() == (s and c // 4 % 4 == 1), "receive not ready")
    ensure(k.is_reject() == (s and c // 4 % 4 == 2), "reject")
    ensure(k.is_selective_reject() == (s and c // 4 % 4 == 3), "selective reject")
    ensure(k.is_poll == (not u and c // 16 % 2 == 1), "poll/final bit")


@contract("P13", ns=Int(0, 7), nr=Int(0, 7), pf=Int(0, 1))
def control_information_sequence(ns, nr, pf):
    k = fr.Control(nr * 32 + pf * 16 + ns * 2)
    n = fr.Control.next_send_sequence(k)
    ensure(n.value == nr * 32 + pf * 16 + (ns + 1) % 8 * 2, "send sequence advances modulo 8 and nothing else changes")
    m = fr.Control.next_receiver_sequence(k)
    ensure(m.value == (nr + 1) % 8 * 32 + 16 + ns * 2, "receive sequence advances modulo 8, the poll bit is set")


@contract("P13", kind=Int(0, 3), nr=Int(0, 7), pf=Int(0, 1))
def control_supervisory_sequence(kind, nr, pf):
    k = fr.Control(nr * 32 + pf * 16 + kind * 4 + 1)
    m = fr.Control.next_receiver_sequence(k)
    ensure(m.value == (nr + 1) % 8 * 32 + 16 + kind * 4 + 1, "receive sequence advances modulo 8, the poll bit is set")


@contract("P13")
def control_names():
    """the named codes carry the numbers they are named after"""
    for pf, suffix in ((0, ""), (1, "_PF")):
        for nr in range(8):
            for ns in range(8):
                ensure(fr.Control[f"S{ns}_R{nr}{suffix}"].value == nr * 32 + pf * 16 + ns * 2, "information code")
            for k, name in enumerate(("RR", "RNR", "REJ", "SREJ")):
                ensure(fr.Control[f"{name}_R{nr}{suffix}"].value == nr * 32 + pf * 16 + k * 4 + 1, "supervisory code")


UNNUMBERED = {  # ISO/IEC 13239 5.5.3: modifier bits with the poll/final bit zero
    "UI": 0x03, "XID": 0xaf, "TEST": 0xe3, "UIH": 0xef, "SNRM": 0x83, "SARM": 0x0f, "SABM": 0x2f, "DISC": 0x43, "SNRME": 0xcf,
    "SARME": 0x4f, "SABME": 0x6f, "UP": 0x23, "SIM": 0x07, "SM": 0xc3, "RSET": 0x8f,
    "UA": 0x63, "FRMR": 0x87, "DM": 0x0f, "RD": 0x43, "RIM": 0x07,
}
POLL = ("UI_PF", "XID_PF", "TEST_PF", "UIH_PF", "SNRM_P", "SARM_P", "SABM_P", "DISC_P", "SNRME_P", "SARME_P", "SABME_P", "UP_P", "SIM_P",
        "SM_P", "RSET_P", "UA_F", "FRMR_F", "DM_F", "RD_F", "RIM_F")


@contract("P13")
def control_unnumbered_names():
    for name in UNNUMBERED:
        ensure(fr.Control[name].value == UNNUMBERED[name], "unnumbered code")
    for n in POLL:
        ensure(fr.Control[n].value == UNNUMBERED[n.split("_")[0]] + 16, "unnumbered code with poll/final bit")


# ------------------------------------------------------------------ check sequence

@folding(0, 0xffff)
def fcs_step(state, octet):
    """CRC-16/X.25, one octet, least significant bit first"""
    state ^= octet
    for _ in range(8):
        if state & 1:
            state = (state >> 1) ^ 0x8408
        else:
            state = state >> 1
    return state


def fcs(data):
    """the two octets of the check sequence in transmission order"""
    v = fold(fcs_step, 0xffff, data) ^ 0xffff
    return bytes([v & 255, v >> 8])


@contract("P14", "P10", message=Bytes(), folds=(fcs_step,))
def fcs_value(message):
    ensure(fr.CRC(message=message).content == fcs(message), "CRC-16/X.25 of the message")


@contract("P14", message=Bytes(), rest=Bytes(), folds=(fcs_step,))
def fcs_verifies(message, rest):
    data = bytearray(fcs(message) + rest)
    c = fr.CRC.from_frame(data, message=message)
    ensure(c.content == fcs(message), "verified check sequence")
    ensure(data == rest, "exactly the check sequence is consumed")


@contract("P14", "P11", message=Bytes(), data=Bytes(kind="bytearray"), folds=(fcs_step,))
def fcs_refused(message, data):
    was = bytes(data)
    r = attempt(fr.CRC.from_frame, data, message=message)
    if len(was) >= 2 and was[:2] == fcs(message):
        ensure(r.ok, "right check sequence accepted")
        ensure(data == was[2:], "exactly the check sequence is consumed")
    else:
        ensure(r.raised(ValueError), "wrong or truncated check sequence refused")
        ensure(data == was, "nothing consumed")


@contract("P14", content=Bytes())
def fcs_from_content(content):
    r = attempt(fr.CRC, content)
    if len(content) == 2:
        ensure(r.value.content == content, "octets kept")
    else:
        ensure(r.raised(ValueError), "other length refused")


@contract("P14", v=Int(0, 0xffff), x=Int(0, 255), y=Int(0, 255))
def fcs_octet_matters(v, x, y):
    """lemma: from one state, different octets lead to different states"""
    require(x != y)
    ensure(fcs_step(v, x) != fcs_step(v, y), "states differ")


@contract("P14", v=Int(0, 0xffff), w=Int(0, 0xffff), z=Int(0, 255))
def fcs_state_matters(v, w, z):
    """lemma: different states stay different after the same octet"""
    require(v != w)
    ensure(fcs_step(v, z) != fcs_step(w, z), "states differ")


@contract("P14", v=Int(0, 0xffff), w=Int(0, 0xffff), data=Bytes(), z=Int(0, 255), folds=(fcs_step,))
def fcs_state_matters_inductive(v, w, data, z):
    """lemma: different states stay different after the same octets (induction over the last octet)"""
    require(v != w)
    ensure(fold(fcs_step, v, b"") != fold(fcs_step, w, b""), "base: the states differ")
    require(fold(fcs_step, v, data) != fold(fcs_step, w, data))
    ensure(fold(fcs_step, v, data + bytes([z]), unfold=True) != fold(fcs_step, w, data + bytes([z]), unfold=True), "step: the states differ")


@contract("P14", "P11", a=Bytes(), x=Int(0, 255), y=Int(0, 255), b=Bytes(), folds=(fcs_step,))
def fcs_detects_octet_change(a, x, y, b):
    """two messages that differ in one octet have different check sequences"""
    require(x != y)
    v = fold(fcs_step, 0xffff, a)
    p, q = fcs_step(v, x), fcs_step(v, y)
    ensure(p != q, "the states after the changed octet differ")
    s, t = fold(fcs_step, p, b), fold(fcs_step, q, b)
    ensure(fold(fcs_step, 0xffff, a + bytes([x]) + b, unfold=True) == s, "state after the first message")
    ensure(fold(fcs_step, 0xffff, a + bytes([y]) + b, unfold=True) == t, "state after the second message")
    by_lemma("fcs_state_matters_inductive", s != t)
    ensure(bytes([(s ^ 0xffff) & 255, (s ^ 0xffff) >> 8]) != bytes([(t ^ 0xffff) & 255, (t ^ 0xffff) >> 8]), "check sequences differ")


# ------------------------------------------------------------------ LLC

@contract("P16", info=Bytes())
def llc_built(info):
    m = llc.LLC(message=info)
    ensure(m.content == bytes([0xe6, 0xe6, 0x00]) + info, "header in front of the information")
    ensure(m.info == info, "information")
    ensure(len(m) == len(info) + 3, "length")


@contract("P16", info=Bytes())
def llc_round_trip(info):
    m = llc.LLC(content=bytearray(llc.LLC(message=info).content))
    ensure(m.info == info, "information")
    ensure(m.content == bytes([0xe6, 0xe6, 0x00]) + info, "content")


@contract("P16", data=Bytes(kind="bytearray"))
def llc_parsed(data):
    was = bytes(data)
    n = len(was)
    r = attempt(llc.LLC, data)
    if n >= 3 and (was[0] == 0xe6 or was[0] == 0xff) and (was[1] == 0xe6 or was[1] == 0xe7) and was[2] == 0:
        ensure(r.ok, "header accepted")
        ensure(r.value.info == was[3:], "exactly the header is removed")
        ensure(r.value.content == was, "content reproduced")
    else:
        ensure(r.raised(ValueError), "other header or too little data refused")
