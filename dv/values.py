"""Symbolic octet strings, mutable octet buffers and text."""
from __future__ import annotations
import re
from . import terms as tm
from .terms import T, rng, add, sub, eq, le, lt, and_, not_, or_, select, lut
from .engine import current, Unsupported, Raised

EXPAND = 1 << 13


def _i(x):
    return type(x) is not T


class SymBytes:
    """immutable octet sequence: concatenation of explicit octets and slices of unbounded arrays"""
    __slots__ = ("segs",)

    def __init__(self, segs=()):
        out = []
        for s in segs:
            if s[0] == "c":
                if not s[1]:
                    continue
                if out and out[-1][0] == "c":
                    out[-1] = ("c", out[-1][1] + tuple(s[1]))
                else:
                    out.append(("c", tuple(s[1])))
            else:
                _, arr, off, ln = s
                if _i(ln) and ln == 0:
                    continue
                if arr == tm.ZEROS:
                    s = ("s", arr, 0, ln)
                    if out and out[-1][0] == "s" and out[-1][1] == arr:
                        out[-1] = ("s", arr, 0, add(out[-1][3], ln))
                        continue
                elif out and out[-1][0] == "s" and out[-1][1] == arr:
                    d = sub(off, add(out[-1][2], out[-1][3]))
                    if _i(d) and d == 0:
                        out[-1] = ("s", arr, out[-1][2], add(out[-1][3], ln))
                        continue
                out.append(s)
        self.segs = tuple(out)

    __hash__ = None

    def __eq__(self, other):
        raise Unsupported("native comparison of symbolic octets")

    def __repr__(self):
        r = []
        for s in self.segs:
            if s[0] == "c":
                r.append("[" + " ".join(f"{x:02x}" if _i(x) else str(x) for x in s[1]) + "]")
            else:
                r.append(f"{s[1]}[{s[2]}:+{s[3]}]")
        return "Bytes(" + " ".join(r) + ")"


def of_bytes(b):
    if isinstance(b, SymBytes):
        return b
    if isinstance(b, SymBA):
        return of_bytes(b.b)
    return SymBytes((("c", tuple(bytes(b))),))


def from_items(items):
    """octets from a list of ints / terms, concrete when possible"""
    items = tuple(items)
    if all(_i(x) for x in items):
        return bytes(items)
    return SymBytes((("c", items),))


def simp(v):
    """SymBytes -> bytes when fully known"""
    if isinstance(v, SymBytes):
        if not v.segs:
            return b""
        if len(v.segs) == 1 and v.segs[0][0] == "c" and all(_i(x) for x in v.segs[0][1]):
            return bytes(v.segs[0][1])
    return v


def length(v):
    if isinstance(v, SymBA):
        v = v.b
    if not isinstance(v, SymBytes):
        return len(v)
    n = 0
    for s in v.segs:
        n = add(n, len(s[1]) if s[0] == "c" else s[3])
    return n


def seglen(s):
    return len(s[1]) if s[0] == "c" else s[3]


def concat(*vs):
    segs = []
    for v in vs:
        segs.extend(of_bytes(v).segs)
    return simp(SymBytes(segs))


def cut(v, pos):
    """split at pos, 0 <= pos <= len(v) being known on this path"""
    v = of_bytes(v)
    p = current()
    left = []
    segs = list(v.segs)
    i = 0
    while i < len(segs):
        pos = p.norm(pos)
        if _i(pos) and pos == 0:
            break
        s = segs[i]
        n = seglen(s)
        if p.branch(le(n, pos)):
            left.append(s)
            pos = sub(pos, n)
            i += 1
            continue
        # 0 <= pos < n : split inside
        if not _i(pos) and not p.branch(tm.gt(pos, 0)):
            break
        if s[0] == "c":
            k = p.concretize(pos)
            left.append(("c", s[1][:k]))
            rest = [("c", s[1][k:])]
        else:
            left.append(("s", s[1], s[2], pos))
            rest = [("s", s[1], add(s[2], pos), sub(n, pos))]
        return simp(SymBytes(left)), simp(SymBytes(rest + segs[i + 1:]))
    return simp(SymBytes(left)), simp(SymBytes(segs[i:]))


def clamp(i, n, default):
    """normalised slice bound"""
    p = current()
    if i is None:
        return default
    if p.branch(lt(i, 0)):
        i = add(i, n)
        if p.branch(lt(i, 0)):
            return 0
        return i
    if p.branch(tm.gt(i, n)):
        return n
    return i


def slice_bounds(n, start, stop):
    a = clamp(start, n, 0)
    b = clamp(stop, n, n)
    p = current()
    if p.branch(tm.ge(a, b)):
        return a, a
    return a, b


def get_slice(v, start, stop, step=None):
    if step is not None and step != 1:
        its = items(v)
        return from_items(its[slice(start, stop, step)])
    p = current()
    n = p.norm(length(v))
    a, b = slice_bounds(n, p.norm(start), p.norm(stop))
    if a is b or (_i(a) and _i(b) and a == b):
        return b""
    if _i(b) and _i(n) and b == n or b is n:
        right = v
    else:
        right, _ = cut(v, b)
    if _i(a) and a == 0:
        return simp(of_bytes(right)) if isinstance(right, SymBytes) else right
    _, r = cut(right, a)
    return r


def at(v, i):
    """octet i, 0 <= i < len(v) known"""
    p = current()
    v = of_bytes(v)
    segs = v.segs
    for j, s in enumerate(segs):
        n = seglen(s)
        last = j == len(segs) - 1
        if last or p.branch(lt(i, n)):
            if s[0] == "c":
                if _i(i):
                    return s[1][i]
                lo, hi = p.interval(i)
                return lut(s[1], i)
            return select(s[1], add(s[2], i))
        i = sub(i, n)
    raise AssertionError


def get_index(v, i):
    p = current()
    n = length(v)
    if p.branch(lt(i, 0)):
        i = add(i, n)
        if p.branch(lt(i, 0)):
            raise Raised(IndexError("index out of range"))
    if p.branch(tm.ge(i, n)):
        raise Raised(IndexError("index out of range"))
    return at(v, i)


def items(v, limit=EXPAND):
    """explicit octets; the length must be (made) concrete"""
    if isinstance(v, SymBA):
        v = v.b
    if not isinstance(v, SymBytes):
        return list(v)
    p = current()
    out = []
    for s in v.segs:
        if s[0] == "c":
            out.extend(s[1])
        else:
            n = s[3]
            if not _i(n):
                lo, hi = p.interval(n)
                if hi is None or lo is None or hi - lo > 300:
                    r = _small(p, n)
                    if r is None:
                        raise Unsupported("octet sequence of unbounded length must be made explicit")
                n = p.concretize(n)
            if n > limit:
                raise Unsupported("octet sequence too long")
            out.extend(select(s[1], add(s[2], k)) for k in range(n))
    return out


def _small(p, n):
    return True if p.entails(le(n, 300)) else None


def bytes_eq(a, b):
    """equality as a bool / term (may fork on lengths)"""
    a, b = of_bytes(a), of_bytes(b)
    if a.segs == b.segs:
        return True
    p = current()
    la, lb = length(a), length(b)
    if not p.branch(eq(la, lb)):
        return False
    conj = []
    sa, sb = list(a.segs), list(b.segs)
    while sa and sb:
        x, y = sa[0], sb[0]
        nx, ny = seglen(x), seglen(y)
        if x[0] == "c" and y[0] == "c":
            k = min(nx, ny)
            conj += [eq(q, r) for q, r in zip(x[1][:k], y[1][:k])]
            sa = ([("c", x[1][k:])] if nx > k else []) + sa[1:]
            sb = ([("c", y[1][k:])] if ny > k else []) + sb[1:]
            continue
        # length of the common prefix piece
        if p.branch(le(nx, ny)):
            k, rest = nx, sub(ny, nx)
            if _i(rest) and rest == 0 or not p.branch(tm.gt(rest, 0)):
                restseg = None
            else:
                restseg = "y"
        else:
            k, rest, restseg = ny, sub(nx, ny), "x"
        px, rx = _take(x, k)
        py, ry = _take(y, k)
        sa = ([rx] if restseg == "x" else []) + sa[1:]
        sb = ([ry] if restseg == "y" else []) + sb[1:]
        conj.append(_piece_eq(px, py, k))
        if any(c is False for c in conj):
            return False
    for s in sa + sb:       # remaining pieces have length 0 (total lengths are equal)
        pass
    return and_(*conj)


def _take(s, k):
    if s[0] == "c":
        k = current().concretize(k)
        return ("c", s[1][:k]), ("c", s[1][k:])
    return ("s", s[1], s[2], k), ("s", s[1], add(s[2], k), sub(s[3], k))


BEQ = tm.RANGE_EQ


def _piece_eq(x, y, k):
    p = current()
    if x[0] == "s" and y[0] == "s":
        if x[1] == y[1]:
            d = eq(x[2], y[2])
            if d is True or p.entails(d):
                return True
        if not _i(k):
            lo, hi = p.interval(k)
            if hi is not None and hi <= 16:
                k = p.concretize(k)
        if not _i(k) or k > 64:
            if (y[1], _id(y[2])) < (x[1], _id(x[2])):
                x, y = y, x
            name = f"beq!{x[1]}!{_id(x[2])}!{y[1]}!{_id(y[2])}!{_id(k)}"
            BEQ[name] = (x[1], x[2], y[1], y[2], k)
            return tm.bvar(name)
        return and_(*[eq(select(x[1], add(x[2], j)), select(y[1], add(y[2], j))) for j in range(k)])
    if x[0] == "c":
        x, y = y, x
    # x slice, y explicit (or both explicit)
    ys = y[1]
    if x[0] == "c":
        return and_(*[eq(q, r) for q, r in zip(x[1], ys)])
    return and_(*[eq(select(x[1], add(x[2], j)), q) for j, q in enumerate(ys)])


def _id(x):
    return x.id if type(x) is T else f"c{x}"


def goal_form(c):
    """replace positive octet-range equalities of a goal by their value at an arbitrary index, with the
    octet-range equalities already assumed instantiated at the same octets"""
    if type(c) is not T:
        return c
    p = current()
    if p.quick(c) is True:
        return True
    if c.op == "bvar" and c.args[0] in BEQ:
        a1, o1, a2, o2, k = BEQ[c.args[0]]
        i = p.int_var("k!", 0, None)
        hyp = [lt(i, k)]
        seen = set()
        work = [(a1, add(o1, i)), (a2, add(o2, i))]
        while work and len(seen) < 12:
            arr, at = work.pop()
            for h in p.asms:
                if h.op != "bvar" or h.args[0] not in BEQ:
                    continue
                b1, q1, b2, q2, m = BEQ[h.args[0]]
                for (u, uo), (v, vo) in (((b1, q1), (b2, q2)), ((b2, q2), (b1, q1))):
                    key = (h, u, arr, at)
                    if u != arr or key in seen:
                        continue
                    seen.add(key)
                    j = sub(at, uo)
                    hyp.append(tm.implies(and_(le(0, j), lt(j, m)), eq(select(u, at), select(v, add(vo, j)))))
                    work.append((v, add(vo, j)))
        return tm.implies(and_(*hyp), eq(select(a1, add(o1, i)), select(a2, add(o2, i))))
    if c.op == "and":
        return and_(*[goal_form(q) for q in c.args])
    return c


def from_bytes(v, byteorder, signed):
    """int.from_bytes"""
    v0 = v
    if isinstance(v, SymBA):
        v = v.b
    p = current()
    n = length(v)
    if not _i(n):
        lo, hi = p.interval(n)
        if (hi is None or hi > 16) and not p.entails(le(n, 16)):
            if byteorder == "big" and not signed and isinstance(v, SymBytes) and len(v.segs) == 1:
                s = v.segs[0]
                if s[1] == tm.ZEROS:
                    return 0
                t = tm.beint(s[1], s[2], s[3])
                p.cells.setdefault("beint", []).append((s[1], s[2], s[3], t))
                return t
            raise Unsupported("int.from_bytes of an unbounded octet string")
    its = items(v)
    if byteorder == "little":
        its = its[::-1]
    acc = 0
    for b in its:
        acc = add(tm.scale(acc, 256) if type(acc) is T else acc * 256, b)
    if byteorder == "big":
        for arr, off, k, t in p.cells.get("beint", ()):
            # the same octets were read while their number was not yet known to be small: that value is this one
            if p.entails(and_(eq(k, len(its)), *[eq(x, select(arr, add(off, i))) for i, x in enumerate(its)])):
                p.assume(eq(t, acc))
    if signed and its:
        k = len(its)
        if type(acc) is not T:
            return acc - (1 << 8 * k) if acc >> (8 * k - 1) else acc
        top = its[0]
        # value - 2**(8k) * signbit
        return sub(acc, tm.scale(tm.div(top, 128), 1 << 8 * k) if type(tm.div(top, 128)) is T else tm.div(top, 128) << 8 * k)
    return acc


def to_bytes(x, n, byteorder, signed):
    """int.to_bytes"""
    p = current()
    n = p.concretize(n)
    if n < 0:
        raise Raised(ValueError("length argument must be non-negative"))
    if signed:
        lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if n else (0, 0)
    else:
        lo, hi = 0, (1 << 8 * n) - 1
    if not signed and p.branch(lt(x, 0)):
        raise Raised(OverflowError("can't convert negative int to unsigned"))
    if not p.branch(and_(le(lo, x), le(x, hi))):
        raise Raised(OverflowError("int too big to convert"))
    return from_items(split_octets(x, n, byteorder))


def split_octets(x, n, byteorder):
    """the n low octets of x (two's complement), lo <= x <= hi known on the path"""
    if type(x) is not T:
        return list((x % (1 << 8 * n)).to_bytes(n, byteorder))
    its = [tm.mod(tm.div(x, 1 << 8 * (n - 1 - j)), 256) for j in range(n)]
    # tighten: when 0 <= x < 256 on the path the single octet is x itself
    p = current()
    l, h = p.interval(x)
    if n >= 1 and l is not None and h is not None and l >= 0:
        k = 0
        while k < n and h < (1 << 8 * (n - 1 - k)):
            its[k] = 0
            k += 1
        if k < n:
            its[k] = tm.div(x, 1 << 8 * (n - 1 - k))
    return its if byteorder == "big" else its[::-1]


class SymBA:
    """bytearray with symbolic contents"""
    __slots__ = ("b",)

    def __init__(self, b=b""):
        self.b = b if isinstance(b, SymBytes) else bytes(b)

    def __repr__(self):
        return f"SymBA({self.b!r})"


class SymMV:
    """memoryview window on a buffer"""
    __slots__ = ("base", "off", "n", "ro")

    def __init__(self, base, off, n, ro):
        self.base, self.off, self.n, self.ro = base, off, n, ro

    def get(self):
        b = self.base.b if isinstance(self.base, SymBA) else self.base
        return get_slice(b, self.off, add(self.off, self.n))


# ---------------------------------------------------------------- text

class SymStr:
    """text: list of parts: str | ('tok', name, value, characters it does not contain) | ('ch', term) | ('dec', term) | ('hex2', term) | ('opaque', note)"""
    __slots__ = ("parts",)

    def __init__(self, parts=()):
        out = []
        for q in parts:
            if isinstance(q, SymStr):
                qs = q.parts
            else:
                qs = (q,)
            for r in qs:
                if isinstance(r, str):
                    if not r:
                        continue
                    if out and isinstance(out[-1], str):
                        out[-1] += r
                        continue
                out.append(r)
        self.parts = tuple(out)

    __hash__ = None

    def __eq__(self, o):
        raise Unsupported("native comparison of symbolic text")

    def __repr__(self):
        return "Str(" + "".join(q if isinstance(q, str) else f"<{q[0]} {q[1]}>" for q in self.parts) + ")"

    def __str__(self):
        return repr(self)

    def chars(self):
        """list of one-character strs / code point terms (forks on the number of digits)"""
        out = []
        for q in self.parts:
            if isinstance(q, str):
                out.extend(q)
            elif q[0] == "ch":
                out.append(q[1])
            elif q[0] == "dec":
                out.extend(dec_chars(q[1]))
            elif q[0] == "hex2":
                out.extend(hex_chars(q[1]))
            elif q[0] == "hexb":
                for i, x in enumerate(items(q[1])):
                    out.extend((q[2] if i else "") and list(q[2]))
                    out.extend(hex_chars(x) if type(x) is T else list(f"{x:02x}"))
            elif q[0] == "enc":
                p = current()
                b = part_bytes(q)
                n = length(b)
                if p.entails(le(n, 64), timeout=3000) and text_valid("ascii", b) is True:
                    out.extend(chr(x) if _i(x) else x for x in items(b))
                    continue
                raise Unsupported("the characters of a text of unknown length")
            elif q[0] == "tok":
                raise Unsupported(f"the characters of a text known by its contract only: {q[1]}")
            else:
                raise Unsupported(f"text not modelled: {q[1]}")
        return out


def text_valid(codec, b):
    """the octets are the encoding of a text: uninterpreted, except that no octets are the empty text and ASCII is UTF-8"""
    p = current()
    b = simp(of_bytes(b))
    if isinstance(b, bytes):
        try:
            b.decode(codec)
            return True
        except UnicodeDecodeError:
            return False
    if all(_ascii(s) for s in b.segs):
        return True
    key = ("valid", codec, b.segs)
    if key not in p.cells:
        v = tm.bvar(p.fresh(f"valid.{codec}"))
        p.cells[key] = tm.or_(eq(length(b), 0), v)
        if codec == "ascii":
            p.assume(tm.or_(tm.not_(p.cells[key]), text_valid("utf-8", b)))
    return p.cells[key]


def _ascii(s):
    if s[0] == "c":
        return all(rng(x)[1] is not None and rng(x)[1] < 128 for x in s[1])
    if s[1] in tm.LAMS:
        return rng(tm.LAMS[s[1]][1])[1] < 128
    return s[1] == tm.ZEROS


def enc_text(codec, b):
    return SymStr([("enc", codec, of_bytes(b).segs)])


def part_bytes(q):
    return simp(SymBytes(q[2]))


def enc_parts(s, codec):
    """encoding of a text in which texts of unknown length occur; None if it cannot be told"""
    out = b""
    for q in s.parts if isinstance(s, SymStr) else [s]:
        if isinstance(q, str):
            e = q.encode(codec)
        elif q[0] == "enc" and q[1] == codec or q[0] == "enc" and q[1] == "ascii" and codec in ("utf-8", "cp1251", "windows-1251", "latin-1"):
            e = part_bytes(q)
        else:
            return None
        out = concat(out, e)
    return out


def mkstr(chars):
    """list of 1-char strs / terms / ints -> str or SymStr"""
    parts = []
    for c in chars:
        if isinstance(c, str):
            parts.append(c)
        elif type(c) is T:
            parts.append(("ch", c))
        else:
            parts.append(chr(c))
    s = SymStr(parts)
    if not s.parts:
        return ""
    if len(s.parts) == 1 and isinstance(s.parts[0], str):
        return s.parts[0]
    return s


def simps(s):
    if isinstance(s, SymStr):
        if not s.parts:
            return ""
        if len(s.parts) == 1 and isinstance(s.parts[0], str):
            return s.parts[0]
    return s


def dec_chars(x):
    """decimal digits of an integer"""
    p = current()
    if type(x) is not T:
        return list(str(x))
    key = ("dec", x)
    if key in p.cells:
        return list(p.cells[key])
    out = []
    y = x
    if p.branch(lt(x, 0)):
        out.append("-")
        y = tm.neg(x)
    k = 1
    while True:
        if p.branch(lt(y, 10 ** k)):
            break
        k += 1
        if k > 80:
            raise Unsupported("decimal text of an unbounded integer")
    if k == 1:
        ds = [y]
    else:
        ds = [p.int_var("dig", 1 if j == 0 else 0, 9) for j in range(k)]
        acc = 0
        for d in ds:
            acc = add(tm.scale(acc, 10) if type(acc) is T else acc * 10, d)
        p.assume(eq(y, acc))
        p.cells[("undec", tuple(ds))] = y
    out += [add(48, d) for d in ds]
    p.cells[key] = tuple(out)
    return out


HEXD = tuple(ord(c) for c in "0123456789abcdef")


def hex_chars(x):
    return [lut(HEXD, tm.div(x, 16)), lut(HEXD, tm.mod(x, 16))]


def chars_of(s):
    return s.chars() if isinstance(s, SymStr) else list(s)


def code(c):
    return ord(c) if isinstance(c, str) else c


def skeleton(s):
    """literals between decimal parts, when the decimal parts are uniquely delimited; else None"""
    parts = list(s.parts) if isinstance(s, SymStr) else [s]
    lits, decs, cur = [], [], ""
    prev_dec = False
    for q in parts:
        if isinstance(q, str):
            if prev_dec and q[0] in "0123456789":
                return None
            cur += q
            prev_dec = False
        elif q[0] == "dec":
            if prev_dec or (cur and cur[-1] in "-0123456789"):
                return None
            lits.append(cur)
            decs.append(q[1])
            cur = ""
            prev_dec = True
        else:
            return None
    lits.append(cur)
    return lits, decs


def dec_eq(a, b):
    """equality of texts made of literals and delimited decimal numbers; None: not of that shape"""
    if isinstance(a, str):
        a, b = b, a
    x = skeleton(a)
    if x is None or not x[1]:
        return None
    lits, decs = x
    if isinstance(b, str):
        if not b.isascii():
            return None
        m = re.fullmatch("(-?[0-9]+)".join(map(re.escape, lits)), b)
        if not m:
            return False
        out = []
        for g, d in zip(m.groups(), decs):
            if str(int(g)) != g:
                return False
            out.append(eq(d, int(g)))
        return and_(*out)
    y = skeleton(b)
    if y is None or y[0] != lits:
        return None
    return and_(*[eq(p, q) for p, q in zip(decs, y[1])])


def str_eq(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, SymStr) and isinstance(b, SymStr) and a.parts == b.parts:
        return True
    r = dec_eq(a, b)
    if r is not None:
        return r
    if any(isinstance(x, SymStr) and any(type(q) is tuple and q[0] == "enc" for q in x.parts) for x in (a, b)):
        ea, eb = enc_parts(a, "utf-8"), enc_parts(b, "utf-8")
        if ea is not None and eb is not None:
            return bytes_eq(ea, eb)
    ca, cb = chars_of(a), chars_of(b)
    if len(ca) != len(cb):
        return False
    return and_(*[eq(code(x), code(y)) for x, y in zip(ca, cb)])
