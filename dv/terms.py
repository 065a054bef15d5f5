"""Term language of the verifier: mathematical integers and booleans.

Constructors simplify on the fly and return plain Python ints / bools when the
result is known.  Every integer term carries an interval [lo, hi] (None = unbounded)
that holds for every valuation of its variables.
"""
from __future__ import annotations
from math import gcd

_table: dict = {}
_next = [0]


class T:
    __slots__ = ("op", "args", "sort", "lo", "hi", "id", "vars_", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other

    def __bool__(self):
        from . import engine
        return engine.current().branch(self)

    def __index__(self):
        raise TypeError("symbolic integer used natively")

    def __reduce__(self):
        raise TypeError("terms are not picklable")


def mk(op, args, sort="I", lo=None, hi=None):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        if sort == "I" and lo is not None and lo == hi and op not in ("var",):
            return lo
        t = T()
        t.op, t.args, t.sort, t.lo, t.hi = op, args, sort, lo, hi
        t.id = _next[0]
        t.vars_ = None
        _next[0] += 1
        _table[key] = t
    return t


def is_t(x):
    return type(x) is T


def var(name, lo=None, hi=None):
    return mk("var", (name, lo, hi), "I", lo, hi)


def bvar(name):
    return mk("bvar", (name,), "B")


def rng(x):
    if type(x) is T:
        return x.lo, x.hi
    return x, x


# ---------------------------------------------------------------- linear forms
# op 'lin': args = (const, ((atom, coef), ...)) atoms sorted by id

def _parts(x):
    if type(x) is not T:
        return int(x), ()
    if x.op == "lin":
        return x.args
    return 0, ((x, 1),)


def _mul_iv(lo, hi, c):
    if c >= 0:
        return (None if lo is None else lo * c), (None if hi is None else hi * c)
    return (None if hi is None else hi * c), (None if lo is None else lo * c)


def lin(const, items):
    items = tuple(sorted(((a, c) for a, c in items if c), key=lambda p: p[0].id))
    if not items:
        return const
    if const == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    lo = hi = const
    for a, c in items:
        l, h = _mul_iv(a.lo, a.hi, c)
        lo = None if lo is None or l is None else lo + l
        hi = None if hi is None or h is None else hi + h
    return mk("lin", (const, items), "I", lo, hi)


def add(a, b):
    if type(a) is not T and type(b) is not T:
        return int(a) + int(b)
    ca, ia = _parts(a)
    cb, ib = _parts(b)
    d = dict(ia)
    for t, c in ib:
        d[t] = d.get(t, 0) + c
    return recompose(lin(ca + cb, d.items()))


def scale(a, k):
    if type(a) is not T:
        return int(a) * k
    if k == 0:
        return 0
    c, it = _parts(a)
    return lin(c * k, [(t, q * k) for t, q in it])


def recompose(t):
    """c*(x div m) * m + (x mod m) -> x   (pattern: coef of mod k, coef of div k*m)"""
    if type(t) is not T or t.op != "lin":
        return t
    const, items = t.args
    if len(items) < 2:
        return t
    d = dict(items)
    for a, c in items:
        if a.op == "mod":
            x, m = a.args
            dv = div(x, m)
            if type(dv) is T:
                # dv may be a linear form itself
                cc, ii = _parts(dv)
                if all(d.get(q) == w * c * m for q, w in ii) and ii:
                    nd = dict(d)
                    del nd[a]
                    for q, w in ii:
                        nd.pop(q, None)
                    return add(lin(const - cc * c * m, nd.items()), scale(x, c))
    return t


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if type(a) is not T:
        return scale(b, int(a))
    if type(b) is not T:
        return scale(a, int(b))
    if a.id > b.id:
        a, b = b, a
    lo = hi = None
    if None not in (a.lo, a.hi, b.lo, b.hi):
        cs = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
        lo, hi = min(cs), max(cs)
    elif a.lo is not None and a.lo >= 0 and b.lo is not None and b.lo >= 0:
        lo = a.lo * b.lo
    return mk("mul", (a, b), "I", lo, hi)


def _split(x, m):
    """x = m*q + r : returns (q, r) with r carrying the non-divisible part"""
    c, it = _parts(x)
    q = [(t, k // m) for t, k in it if k % m == 0]
    r = [(t, k) for t, k in it if k % m != 0]
    return lin(c // m, q), lin(c % m, r)


def div(x, m):
    """floor division"""
    if type(m) is T:
        if type(x) is not T and x == 0:
            return 0
        lo = hi = None
        if m.lo is not None and m.lo > 0:
            l, h = rng(x)
            if l is not None and l >= 0:
                lo = 0
                hi = None if h is None else h // m.lo
        return mk("divs", (x, m), "I", lo, hi)
    if type(x) is not T:
        return x // m
    if m == 1:
        return x
    if m < 0:
        return div(neg(x), -m)
    q, r = _split(x, m)
    if type(r) is not T:
        return q            # 0 <= r < m
    if r.lo is not None and r.hi is not None and r.lo // m == r.hi // m:
        return add(q, r.lo // m)
    if r is not x and not (type(q) is not T and q == 0):
        return add(q, div(r, m))
    if r.op == "div":       # (x div a) div b -> x div (a*b)
        return div(r.args[0], r.args[1] * m)
    # common factor: (g*y + c) div (g*k), 0 <= c%g
    c, it = _parts(r)
    g = m
    for _, k in it:
        g = gcd(g, k)
    if g > 1:
        return div(lin(c // g, [(t, k // g) for t, k in it]), m // g)
    if r.op == "mod" and r.args[1] % m == 0:   # (x mod km) div m -> (x div m) mod k
        return mod(div(r.args[0], m), r.args[1] // m)
    lo = None if r.lo is None else r.lo // m
    hi = None if r.hi is None else r.hi // m
    return mk("div", (r, m), "I", lo, hi)


def mod(x, m):
    if type(m) is T:
        lo = hi = None
        if m.lo is not None and m.lo > 0:
            lo, hi = 0, (None if m.hi is None else m.hi - 1)
        return mk("mods", (x, m), "I", lo, hi)
    if type(x) is not T:
        return x % m
    if m < 0:
        return neg(mod(neg(x), -m))
    if m == 1:
        return 0
    q, r = _split(x, m)
    if type(r) is not T:
        return r
    # reduce coefficients into (-m, m) keeping them as they are when that helps
    c, it = _parts(r)
    if r.lo is not None and r.hi is not None and r.lo // m == r.hi // m:
        return add(r, -(r.lo // m) * m)
    red = lin(c, [(t, k % m if k % m <= m // 2 else k % m - m) for t, k in it])
    if red is not r and type(red) is T:
        if red.lo is not None and red.hi is not None and red.lo // m == red.hi // m:
            return add(red, -(red.lo // m) * m)
        r = red
        c, it = _parts(r)
    if r.op == "mod" and r.args[1] % m == 0:
        return mod(r.args[0], m)
    # nested mods inside a linear form: a mod (k*m) can be replaced by a
    if r.op == "lin":
        ch = False
        acc = c
        for t, k in it:
            if t.op == "mod" and (t.args[1] * k) % m == 0:
                acc = add(acc, scale(t.args[0], k))
                ch = True
            else:
                acc = add(acc, scale(t, k))
        if ch:
            return mod(acc, m)
        g = m
        for _, k in it:
            g = gcd(g, k)
        if g > 1:
            inner = lin(c // g, [(t, k // g) for t, k in it])
            return add(scale(mod(inner, m // g), g), c % g)
    # (x div a) mod b stays; hi bound
    hi = m - 1
    lo = 0
    if r.lo is not None and r.lo >= 0 and r.hi is not None:
        hi = min(hi, r.hi)
    return mk("mod", (r, m), "I", lo, hi)


def _runs(mask):
    """contiguous one-runs of a non-negative mask: list of (start, length)"""
    out, i = [], 0
    while mask >> i:
        if mask >> i & 1:
            j = i
            while mask >> j & 1:
                j += 1
            out.append((i, j - i))
            i = j
        else:
            i += 1
    return out


def tz(x):
    """x is certainly a multiple of 2**tz(x)"""
    if type(x) is not T:
        return 10 ** 6 if x == 0 else (x & -x).bit_length() - 1
    if x.op == "lin":
        c, it = x.args
        r = tz(c)
        for t, k in it:
            r = min(r, tz(k) + tz(t))
        return r
    if x.op in ("bor", "bxor"):
        return min(tz(x.args[0]), tz(x.args[1]))
    if x.op == "band":
        return max(tz(x.args[0]), tz(x.args[1]))
    if x.op == "ite":
        return min(tz(x.args[1]), tz(x.args[2]))
    return 0


def _width(x):
    """x in [0, 2**w) -> w, else None"""
    lo, hi = rng(x)
    if lo is None or hi is None or lo < 0:
        return None
    return max(hi.bit_length(), 0)


def band(a, b):
    if type(a) is not T and type(b) is not T:
        return a & b
    if type(a) is not T:
        a, b = b, a
    if type(b) is not T:
        if b == 0:
            return 0
        if b == -1:
            return a
        if b < 0:
            # a & ~m  = a - (a & m)
            return sub(a, band(a, ~b))
        w = _width(a)
        mask = b if w is None else b & ((1 << w) - 1)
        if mask == 0:
            return 0
        acc = 0
        for s, n in _runs(mask):
            acc = add(acc, scale(mod(div(a, 1 << s), 1 << n), 1 << s))
        return acc
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    wa, wb = _width(a), _width(b)
    if (wb is not None and tz(a) >= wb) or (wa is not None and tz(b) >= wa):
        return 0
    lo = hi = None
    if wa is not None or wb is not None:
        lo = 0
        hi = min(x.hi for x, w in ((a, wa), (b, wb)) if w is not None)
    return mk("band", (a, b), "I", lo, hi)


def bor(a, b):
    if type(a) is not T and type(b) is not T:
        return a | b
    if type(a) is not T:
        a, b = b, a
    wa, wb = _width(a), _width(b)
    if type(b) is not T:
        if b == 0:
            return a
        if b == -1:
            return -1
        if b < 0:
            return add(b, band(a, ~b))
        both = band(a, b)
        if type(both) is not T:
            return add(a, b - both)
    elif (wb is not None and tz(a) >= wb) or (wa is not None and tz(b) >= wa):
        return add(a, b)
    if a is b:
        return a
    if type(b) is T and a.id > b.id:
        a, b = b, a
    lo = hi = None
    if wa is not None and wb is not None:
        lo = max(rng(a)[0], rng(b)[0])
        hi = (1 << max(wa, wb)) - 1
    return mk("bor", (a, b), "I", lo, hi)


def bxor(a, b):
    if type(a) is not T and type(b) is not T:
        return a ^ b
    if type(a) is not T:
        a, b = b, a
    if a is b:
        return 0
    wa, wb = _width(a), _width(b)
    if type(b) is not T:
        if b == 0:
            return a
        if b == -1:
            return sub(-1, a)
        if b > 0:
            both = band(a, b)
            if type(both) is not T:
                return add(a, b - 2 * both)
            w = _width(a)
            if w is not None and b == (1 << w) - 1:
                return sub(b, a)
        if a.op == "bxor" and type(a.args[1]) is not T:
            return bxor(a.args[0], a.args[1] ^ b)
    elif (wb is not None and tz(a) >= wb) or (wa is not None and tz(b) >= wa):
        return add(a, b)
    if type(b) is T and a.id > b.id:
        a, b = b, a
    lo = hi = None
    if wa is not None and wb is not None:
        lo, hi = 0, (1 << max(wa, wb)) - 1
    return mk("bxor", (a, b), "I", lo, hi)


def shl(a, k):
    if type(k) is T:
        return mul(a, pow2(k))
    if k < 0:
        raise ValueError("negative shift count")
    return scale(a, 1 << k) if type(a) is T else a << k


def shr(a, k):
    if type(k) is T:
        return div(a, pow2(k))
    if k < 0:
        raise ValueError("negative shift count")
    return div(a, 1 << k)


def parts_of(x):
    """(constant, summands with coefficients)"""
    return _parts(x) if type(x) is T else (x, ())


def pow2(k):
    """2**k for a bounded symbolic k: lookup table"""
    lo, hi = rng(k)
    if lo is None or hi is None or lo < 0 or hi > 4096:
        raise OverflowError("unbounded symbolic shift")
    return lut(tuple(1 << i for i in range(hi + 1)), k)


def lut(table, idx):
    """table[idx], 0 <= idx < len(table) known"""
    if type(idx) is not T:
        return table[idx]
    lo, hi = idx.lo, idx.hi
    vals = [v for v in table[lo if lo is not None else 0: None if hi is None else hi + 1]]
    if not vals:
        vals = list(table)
    if all(type(v) is int for v in vals) and all(v == i for i, v in enumerate(table)):
        return idx
    lo_ = hi_ = None
    lows = [rng(v)[0] for v in vals]
    his = [rng(v)[1] for v in vals]
    if None not in lows:
        lo_ = min(lows)
    if None not in his:
        hi_ = max(his)
    return mk("lut", (tuple(table), idx), "I", lo_, hi_)


ZEROS = "!zeros"        # the array of zero octets


def select(arr, idx):
    """octet idx of the named unbounded octet array"""
    if arr == ZEROS:
        return 0
    if arr in LAMS:
        v, t = LAMS[arr]
        return subst(t, v, idx)
    return mk("sel", (arr, idx), "I", 0, 255)


def uf(name, args, lo=None, hi=None):
    return mk("uf", (name, tuple(args), lo, hi), "I", lo, hi)


def ite(c, a, b):
    if type(c) is not T:
        return a if c else b
    if a is b or (type(a) is not T and type(b) is not T and a == b):
        return a
    k = _parts(a)[0]
    if k and k == _parts(b)[0]:         # a common constant
        return add(k, ite(c, sub(a, k), sub(b, k)))
    la, ha = rng(a)
    lb, hb = rng(b)
    lo = None if la is None or lb is None else min(la, lb)
    hi = None if ha is None or hb is None else max(ha, hb)
    return mk("ite", (c, a, b), "I", lo, hi)


def b2i(c):
    """int(bool)"""
    if type(c) is not T:
        return int(c)
    return ite(c, 1, 0)


# ---------------------------------------------------------------- booleans

def _norm_sign(x):
    c, it = _parts(x)
    if it and it[0][1] < 0:
        return neg(x)
    return x


def eq(a, b):
    d = sub(a, b)
    if type(d) is not T:
        return d == 0
    if (d.lo is not None and d.lo > 0) or (d.hi is not None and d.hi < 0):
        return False
    c, it = _parts(d)
    g = 0
    for _, k in it:
        g = gcd(g, k)
    if g > 1:
        if c % g:
            return False
        d = lin(c // g, [(t, k // g) for t, k in it])
    d = _norm_sign(d)
    # ite with constant arms compared with a constant
    c, it = _parts(d)
    if len(it) == 1 and it[0][0].op == "ite":
        t, k = it[0]
        cc, x, y = t.args
        ex = eq(add(scale(x, k), c), 0)
        ey = eq(add(scale(y, k), c), 0)
        if type(ex) is not T or type(ey) is not T:
            return or_(and_(cc, ex), and_(not_(cc), ey))
    return mk("eq0", (d,), "B")


def le(a, b):
    d = sub(a, b)          # d <= 0
    return _le0(d)


def _le0(d):
    if type(d) is not T:
        return d <= 0
    if d.hi is not None and d.hi <= 0:
        return True
    if d.lo is not None and d.lo > 0:
        return False
    c, it = _parts(d)
    g = 0
    for _, k in it:
        g = gcd(g, k)
    if g > 1:              # g*y + c <= 0  <=>  y + ceil(c/g) <= 0
        d = lin(-((-c) // g), [(t, k // g) for t, k in it])
        if type(d) is not T:
            return d <= 0
        c, it = _parts(d)
    if len(it) == 1 and it[0][0].op == "ite":
        t, k = it[0]
        cc, x, y = t.args
        ex = _le0(add(scale(x, k), c))
        ey = _le0(add(scale(y, k), c))
        if type(ex) is not T or type(ey) is not T:
            return or_(and_(cc, ex), and_(not_(cc), ey))
    return mk("le0", (d,), "B")


def lt(a, b):
    return le(add(a, 1), b)


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def ne(a, b):
    return not_(eq(a, b))


def not_(c):
    if type(c) is not T:
        return not c
    if c.op == "not":
        return c.args[0]
    if c.op == "le0":      # d > 0  <=> 1 - d <= 0
        return _le0(add(neg(c.args[0]), 1))
    return mk("not", (c,), "B")


def and_(*cs):
    out = []
    for c in cs:
        if type(c) is not T:
            if not c:
                return False
            continue
        if c.op == "and":
            for q in c.args:
                if q not in out:
                    out.append(q)
        elif c not in out:
            out.append(c)
    if not out:
        return True
    s = set(out)
    for c in out:
        n = not_(c)
        if n in s:
            return False
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(sorted(out, key=lambda t: t.id)), "B")


def or_(*cs):
    return not_(and_(*[not_(c) for c in cs]))


def iff(a, b):
    if type(a) is not T:
        return b if a else not_(b)
    if type(b) is not T:
        return a if b else not_(a)
    if a is b:
        return True
    return or_(and_(a, b), and_(not_(a), not_(b)))


def implies(a, b):
    return or_(not_(a), b)


# ---------------------------------------------------------------- arrays given by a term

LAMS: dict = {}         # name -> (index variable, octet as a function of it)


def lam(v, t):
    """name of the array whose octet i is t with v replaced by i"""
    if type(t) is T and t.op == "sel" and t.args[1] is v:
        return t.args[0]
    if type(t) is not T and t == 0:
        return ZEROS
    name = f"lam!{v.id}!{t.id if type(t) is T else 'c%d' % t}"
    LAMS[name] = (v, t)
    return name


def subst_arr(arr, v, by):
    if arr not in LAMS:
        return arr
    w, t = LAMS[arr]
    return arr if w is v else lam(w, subst(t, v, by))


_smemo: dict = {}


def rebuild(t, f):
    """the term with f applied to each direct part, simplified again"""
    op, a = t.op, t.args
    if op == "lin":
        r = a[0]
        for x, k in a[1]:
            y = f(x)
            r = add(r, scale(y, k) if type(y) is T else y * k)
    elif op == "mul":
        r = mul(f(a[0]), f(a[1]))
    elif op in ("div", "divs"):
        r = div(f(a[0]), f(a[1]))
    elif op in ("mod", "mods"):
        r = mod(f(a[0]), f(a[1]))
    elif op == "band":
        r = band(f(a[0]), f(a[1]))
    elif op == "bor":
        r = bor(f(a[0]), f(a[1]))
    elif op == "bxor":
        r = bxor(f(a[0]), f(a[1]))
    elif op == "ite":
        c = f(a[0])
        r = ite(c, f(a[1]), f(a[2])) if type(c) is T else f(a[1]) if c else f(a[2])
    elif op == "lut":
        i = f(a[1])
        if type(i) is T:
            r = lut(tuple(f(x) for x in a[0]), i)
        else:                               # an index outside belongs to a case that cannot occur
            r = f(a[0][i]) if 0 <= i < len(a[0]) else 0
    elif op == "uf":
        r = mk("uf", (a[0], tuple(f(x) for x in a[1]), a[2], a[3]), "I", a[2], a[3])
    elif op == "sel":
        r = select(a[0], f(a[1]))
    elif op == "eq0":
        r = eq(f(a[0]), 0)
    elif op == "le0":
        r = le(f(a[0]), 0)
    elif op == "not":
        r = not_(f(a[0]))
    elif op == "and":
        r = []
        for x in a:
            x = f(x)
            if type(x) is not T and not x:
                r = False
                break
            r.append(x)
        r = r and and_(*r)
    else:
        from .engine import Unsupported
        raise Unsupported(f"{op} in a family")
    return r


def subst(t, v, by):
    """t with the variable v replaced"""
    if type(t) is not T or v.args[0] not in leaves(t):
        return t
    if t is v:
        return by
    key = (t, v, by)
    r = _smemo.get(key)
    if r is not None:
        return r
    r = rebuild(t, lambda x: subst(x, v, by))
    _smemo[key] = r
    return r


# ---------------------------------------------------------------- traversal

def leaves(t):
    """frozenset of variable/array/uf names under t (cone-of-influence key)"""
    if type(t) is not T:
        return frozenset()
    if t.vars_ is not None:
        return t.vars_
    op = t.op
    if op == "var" or op == "bvar":
        r = frozenset((t.args[0],))
    elif op == "lin":
        r = frozenset().union(*[leaves(a) for a, _ in t.args[1]])
    elif op == "sel":
        r = leaves(t.args[1]) | {("arr", t.args[0])}
    elif op == "uf":
        r = frozenset({("uf", t.args[0])}).union(*[leaves(a) for a in t.args[1]])
    elif op == "lut":
        r = frozenset().union(leaves(t.args[1]), *[leaves(a) for a in t.args[0]])
    elif op == "beint":
        r = leaves(t.args[1]) | leaves(t.args[2]) | {("arr", t.args[0])}
    else:
        r = frozenset().union(*[leaves(a) for a in t.args])
    t.vars_ = r
    return r


def beint(arr, off, ln):
    """big-endian value of arr[off:off+ln] with symbolic ln (uninterpreted)"""
    return mk("beint", (arr, off, ln), "I", 0, None)


def show(t, depth=0):
    if type(t) is not T:
        return repr(t)
    if depth > 12:
        return "..."
    op, a = t.op, t.args
    s = lambda x: show(x, depth + 1)
    if op in ("var", "bvar"):
        return a[0]
    if op == "lin":
        c, it = a
        parts = [(s(x) if k == 1 else f"{k}*{s(x)}") for x, k in it]
        if c:
            parts.append(str(c))
        return "(" + " + ".join(parts) + ")"
    if op == "sel":
        return f"{a[0]}[{s(a[1])}]"
    if op == "eq0":
        return f"{s(a[0])} == 0"
    if op == "le0":
        return f"{s(a[0])} <= 0"
    if op == "uf":
        return f"{a[0]}({', '.join(map(s, a[1]))})"
    if op == "lut":
        return f"lut#{len(a[0])}[{s(a[1])}]"
    return f"{op}({', '.join(s(x) if type(x) is T else str(x) for x in a)})"


NATIVE_UF: dict = {}     # functions kept uninterpreted by the solvers: name -> native meaning
RANGE_EQ: dict = {}      # octet-range equality atoms: name -> (array, offset, array, offset, count)


def evaluate(t, env, arrays=None, ufs=None):
    """value of t under a valuation (env: name -> int/bool, arrays: name -> callable)"""
    if type(t) is not T:
        return t
    ev = lambda x: evaluate(x, env, arrays, ufs)
    op, a = t.op, t.args
    if op == "var":
        v = env.get(a[0])
        if v is None:
            v = t.lo if t.lo is not None else (min(0, t.hi) if t.hi is not None else 0)
        return v
    if op == "bvar":
        if a[0] in RANGE_EQ:
            a1, o1, a2, o2, k = (ev(x) for x in RANGE_EQ[a[0]])
            return all(arrays(a1, o1 + i) == arrays(a2, o2 + i) for i in range(min(k, 4096)))
        return bool(env.get(a[0], False))
    if op == "lin":
        return a[0] + sum(ev(x) * k for x, k in a[1])
    if op == "mul":
        return ev(a[0]) * ev(a[1])
    if op in ("div", "divs"):
        return ev(a[0]) // ev(a[1])
    if op in ("mod", "mods"):
        return ev(a[0]) % ev(a[1])
    if op == "band":
        return ev(a[0]) & ev(a[1])
    if op == "bor":
        return ev(a[0]) | ev(a[1])
    if op == "bxor":
        return ev(a[0]) ^ ev(a[1])
    if op == "ite":
        return ev(a[1]) if ev(a[0]) else ev(a[2])
    if op == "lut":
        return ev(a[0][ev(a[1])])
    if op == "sel":
        return arrays(a[0], ev(a[1]))
    if op == "beint":
        o, n = ev(a[1]), ev(a[2])
        return int.from_bytes(bytes(arrays(a[0], o + i) for i in range(min(n, 4096))), "big")
    if op == "uf":
        return ufs(a[0], tuple(ev(x) for x in a[1]), t)
    if op == "eq0":
        return ev(a[0]) == 0
    if op == "le0":
        return ev(a[0]) <= 0
    if op == "not":
        return not ev(a[0])
    if op == "and":
        return all(ev(x) for x in a)
    raise AssertionError(op)
