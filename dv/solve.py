"""Discharging queries: translation of terms to z3 (exact-width bit-vectors or integers)."""
from __future__ import annotations
import subprocess
import time
import z3
from .terms import T, _parts, leaves, evaluate, RANGE_EQ, NATIVE_UF, ZEROS, LAMS, subst, add, scale, le, rng, parts_of, var as tm_var, sub as tm_sub

STATS = {"queries": 0, "time": 0.0, "bv": 0, "int": 0, "unknown": 0, "cache": 0, "cvc5": 0, "cvc5 open": 0, "cvc5 disagrees": 0}
TIMEOUT_MS = 30000


class Unbounded(Exception):
    pass


def refine(asms):
    """bounds on variables implied by single-variable literals of the assumptions"""
    b: dict = {}

    def upd(t, lo, hi):
        l, h = b.get(t, (t.lo, t.hi))
        if lo is not None and (l is None or lo > l):
            l = lo
        if hi is not None and (h is None or hi < h):
            h = hi
        b[t] = (l, h)

    def walk(a):
        if type(a) is not T:
            return
        if a.op == "and":
            for q in a.args:
                walk(q)
        elif a.op in ("le0", "eq0"):
            c, it = _parts(a.args[0])
            if len(it) == 1 and it[0][0].op in ("var", "beint", "uf"):
                t, k = it[0]
                # k*t + c <= 0
                if k > 0:
                    upd(t, None, (-c) // k)
                else:
                    upd(t, _ceil(c, -k), None)
                if a.op == "eq0" and c % k == 0:
                    v = -c // k
                    upd(t, v, v)
            else:
                # multi-variable: propagate lazily through intervals
                multi.append(a)
    multi: list = []
    for a in asms:
        walk(a)
    for _ in range(3):
        changed = False
        for a in multi:
            c, it = _parts(a.args[0])
            if any(t.op not in ("var", "beint", "uf", "sel", "mod", "div", "band", "bor", "bxor", "lut", "ite") for t, _ in it):
                continue
            for t, k in it:
                if t.op not in ("var", "beint", "uf"):
                    continue
                # k*t <= -c - sum(rest) <= -(c + min rest)
                lo = c
                for u, q in it:
                    if u is t:
                        continue
                    l, h = b.get(u, (u.lo, u.hi))
                    m = (l if q > 0 else h)
                    if m is None:
                        lo = None
                        break
                    lo += m * q
                if lo is not None:
                    old = b.get(t, (t.lo, t.hi))
                    if k > 0:
                        upd(t, None, (-lo) // k)
                    else:
                        upd(t, _ceil(lo, -k), None)
                    if b.get(t) != old:
                        changed = True
                if a.op == "eq0":
                    hi = c
                    for u, q in it:
                        if u is t:
                            continue
                        l, h = b.get(u, (u.lo, u.hi))
                        m = (h if q > 0 else l)
                        if m is None:
                            hi = None
                            break
                        hi += m * q
                    if hi is not None:
                        old = b.get(t, (t.lo, t.hi))
                        if k > 0:
                            upd(t, _ceil(-hi, k), None)
                        else:
                            upd(t, None, hi // -k)
                        if b.get(t) != old:
                            changed = True
        if not changed:
            break
    return b


def _ceil(a, b):
    return -((-a) // b)


def _bits(lo, hi):
    """width of a signed bit-vector able to hold [lo, hi]"""
    return max(hi.bit_length() if hi >= 0 else (-hi - 1).bit_length(),
               lo.bit_length() if lo >= 0 else (-lo - 1).bit_length()) + 1


IDXW = 72
MAXW = 1600


class BVTr:
    def __init__(self, bounds, lits=()):
        self.b = bounds
        self.fw: dict = {}         # width of the values of a function: one for all its applications (congruence)
        seen: dict = {}
        for c in lits:
            subterms(c, seen)
        for t in seen:
            if t.op in ("beint", "uf"):
                lo, hi = bounds.get(t, (t.lo, t.hi))
                if lo is not None and hi is not None:
                    k = (t.op, t.args[0])
                    self.fw[k] = max(self.fw.get(k, 0), _bits(lo, max(lo, hi)))
        self.memo: dict = {}
        self.side: list = []
        self.vars: dict = {}
        self.arrs: dict = {}
        self.ufs: dict = {}

    def const(self, v):
        w = _bits(v, v)
        return z3.BitVecVal(v, w), w, v, v

    def ext(self, e, w, to):
        if to > w:
            return z3.SignExt(to - w, e)
        if to < w:
            return z3.Extract(to - 1, 0, e)
        return e

    def i(self, t):
        if type(t) is not T:
            return self.const(int(t))
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._i(t)
            if r[1] > MAXW:
                raise Unbounded("width")
        return r

    def fit(self, e, w, lo, hi):
        n = _bits(lo, hi)
        return self.ext(e, w, n), n, lo, hi

    def _i(self, t):
        op, a = t.op, t.args
        if op in ("var", "beint", "uf"):
            lo, hi = self.b.get(t, (t.lo, t.hi))
            if lo is None or hi is None:
                raise Unbounded(str(t))
            if lo > hi:
                self.side.append(z3.BoolVal(False))
                hi = lo
            w = _bits(lo, hi)
            if op != "var":
                w = max(w, self.fw.get((op, a[0]), 0))
            if lo == hi and op == "var":
                r = self.const(lo)
                self.vars[a[0]] = r[0]
                return r
            if op == "var":
                e0 = z3.BitVec(f"{a[0]}", w - 1 if lo >= 0 and w > 1 else w)
                e = z3.ZeroExt(w - e0.size(), e0) if e0.size() < w else e0
                self.vars[a[0]] = e
            elif op == "uf":
                try:
                    args = [self.ext(*self.i(x)[:2], IDXW) for x in a[1]]
                except Unbounded:
                    # an argument without bounds: the application stands for itself (no congruence; sound for refutation)
                    e = z3.BitVec(f"{a[0]}#{t.id}", w)
                else:
                    f = self.ufs.get((a[0], w))
                    if f is None:
                        f = self.ufs[(a[0], w)] = z3.Function(f"{a[0]}!{w}", *([z3.BitVecSort(IDXW)] * len(args)), z3.BitVecSort(w))
                    e = f(*args)
            else:
                args = [self.ext(*self.i(x)[:2], IDXW) for x in a[1:]]
                f = z3.Function(f"beint!{a[0]}!{w}", z3.BitVecSort(IDXW), z3.BitVecSort(IDXW), z3.BitVecSort(w))
                e = f(*args)
            if lo >= 0 and hi == (1 << (w - 1)) - 1 and lo == 0 and op == "var":
                pass
            else:
                self.side.append(e >= z3.BitVecVal(lo, w))
                self.side.append(e <= z3.BitVecVal(hi, w))
            return e, w, lo, hi
        if op == "sel":
            x, w, lo, hi = self.i(a[1])
            if w > IDXW:
                raise Unbounded("index")
            f = self.arrs.get(a[0])
            if f is None:
                f = self.arrs[a[0]] = z3.Function(f"arr!{a[0]}", z3.BitVecSort(IDXW), z3.BitVecSort(8))
            return z3.ZeroExt(1, f(self.ext(x, w, IDXW))), 9, 0, 255
        if op == "lin":
            parts = [(self.i(x), k) for x, k in a[1]]
            lo = hi = a[0]
            for (e, w, l, h), k in parts:
                l2, h2 = (l * k, h * k) if k >= 0 else (h * k, l * k)
                lo += l2
                hi += h2
            # enough width for every partial sum modulo 2**n: modular arithmetic is exact for the result
            n = _bits(lo, hi)
            acc = z3.BitVecVal(a[0], n)
            for (e, w, l, h), k in parts:
                e = self.ext(e, w, n)
                if k == 1:
                    acc = acc + e
                elif k == -1:
                    acc = acc - e
                elif k > 0 and k & (k - 1) == 0:
                    acc = acc + (e << (k.bit_length() - 1))
                else:
                    acc = acc + e * z3.BitVecVal(k, n)
            return acc, n, lo, hi
        if op == "mul":
            x, wx, lx, hx = self.i(a[0])
            y, wy, ly, hy = self.i(a[1])
            cs = [lx * ly, lx * hy, hx * ly, hx * hy]
            lo, hi = min(cs), max(cs)
            n = _bits(lo, hi)
            return self.ext(x, wx, n) * self.ext(y, wy, n), n, lo, hi
        if op in ("div", "mod"):
            x, w, lo, hi = self.i(a[0])
            m = a[1]
            if m & (m - 1) == 0:
                k = m.bit_length() - 1
                if op == "div":
                    if k >= w:
                        e = x >> (w - 1)
                    else:
                        e = z3.Extract(w - 1, k, x)
                    return self.fit(e, e.size(), lo // m, hi // m)
                n = k + 1
                x2 = self.ext(x, w, max(w, n))
                return z3.Concat(z3.BitVecVal(0, 1), z3.Extract(k - 1, 0, x2)), n, 0, m - 1
            if lo >= 0:
                n = max(w, _bits(m, m))
                x2 = self.ext(x, w, n)
                mm = z3.BitVecVal(m, n)
                if op == "div":
                    return self.fit(z3.UDiv(x2, mm), n, lo // m, hi // m)
                return self.fit(z3.URem(x2, mm), n, 0, m - 1)
            # floor semantics on a possibly negative dividend: shift by a multiple of m
            s = -(lo // m) * m
            n = _bits(0, hi + s + m)
            x2 = self.ext(x, w, n) + z3.BitVecVal(s, n)
            mm = z3.BitVecVal(m, n)
            if op == "div":
                e = z3.UDiv(x2, mm) - z3.BitVecVal(s // m, n)
                return self.fit(e, n, lo // m, hi // m)
            return self.fit(z3.URem(x2, mm), n, 0, m - 1)
        if op in ("divs", "mods"):
            x, wx, lx, hx = self.i(a[0])
            y, wy, ly, hy = self.i(a[1])
            if lx < 0 or ly <= 0:
                raise Unbounded("symbolic division")
            n = max(wx, wy)
            x, y = self.ext(x, wx, n), self.ext(y, wy, n)
            if op == "divs":
                return self.fit(z3.UDiv(x, y), n, 0, hx)
            return self.fit(z3.URem(x, y), n, 0, hy - 1)
        if op in ("band", "bor", "bxor"):
            x, wx, lx, hx = self.i(a[0])
            y, wy, ly, hy = self.i(a[1])
            n = max(wx, wy)
            x, y = self.ext(x, wx, n), self.ext(y, wy, n)
            e = x & y if op == "band" else (x | y if op == "bor" else x ^ y)
            if lx >= 0 and ly >= 0:
                lo, hi = 0, (min(hx, hy) if op == "band" else (1 << max(hx.bit_length(), hy.bit_length())) - 1)
            elif op == "band" and (lx >= 0 or ly >= 0):
                lo, hi = 0, hx if lx >= 0 else hy
            else:
                lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
            return self.fit(e, n, lo, hi)
        if op == "ite":
            c = self.bl(a[0])
            x, wx, lx, hx = self.i(a[1])
            y, wy, ly, hy = self.i(a[2])
            n = max(wx, wy)
            return z3.If(c, self.ext(x, wx, n), self.ext(y, wy, n)), n, min(lx, ly), max(hx, hy)
        if op == "lut":
            x, w, lo, hi = self.i(a[1])
            items = [self.i(v) for v in a[0]]
            n = max(q[1] for q in items)
            l2, h2 = min(q[2] for q in items), max(q[3] for q in items)
            lo_, hi_ = max(0, lo), min(len(items) - 1, hi)

            def tree(l, h):
                if l == h:
                    return self.ext(items[l][0], items[l][1], n)
                m = (l + h) // 2
                return z3.If(x <= z3.BitVecVal(m, w) if _bits(m, m) <= w else z3.BoolVal(True), tree(l, m), tree(m + 1, h))
            return tree(lo_, hi_) if lo_ <= hi_ else items[0][0], n, l2, h2
        raise AssertionError(op)

    def bl(self, t):
        if type(t) is not T:
            return z3.BoolVal(bool(t))
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._b(t)
        return r

    def _b(self, t):
        op, a = t.op, t.args
        if op == "bvar":
            e = z3.Bool(a[0])
            self.vars[a[0]] = e
            return e
        if op == "not":
            return z3.Not(self.bl(a[0]))
        if op == "and":
            return z3.And(*[self.bl(x) for x in a])
        if op in ("eq0", "le0"):
            # split into positive and negative sides: keeps terms small
            c, it = _parts(a[0])
            l = [(x, k) for x, k in it if k > 0]
            r = [(x, -k) for x, k in it if k < 0]
            from .terms import lin
            L = lin(max(c, 0), l)
            R = lin(max(-c, 0), r)
            x, wx, lx, hx = self.i(L)
            y, wy, ly, hy = self.i(R)
            n = max(wx, wy)
            x, y = self.ext(x, wx, n), self.ext(y, wy, n)
            return x == y if op == "eq0" else x <= y
        raise AssertionError(op)

    def value(self, m, name):
        e = self.vars.get(name)
        if e is None:
            return None
        v = m.eval(e, model_completion=True)
        if z3.is_bool(v):
            return z3.is_true(v)
        return v.as_signed_long()

    def arr_value(self, m, arr, i):
        f = self.arrs.get(arr)
        if f is None:
            return 0
        return m.eval(f(z3.BitVecVal(i, IDXW)), model_completion=True).as_long()


class IntTr:
    def __init__(self, bounds):
        self.b = bounds
        self.memo: dict = {}
        self.side: list = []
        self.vars: dict = {}
        self.arrs: dict = {}

    def dom(self, t, e):
        lo, hi = self.b.get(t, (t.lo, t.hi))
        if lo is not None:
            self.side.append(e >= lo)
        if hi is not None:
            self.side.append(e <= hi)

    def i(self, t):
        if type(t) is not T:
            return z3.IntVal(int(t))
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._i(t)
        return r

    def _bw(self, f, t, w):
        x, y = self.i(t.args[0]), self.i(t.args[1])
        return z3.BV2Int(f(z3.Int2BV(x, w), z3.Int2BV(y, w)))

    def _i(self, t):
        op, a = t.op, t.args
        if op == "var":
            e = z3.Int(a[0])
            self.vars[a[0]] = e
            self.dom(t, e)
            return e
        if op == "sel":
            f = self.arrs.get(a[0])
            if f is None:
                f = self.arrs[a[0]] = z3.Function(f"arr!{a[0]}", z3.IntSort(), z3.IntSort())
            e = f(self.i(a[1]))
            self.side.append(e >= 0)
            self.side.append(e <= 255)
            return e
        if op == "beint":
            f = z3.Function(f"beint!{a[0]}", z3.IntSort(), z3.IntSort(), z3.IntSort())
            e = f(self.i(a[1]), self.i(a[2]))
            self.side.append(e >= 0)
            return e
        if op == "uf":
            f = z3.Function(a[0], *([z3.IntSort()] * (len(a[1]) + 1)))
            e = f(*[self.i(x) for x in a[1]])
            self.dom(t, e)
            return e
        if op == "lin":
            acc = z3.IntVal(a[0])
            return z3.Sum([acc] + [self.i(x) * k if k != 1 else self.i(x) for x, k in a[1]])
        if op == "mul":
            return self.i(a[0]) * self.i(a[1])
        if op == "div":
            return self.i(a[0]) / a[1]
        if op == "mod":
            return self.i(a[0]) % a[1]
        if op in ("divs", "mods"):
            x, y = self.i(a[0]), self.i(a[1])
            # floor division; z3 div is Euclidean: equal to floor for y > 0
            q = z3.If(y > 0, x / y, (-x) / (-y))
            return q if op == "divs" else x - y * q
        if op in ("band", "bor", "bxor"):
            from .terms import rng, _width
            ws = []
            for x in a:
                lo, hi = rng(x)
                if type(x) is T and x in self.b:
                    lo, hi = self.b[x]
                if lo is None or hi is None or lo < 0:
                    raise Unbounded("bitwise on unbounded integers")
                ws.append(max(hi.bit_length(), 1))
            w = max(ws)
            f = {"band": lambda p, q: p & q, "bor": lambda p, q: p | q, "bxor": lambda p, q: p ^ q}[op]
            return self._bw(f, t, w)
        if op == "ite":
            return z3.If(self.bl(a[0]), self.i(a[1]), self.i(a[2]))
        if op == "lut":
            x = self.i(a[1])
            items = [self.i(v) for v in a[0]]

            def tree(l, h):
                if l == h:
                    return items[l]
                m = (l + h) // 2
                return z3.If(x <= m, tree(l, m), tree(m + 1, h))
            return tree(0, len(items) - 1)
        raise AssertionError(op)

    def bl(self, t):
        if type(t) is not T:
            return z3.BoolVal(bool(t))
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._b(t)
        return r

    def _b(self, t):
        op, a = t.op, t.args
        if op == "bvar":
            e = z3.Bool(a[0])
            self.vars[a[0]] = e
            return e
        if op == "not":
            return z3.Not(self.bl(a[0]))
        if op == "and":
            return z3.And(*[self.bl(x) for x in a])
        if op == "eq0":
            return self.i(a[0]) == 0
        if op == "le0":
            return self.i(a[0]) <= 0
        raise AssertionError(op)

    def value(self, m, name):
        e = self.vars.get(name)
        if e is None:
            return None
        v = m.eval(e, model_completion=True)
        if z3.is_bool(v):
            return z3.is_true(v)
        return v.as_long()

    def arr_value(self, m, arr, i):
        f = self.arrs.get(arr)
        if f is None:
            return 0
        t = self.__dict__.setdefault("tables", {}).get((id(m), arr))
        if t is None:
            t = self.tables[(id(m), arr)] = (m, func_table(m, f))
        t = t[1]
        if t:
            v = t[0].get(i, t[1])
        else:
            v = m.eval(f(z3.IntVal(i)), model_completion=True).as_long()
        return min(max(v, 0), 255)


def func_table(m, f):
    """({argument: value}, default) of a function of the model; () if it is not given by a table"""
    fi = m[f]
    if fi is None:
        return {}, 0
    try:
        if not isinstance(fi, z3.FuncInterp):
            return ()
        e = fi.as_list()
        return {k[0].as_long(): k[1].as_long() for k in e[:-1]}, e[-1].as_long()
    except (AttributeError, z3.Z3Exception, IndexError):
        return ()


class SharedInt(IntTr):
    """integer translation kept across queries: every term with the range constraints of its own leaves"""

    def __init__(self):
        super().__init__({})
        self.deps: dict = {}      # literal -> {leaf term: constraints}
        self.stack: list = []

    def i(self, t):
        return self._get(t, self._i) if type(t) is T else z3.IntVal(int(t))

    def bl(self, t):
        return self._get(t, self._b) if type(t) is T else z3.BoolVal(bool(t))

    def _get(self, t, f):
        r = self.memo.get(t)
        if r is None:
            self.stack.append({})
            old, self.side = self.side, []
            try:
                r = f(t)
                mine = self.stack[-1]
                if self.side:
                    mine[t] = self.side
                self.memo[t], self.deps[t] = r, mine
            finally:
                self.side = old
                self.stack.pop()
        if self.stack:
            self.stack[-1].update(self.deps[t])
        return r

    def lits(self, ts):
        fs, deps = [], {}
        for t in ts:
            fs.append(self.bl(t))
            deps.update(self.deps[t])
        return [c for cs in deps.values() for c in cs] + fs


_shared: SharedInt | None = None


def shared():
    global _shared
    if _shared is None or len(_shared.memo) > 200000:
        _shared = SharedInt()
    return _shared


class Model:
    def __init__(self, tr, m):
        self.tr, self.m = tr, m
        self.env = {n: tr.value(m, n) for n in tr.vars}
        self.extra: dict = {}
        self.memo: dict = {}
        self.native = False         # uninterpreted functions evaluated by their native meaning

    def arr(self, name, i):
        if name == ZEROS:
            return 0
        if name in LAMS:
            v, t = LAMS[name]
            return self.ev(subst(t, v, i))
        if (name, i) in self.extra:
            return self.extra[(name, i)]
        v = self.memo.get((name, i))
        if v is None:
            v = self.memo[(name, i)] = self.tr.arr_value(self.m, name, i)
        return v

    def uf(self, name, args, t=None):
        if not self.native and t is not None:
            v = self.tr_value(t)
            if v is not None:
                return v
        if name.startswith(("fold:", "step:", "first:")):
            from .loops import uf_value
            return uf_value(name, args, self.arr)
        f = NATIVE_UF.get(name)
        if f is None:
            raise NotImplementedError(name)
        return f(*args)

    def ev(self, t):
        return evaluate(t, self.env, self.arr, self.uf)

    def repair(self, asms):
        """give the octets behind abstracted terms (multi-octet integers, range equalities) the values the
        model chose for them; then every assumption must evaluate to true.  False: the model is spurious."""
        todo: dict = {}
        self.native = True
        for a in asms:
            subterms(a, todo)
        for t in list(todo):
            if t.op == "beint":
                o, n = self.ev(t.args[1]), self.ev(t.args[2])
                v = self.tr_value(t)
                if v is None or n > 4096 or n < 0 or v.bit_length() > 8 * n:
                    continue
                for i, b in enumerate(v.to_bytes(n, "big")):
                    self.extra.setdefault((t.args[0], o + i), b)
        for t in list(todo):
            if t.op == "uf" and t.args[0].startswith("first:"):
                _, c, a = t.args[0].split(":", 2)
                o, n = (self.ev(x) for x in t.args[1])
                v = self.tr_value(t)
                if v is None or n > 4000:
                    continue
                for i in range(n if v < 0 else v):
                    if self.arr(a, o + i) == int(c):
                        self.extra.setdefault((a, o + i), 0)
        for t in list(todo):
            if t.op == "bvar" and t.args[0] in RANGE_EQ and self.env.get(t.args[0]):
                a1, o1, a2, o2, k = (self.ev(x) for x in RANGE_EQ[t.args[0]])
                for i in range(min(k, 4096)):
                    if a2 == ZEROS:
                        self.extra[(a1, o1 + i)] = 0
                    else:
                        self.extra[(a2, o2 + i)] = self.arr(a1, o1 + i)
        try:
            return all(self.ev(a) for a in asms)
        except (NotImplementedError, IndexError, ZeroDivisionError):
            return False

    def tr_value(self, t):
        e = self.tr.memo.get(t)
        if e is None:
            return None
        v = self.m.eval(e[0] if isinstance(e, tuple) else e, model_completion=True)
        return v.as_signed_long() if z3.is_bv(v) else v.as_long()


def subterms(t, seen):
    if type(t) is not T or t in seen:
        return
    seen[t] = None
    for a in t.args:
        if type(a) is T:
            subterms(a, seen)
        elif isinstance(a, tuple):
            for q in a:
                if type(q) is T:
                    subterms(q, seen)
                elif isinstance(q, tuple):
                    for w in q:
                        subterms(w, seen)


_cache: dict = {}


def cone(asms, goal):
    """assumptions sharing (transitively) a variable with the goal"""
    want = set(leaves(goal))
    rest = [(a, leaves(a)) for a in asms]
    out = []
    changed = True
    while changed:
        changed = False
        nxt = []
        for a, l in rest:
            if l & want:
                out.append(a)
                want |= l
                changed = True
            else:
                nxt.append((a, l))
        rest = nxt
    return out


def split(asms, g, depth=3, budget=120.0):
    """unsatisfiability of asms and g by cases: the residue of a variable modulo the small modulus it is taken by.
    Returns "unsat" or "unknown"."""
    from .engine import Unsupported
    t0 = time.process_time()

    def pick(ts):
        seen: dict = {}
        for t in ts:
            subterms(t, seen)
        n: dict = {}
        for t in seen:
            if t.op in ("mod", "div") and type(t.args[1]) is int and 2 <= t.args[1] <= 16:
                x = t.args[0]
                vs = [v for v, k in parts_of(x)[1] if k == 1 and v.op == "var"]
                if vs:
                    v = max(vs, key=lambda v: ("!" in v.args[0], v.id))
                    k = (x, v, t.args[1])
                    n[k] = n.get(k, 0) + (100 if "!" in v.args[0] else 1)
        return max(n, key=lambda k: (n[k], k[0].id), default=None)

    def go(asms, g, depth):
        k = pick([g]) or pick(asms)
        if k is None:
            return "unknown"
        x, v, m = k
        lo, hi = rng(x)
        q = tm_var(f"{v.args[0]}'", None if lo is None else lo // m, None if hi is None else hi // m)
        rest = tm_sub(x, v)
        for r in range(m):
            w = tm_sub(add(scale(q, m), r), rest)
            sub = lambda t: subst(t, v, w)
            try:
                a2, g2 = [sub(a) for a in asms], sub(g)
            except Unsupported:
                return "unknown"
            if v.lo is not None:
                a2.append(le(v.lo, w))
            if v.hi is not None:
                a2.append(le(w, v.hi))
            if any(type(a) is not T and not a for a in a2) or type(g2) is not T and not g2:
                continue
            if time.process_time() - t0 > budget:
                return "unknown"
            res = check(a2, g2, timeout=4000, full=type(g2) is not T)
            if res == "unknown" and depth > 1:
                res = go(a2, g2, depth - 1)
            if res != "unsat":
                return "unknown"
        return "unsat"
    return go([a for a in cone(asms, g) if type(a) is T] if type(g) is T else asms, g, depth)


CONFIRM = 0            # number of verdicts to be repeated by the second solver


def confirm(s, mode):
    """ask cvc5 for the same verdict; False if it contradicts"""
    global CONFIRM
    CONFIRM -= 1
    text = "(set-logic " + ("QF_UFBV" if mode == "bv" else "ALL") + ")\n" + s.to_smt2()
    try:
        out = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=10000", "-"], input=text, capture_output=True, text=True, timeout=20).stdout.split()
    except (OSError, subprocess.TimeoutExpired):
        out = []
    got = out[0] if out else "unknown"
    STATS["cvc5" if got == "unsat" else "cvc5 disagrees" if got == "sat" else "cvc5 open"] += 1
    return got != "sat"


def check(asms, goal, model=False, timeout=None, full=False, modes=None):
    """satisfiability of  /\\asms /\\ goal.  Returns 'sat' | 'unsat' | 'unknown' (and a Model)."""
    if type(goal) is not T:
        if not goal:
            return ("unsat", None) if model else "unsat"
        if not full:
            return ("sat", None) if model else "sat"
    asms = [a for a in asms if type(a) is T]
    if type(goal) is T and not full:
        asms = cone(asms, goal)
    key = (tuple(sorted({a.id for a in asms})), goal.id if type(goal) is T else True)
    if not model and key in _cache:
        STATS["cache"] += 1
        return _cache[key]
    lits = asms + ([goal] if type(goal) is T else [])
    bounds = refine(lits)
    for t, (l, h) in bounds.items():
        if l is not None and h is not None and l > h:
            _cache[key] = "unsat"
            return ("unsat", None) if model else "unsat"
    res, mdl = "unknown", None
    t0 = time.time()
    for mode in modes or ("bv", "int"):
        tr = fs = None
        if mode == "int" and not model:
            try:
                fs, side = shared().lits(lits), ()
            except (Unbounded, RecursionError):
                pass
        if fs is None:
            tr = BVTr(bounds, lits) if mode == "bv" else IntTr(bounds)
            try:
                fs = [tr.bl(a) for a in lits]
            except Unbounded:
                continue
            except RecursionError:
                continue
            side = tr.side
        s = z3.SolverFor("QF_UFBV") if mode == "bv" else z3.Solver()
        s.set("timeout", int(timeout or TIMEOUT_MS))
        s.add(*side)
        s.add(*fs)
        STATS["queries"] += 1
        STATS[mode] += 1
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        if r == z3.unsat:
            res = "unsat" if CONFIRM <= 0 or confirm(s, mode) else "unknown"
            break
        if r == z3.sat:
            res = "sat"
            if model:
                mdl = Model(tr, s.model())
            break
    STATS["time"] += time.time() - t0
    if res == "unknown":
        STATS["unknown"] += 1
    else:
        _cache[key] = res
    return (res, mdl) if model else res
