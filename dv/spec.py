"""Contracts: specification language.

A contract is a Python function over declared input domains.  Its body states what is required of the
inputs (`require`), calls the real code (directly or through `attempt`) and states what is ensured
(`ensure`).  The same text is
  * executed symbolically over the whole input domain (one obligation per `ensure`, per path, plus
    "no exception" where the real code is called directly), and
  * executed natively on the real code for replaying counterexamples and for concrete search.
"""
from __future__ import annotations
import random
from . import terms as tm
from . import values as vl
from .terms import T
from .values import SymBytes, SymBA, SymStr
from .engine import current, Raised, Cut, Unsupported
from . import interp as I
from .models import model
from .loops import folding, native_fold, fold_term     # noqa: F401
from .repo import repo, setup       # noqa: F401  (re-exported)


class Skip(BaseException):
    """precondition not met (native run)"""


class Violation(BaseException):
    def __init__(self, name, info=None):
        self.name, self.info = name, info
        super().__init__(name)


I.ROOTS.append(__file__)
CONTRACTS: dict = {}
CELLS: dict = {}          # native run: observations


class Contract:
    def __init__(self, fn, props, args, fns, uses, note, bounded, deadline, folds, drops, standin=()):
        self.standin = (standin,) if isinstance(standin, str) else tuple(standin)
        self.fn, self.props, self.args, self.fns, self.uses = fn, props, args, fns, uses
        self.name = fn.__name__
        self.module = fn.__module__
        self.note = note
        self.bounded = bounded
        self.deadline = deadline
        self.folds, self.drops = tuple(folds), tuple(drops)

    def cases(self):
        """cartesian product of the `Each` arguments"""
        out = [{}]
        for k, d in self.args.items():
            if isinstance(d, Each):
                out = [{**c, k: v} for c in out for v in d.vals]
        return out


def contract(*props, fns=(), uses=(), note="", bounded="", deadline=None, folds=(), drops=(), standin=(), **args):
    """declare a contract.  fns: functions of the real code it specifies.  uses: summaries it relies on.
    standin: bounded contracts that decide where the code is beyond the verifier's reach for this one."""
    def d(fn):
        c = Contract(fn, props, args, list(fns), list(uses), note or (fn.__doc__ or "").strip(), bounded, deadline, folds, drops, standin)
        key = c.name
        if key in CONTRACTS:
            raise AssertionError(f"duplicate contract {key}")
        CONTRACTS[key] = c
        return fn
    return d


class Callee:
    """the contract of a function, used in place of its body by callers: `apply` returns NotImplemented where it says nothing.
    The contract named `proved` establishes it."""

    def __init__(self, fn, proved, apply):
        self.fn, self.proved, self.apply = fn, proved, apply


def precondition(c, name):
    """an obligation of the caller (inside a Callee)"""


def token(name, value, without):
    """a text known by its contract only: it does not contain the characters of `without`"""


def token_value(s, name):
    """value of a text that is exactly one such text, else None"""


# ------------------------------------------------------------------ domains

class Dom:
    def sym(self, p, name):
        raise NotImplementedError

    def sample(self, rnd, i):
        raise NotImplementedError

    def mutate(self, v, rnd, pool):
        """a neighbour of a value of this domain (counterexample search)"""
        return self.sample(rnd, 0)

    def admits(self, v):
        """is the mutated value still one of this domain?"""
        return True


EDGE = [0, 1, 2, 3, 7, 8, 9, 10, 12, 13, 15, 16, 22, 23, 24, 28, 29, 30, 31, 32, 59, 60, 63, 64, 99, 100, 126, 127, 128, 129, 130,
        253, 254, 255, 256, 257, 511, 512, 719, 720, 721, 1023, 1024, 2046, 2047, 2048, 4095, 4096, 8191, 8192, 0x3fff, 0x4000,
        32767, 32768, 65534, 65535, 65536, 65537, 0xffffff, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1,
        (1 << 40) - 1, 1 << 40, (1 << 48) - 1, 1 << 48, (1 << 53) + 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 1 << 64]


class Int(Dom):
    def __init__(self, lo=None, hi=None):
        self.lo, self.hi = lo, hi

    def sym(self, p, name):
        return p.int_var(name, self.lo, self.hi)

    def sample(self, rnd, i):
        lo, hi = self.lo, self.hi
        for _ in range(8):
            r = rnd.random()
            if r < .2 and lo is not None:
                v = lo + rnd.choice((0, 0, 1, 2))
            elif r < .4 and hi is not None:
                v = hi - rnd.choice((0, 0, 1, 2))
            elif r < .7:
                v = rnd.choice(EDGE) * rnd.choice((1, 1, 1, -1))
            elif lo is not None and hi is not None:
                v = rnd.randint(lo, hi)
            else:
                v = rnd.getrandbits(rnd.choice((4, 8, 16, 33, 70))) * rnd.choice((1, 1, -1))
            if (lo is None or v >= lo) and (hi is None or v <= hi):
                return v
        return rnd.randint(lo if lo is not None else (hi - 1000 if hi is not None else -1000),
                           hi if hi is not None else (lo + 1000 if lo is not None else 1000))

    def mutate(self, v, rnd, pool):
        if type(v) is not int:
            return v
        r = rnd.random()
        if r < .4:
            w = v + rnd.choice((-256, -128, -16, -8, -2, -1, 1, 2, 8, 16, 128, 256))
        elif r < .6:
            w = v ^ 1 << rnd.randrange(max(8, v.bit_length() + 1))
        elif r < .7:
            w = -v
        else:
            return self.sample(rnd, 0)
        return w if (self.lo is None or w >= self.lo) and (self.hi is None or w <= self.hi) else v


def Nat():
    return Int(0, None)


class Bool(Dom):
    def sym(self, p, name):
        return tm.bvar(p.fresh(name))

    def sample(self, rnd, i):
        return rnd.random() < .5


def oct_sample(rnd):
    r = rnd.random()
    if r < .4:
        return rnd.choice((0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 12, 13, 15, 16, 17, 20, 22, 26, 28, 31, 32, 60, 0x7d, 0x7e, 0x7f, 0x80, 0x81, 0x82,
                           0x83, 0x84, 0xa0, 0xa7, 0xaf, 0xfc, 0xfd, 0xfe, 0xff))
    return rnd.randrange(256)


class Bytes(Dom):
    """octets; hi None: unbounded length"""

    def __init__(self, lo=0, hi=None, kind="bytes", typical=24):
        self.lo, self.hi, self.kind, self.typical = lo, hi, kind, typical

    def wrap(self, v):
        if self.kind == "bytearray":
            return SymBA(v) if isinstance(v, SymBytes) else SymBA(v)
        return v

    def sym(self, p, name):
        if self.hi is not None and self.lo == self.hi and self.hi <= 64:
            return self.wrap(vl.from_items([p.int_var(f"{name}.{i}", 0, 255) for i in range(self.lo)]))
        n = self.lo if self.lo == self.hi else p.int_var(f"len.{name}", self.lo, self.hi)
        a = p.fresh(f"arr.{name}")
        return self.wrap(vl.simp(SymBytes([("s", a, 0, n)])))

    def sample(self, rnd, i):
        hi = self.hi if self.hi is not None else max(self.lo, self.typical)
        r = rnd.random()
        if r < .6:
            n = min(hi, self.lo + int(rnd.expovariate(.25)))
        elif r < .75 and self.hi is None:
            n = max(self.lo, rnd.choice((126, 127, 128, 129, 130, 255, 256, 257, 300)))
        else:
            n = rnd.randint(self.lo, min(hi, self.lo + 300))
        b = bytes(oct_sample(rnd) for _ in range(n))
        return bytearray(b) if self.kind == "bytearray" else b

    def mutate(self, v, rnd, pool):
        b = bytearray(v)
        for _ in range(rnd.choice((1, 1, 1, 2, 2, 3, 4, 6))):
            r = rnd.random()
            if b and r < .5:
                i = min(rnd.randrange(len(b)), rnd.randrange(len(b)))
                q = rnd.random()
                if q < .5:
                    b[i] = oct_sample(rnd)
                elif q < .75:
                    b[i] ^= 1 << rnd.randrange(8)
                else:
                    b[i] = b[i] + rnd.choice((-2, -1, 1, 2)) & 255
            elif r < .68:
                i = rnd.randint(0, len(b))
                b[i:i] = bytes((oct_sample(rnd),)) * rnd.choice((1, 1, 1, 2, 3, 16, 120))
            elif b and r < .8:
                i = rnd.randrange(len(b))
                del b[i:i + rnd.choice((1, 1, 2, 4))]
            elif b and r < .85:
                i, j = sorted((rnd.randint(0, len(b)), rnd.randint(0, len(b))))
                b[j:j] = b[i:j]
            elif pool:
                o = rnd.choice(pool)
                if isinstance(o, (bytes, bytearray)):
                    i, j = rnd.randint(0, len(b)), rnd.randint(0, len(o))
                    b = b[:i] + o[j:]
        if self.hi is not None and len(b) > self.hi:
            del b[self.hi:]
        if len(b) < self.lo:
            b += bytes(self.lo - len(b))
        if len(b) > 70000:
            del b[70000:]
        return b if self.kind == "bytearray" else bytes(b)


class Float(Dom):
    """every float, by its binary64 pattern"""

    def sym(self, p, name):
        from .floats import SymFloat
        return SymFloat(p.int_var(name, 0, (1 << 64) - 1))

    def sample(self, rnd, i):
        import struct
        r = rnd.random()
        if r < .3:
            return rnd.choice((0.0, -0.0, 1.0, -1.0, 1.5, 0.1, 2.0 ** -126, 2.0 ** -127, 2.0 ** -149, 2.0 ** -150, 3.4028234663852886e38,
                               3.4028235677973366e38, 3.5e38, 1e308, 5e-324, 2.2250738585072014e-308, 16777217.0, 62056.0,
                               float("inf"), float("-inf"), float("nan"))) * rnd.choice((1, -1))
        if r < .6:
            return struct.unpack(">f", rnd.getrandbits(32).to_bytes(4, "big"))[0]
        return struct.unpack(">d", rnd.getrandbits(64).to_bytes(8, "big"))[0]


class Text(Dom):
    """text of exactly n characters (n may be a tuple of lengths, chosen by case split)"""

    def __init__(self, *ns, alphabet=None, lo=0, hi=0x10ffff):
        self.ns, self.alphabet, self.lo, self.hi = ns, alphabet, lo, hi

    def sym(self, p, name):
        n = self.ns[p.choose(len(self.ns))]
        chars = []
        for i in range(n):
            c = p.int_var(f"{name}.{i}", self.lo, self.hi)
            if self.alphabet is not None:
                p.assume(tm.or_(*[tm.eq(c, ord(a)) for a in self.alphabet]))
            chars.append(c)
        return vl.mkstr(chars)

    def sample(self, rnd, i):
        n = rnd.choice(self.ns)
        al = self.alphabet or "0123456789.:-_ aAfFgzZ\u0660\xb2\xe9"
        out = []
        for _ in range(n):
            c = rnd.choice(al)
            if not self.lo <= ord(c) <= self.hi:
                c = chr(rnd.randint(self.lo, min(self.hi, 0xd7ff)))
            out.append(c)
        return "".join(out)

    def mutate(self, v, rnd, pool):
        if not v or rnd.random() < .2:
            return self.sample(rnd, 0)
        i = rnd.randrange(len(v))
        al = self.alphabet or "0123456789.:-_ aAfF"
        c = rnd.choice(al)
        return v[:i] + c + v[i + 1:] if self.lo <= ord(c) <= self.hi else v


class Each(Dom):
    """one separate verification job per value"""

    def __init__(self, *vals):
        self.vals = list(vals)

    def sample(self, rnd, i):
        return rnd.choice(self.vals)


class Choice(Dom):
    """one of the values, chosen inside the job"""

    def __init__(self, *vals):
        self.vals = list(vals)

    def sym(self, p, name):
        return self.vals[p.choose(len(self.vals))]

    def sample(self, rnd, i):
        return rnd.choice(self.vals)


class Opt(Dom):
    def __init__(self, d):
        self.d = d

    def sym(self, p, name):
        return None if p.choose(2) else self.d.sym(p, name)

    def sample(self, rnd, i):
        return None if rnd.random() < .25 else self.d.sample(rnd, i)

    def mutate(self, v, rnd, pool):
        return self.sample(rnd, 0) if v is None or rnd.random() < .1 else self.d.mutate(v, rnd, pool)


class Union(Dom):
    def __init__(self, *ds):
        self.ds = ds

    def sym(self, p, name):
        return self.ds[p.choose(len(self.ds))].sym(p, name)

    def sample(self, rnd, i):
        return rnd.choice(self.ds).sample(rnd, i)


class Seq(Dom):
    """list of exactly n values (n chosen among ns)"""

    def __init__(self, d, *ns, kind=list):
        self.d, self.ns, self.kind = d, ns, kind

    def sym(self, p, name):
        n = self.ns[p.choose(len(self.ns))]
        return self.kind([self.d.sym(p, f"{name}.{i}") for i in range(n)])

    def sample(self, rnd, i):
        return self.kind([self.d.sample(rnd, i) for _ in range(rnd.choice(self.ns))])

    def mutate(self, v, rnd, pool):
        if not v or rnd.random() < .1:
            return self.sample(rnd, 0)
        w = list(v)
        i = rnd.randrange(len(w))
        w[i] = self.d.mutate(w[i], rnd, pool)
        return self.kind(w)


class AnyText(Dom):
    """every text without lone surrogates, of any length"""

    def __init__(self, ascii=False, typical=12):
        self.codec, self.typical = "ascii" if ascii else "utf-8", typical

    def sym(self, p, name):
        b = Bytes().sym(p, name)
        p.assume(vl.text_valid(self.codec, b))
        return vl.enc_text(self.codec, b)

    def sample(self, rnd, i):
        n = min(400, int(rnd.expovariate(1 / self.typical))) if rnd.random() < .9 else rnd.choice((63, 64, 126, 127, 128, 129, 200))
        out = []
        for _ in range(n):
            r = rnd.random()
            if self.codec == "ascii" or r < .6:
                out.append(chr(rnd.randrange(128)) if r < .1 else rnd.choice("0123456789 aAzZ.-_"))
            else:
                c = rnd.choice((0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0x416, 0xfffd, 0xffff, 0x10000, 0x10ffff, rnd.randrange(0x110000)))
                out.append(chr(c) if not 0xd800 <= c < 0xe000 else "\xe9")
        return "".join(out)


class DecText(Dom):
    """decimal text of an integer"""

    def __init__(self, lo=None, hi=None):
        self.i = Int(lo, hi)

    def sym(self, p, name):
        return SymStr([("dec", self.i.sym(p, name))])

    def sample(self, rnd, i):
        return str(self.i.sample(rnd, i))


# ------------------------------------------------------------------ intrinsics (native meaning)

class Outcome:
    """result of a call that may raise"""
    __slots__ = ("value", "exc")

    def __init__(self, value, exc):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def raised(self, *ts):
        return self.exc is not None and isinstance(self.exc, ts or Exception)

    def __repr__(self):
        return f"<returned {self.value!r}>" if self.exc is None else f"<raised {type(self.exc).__name__}: {self.exc}>"


def require(c):
    if not c:
        raise Skip()


def ensure(c, name):
    CELLS.setdefault("trace", []).append(name)
    if not c:
        raise Violation(name)


def attempt(f, *args, **kw):
    try:
        return Outcome(f(*args, **kw), None)
    except (Skip, Violation):
        raise
    except Exception as e:
        return Outcome(None, e)


def observe(x):
    CELLS.setdefault("trace", []).append(x)


def implies(a, b):
    return (not a) or b


def all_of(*cs):
    """conjunction of conditions that are all defined (no case split)"""
    return all(cs)


def any_of(*cs):
    return any(cs)


def fold(step, init, data, unfold=False):
    """step applied to every octet of data in turn"""
    return native_fold(step, init, data)


def by_lemma(name, c):
    """c is an instance of the statement proved by contract `name` (checked in native runs)"""
    if not c:
        raise Violation(f"lemma {name}")


# ------------------------------------------------------------------ intrinsics (symbolic meaning)

@model(by_lemma)
def _by_lemma(name, c):
    if name not in CONTRACTS:
        raise Unsupported(f"unknown lemma {name}")
    p = current()
    p.x.summaries.add(f"lemma:{name}")
    p.assume(I.truth_term(c))


@model(fold)
def _fold(step, init, data, unfold=False):
    return fold_term(step, init, data, unfold)


@model(require)
def _require(c):
    p = current()
    t = I.truth_term(c)
    if type(t) is T:
        if not p.branch_assume(t):
            raise Cut()
    elif not t:
        raise Cut()


@model(ensure)
def _ensure(c, name):
    p = current()
    t = I.truth_term(c)
    p.obs.append(name if isinstance(name, str) else "?")
    p.oblige(vl.goal_form(t), name)


@model(attempt)
def _attempt(f, *args, **kw):
    try:
        return Outcome(I.call(f, args, kw), None)
    except Raised as r:
        return Outcome(None, r.exc)


@model(observe)
def _observe(x):
    current().obs.append(x)


@model(precondition)
def _precondition(c, name):
    """an obligation of the caller (inside a Callee)"""
    p = current()
    p.x.obligation(p, I.truth_term(c), f"precondition of {name}")
    p.assume(I.truth_term(c))


@model(token)
def _token(name, value, without):
    return SymStr([("tok", name, value, without)])


@model(token_value)
def _token_value(s, name):
    """value of a text that is exactly one token"""
    if isinstance(s, SymStr) and len(s.parts) == 1 and s.parts[0][0] == "tok" and s.parts[0][1] == name:
        return s.parts[0][2]
    return None


@model(all_of)
def _all_of(*cs):
    return tm.and_(*[I.truth_term(c) for c in cs])


@model(any_of)
def _any_of(*cs):
    return tm.or_(*[I.truth_term(c) for c in cs])


@model(implies)
def _implies(a, b):
    return tm.implies(I.truth_term(a), I.truth_term(b))


@model(Outcome.raised)
def _raised(self, *ts):
    return self.exc is not None and isinstance(self.exc, ts or Exception)


# ------------------------------------------------------------------ concretisation

def concretize(v, m, memo=None):
    """native value of a symbolic input under a model"""
    if type(v) is T:
        return m.ev(v)
    if isinstance(v, SymBytes):
        return conc_bytes(v, m)
    if isinstance(v, SymBA):
        return bytearray(concretize(v.b, m))
    if isinstance(v, SymStr):
        return "".join(conc_part(q, m) for q in v.parts)
    if isinstance(v, list):
        return [concretize(x, m) for x in v]
    if isinstance(v, tuple):
        return tuple(concretize(x, m) for x in v)
    if isinstance(v, dict):
        return {k: concretize(x, m) for k, x in v.items()}
    if isinstance(v, I.Sym) and hasattr(v, "dv_concrete"):
        return v.dv_concrete(m)
    return v


def faithful(p, m):
    """the model agrees with CPython on the uninterpreted predicates of the path"""
    for k, t in p.cells.items():
        if type(k) is tuple and k and k[0] == "valid" and type(t) is T:
            try:
                conc_bytes(SymBytes(k[2]), m).decode(k[1])
                v = True
            except UnicodeDecodeError:
                v = False
            if bool(m.ev(t)) != v:
                return False
    return True


def conc_part(q, m):
    if isinstance(q, str):
        return q
    k, t = q[0], q[1]
    if k == "ch":
        return chr(m.ev(t))
    if k == "dec":
        return str(m.ev(t))
    if k == "hex2":
        return f"{m.ev(t):02x}"
    if k == "enc":
        return conc_bytes(SymBytes(q[2]), m).decode(q[1])
    return "?"


def conc_bytes(v, m):
    out = bytearray()
    for s in v.segs:
        if s[0] == "c":
            out.extend((m.ev(x) & 255) if type(x) is T else x for x in s[1])
        else:
            o, n = (m.ev(x) if type(x) is T else x for x in (s[2], s[3]))
            if n > 1 << 17:
                raise Unsupported("model too large to replay")
            out.extend(m.arr(s[1], o + i) for i in range(n))
    return bytes(out)


class ListOf(Dom):
    """list of any number of values item(octet), octet any octet (item: a function of the verified subset)"""

    def __init__(self, item=lambda o: o, lo=0, hi=None, typical=12):
        self.item, self.lo, self.hi, self.typical = item, lo, hi, typical

    def sym(self, p, name):
        from . import seqs
        n = p.int_var(f"len.{name}", self.lo, self.hi)
        v = tm.var("#in", 0, None)
        return seqs.SymList([("l", seqs.Lam(v, [self.item(tm.select(p.fresh(f"arr.{name}"), v))]), 0, n)])

    def sample(self, rnd, i):
        n = self.lo + int(rnd.expovariate(1 / self.typical)) if rnd.random() < .9 else rnd.choice((126, 127, 128, 129, 255, 256, 257))
        n = max(self.lo, n if self.hi is None else min(n, self.hi))
        return [self.item(rnd.randrange(256)) for _ in range(n)]

    def mutate(self, v, rnd, pool):
        w = list(v)
        r = rnd.random()
        if not w or r < .2:
            return self.sample(rnd, 0)
        i = rnd.randrange(len(w))
        if r < .4 and (self.hi is None or len(w) < self.hi):
            w.insert(i, self.item(rnd.randrange(256)))
        elif r < .6 and len(w) > self.lo:
            del w[i]
        else:
            w[i] = self.item(rnd.randrange(256))
        return w


def bit_of(o):
    """ListOf(bit_of): bits"""
    return tm.mod(o, 2) if type(o) is T else o % 2
