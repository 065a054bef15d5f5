"""Models of datetime.date / time / datetime / timedelta / timezone with symbolic fields (proleptic Gregorian calendar)."""
from __future__ import annotations
import ast
import datetime as dt
from math import gcd
from . import terms as tm
from . import interp as I
from . import models as M
from .terms import T
from .engine import Unsupported, Raised, current
from .interp import Sym, BoundModel
from .models import model

DIM = (0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)
DBM = (0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)


def add(*xs):
    r = 0
    for x in xs:
        r = tm.add(r, x)
    return r


def leap(y):
    return tm.and_(tm.eq(tm.mod(y, 4), 0), tm.or_(tm.ne(tm.mod(y, 100), 0), tm.eq(tm.mod(y, 400), 0)))


def dim(y, m):
    return add(tm.lut(DIM, m), tm.ite(tm.and_(tm.eq(m, 2), leap(y)), 1, 0))


def valid_date(y, m, d):
    """no obligation to stay within lut ranges: the month condition is checked first"""
    a = tm.and_(tm.le(1, y), tm.le(y, 9999), tm.le(1, m), tm.le(m, 12), tm.le(1, d), tm.le(d, 31))
    short = tm.or_(tm.and_(tm.eq(d, 31), tm.or_(*[tm.eq(m, k) for k in (2, 4, 6, 9, 11)])),
                   tm.and_(tm.eq(m, 2), tm.or_(tm.eq(d, 30), tm.and_(tm.eq(d, 29), tm.not_(leap(y))))))
    return tm.and_(a, tm.not_(short))


def toordinal(y, m, d):
    y1 = tm.sub(y, 1)
    return add(tm.scale(y1, 365) if type(y1) is T else y1 * 365, tm.div(y1, 4), tm.neg(tm.div(y1, 100)), tm.div(y1, 400),
               tm.lut(DBM, m), tm.ite(tm.and_(tm.gt(m, 2), leap(y)), 1, 0), d)


def scale(x, k):
    return tm.scale(x, k) if type(x) is T else x * k


def idx(x):
    if isinstance(x, float) or (isinstance(x, Sym) and x.dv_type is float):
        raise Raised(TypeError("integer argument expected, got float"))
    return I.as_int(M.index(x)) if type(x) is T else M.index(x)


def need(c, what):
    if not current().branch(c):
        raise Raised(ValueError(what))


def closed(*xs):
    return all(type(x) is not T for x in xs)


class FloatInt(Sym):
    """a float that is exactly a small integer"""
    dv_type = float

    def __init__(self, n):
        self.n = n

    def dv_int(self):
        return self.n

    def dv_concrete(self, m):
        return float(m.ev(self.n))

    def dv_getattr(self, name):
        if name == "is_integer":
            return BoundModel(lambda s: True, self, name)
        raise Unsupported(f"float.{name}")

    def dv_binop(self, op, o, r):
        if isinstance(o, float) and o.is_integer():
            o = int(o)
        if isinstance(o, FloatInt):
            o = o.n
        if not (type(o) is T or isinstance(o, int)):
            raise Unsupported("arithmetic on a symbolic float")
        a, b = (o, self.n) if r else (self.n, o)
        if op in (ast.Add, ast.Sub):
            return FloatInt(tm.add(a, b) if op is ast.Add else tm.sub(a, b))
        if op is ast.Mult and (type(a) is not T or type(b) is not T):
            return FloatInt(scale(a, b) if type(a) is T else scale(b, a))
        if type(b) is int and b > 0:
            if op is ast.FloorDiv:
                return FloatInt(tm.div(a, b))
            if op is ast.Mod:
                return FloatInt(tm.mod(a, b))
            if op is ast.Div and current().entails(tm.eq(tm.mod(a, b), 0)):
                return FloatInt(tm.div(a, b))
        raise Unsupported("arithmetic on a symbolic float")

    def dv_eq(self, o):
        o = o.n if isinstance(o, FloatInt) else o
        return tm.eq(self.n, o) if type(o) is T or isinstance(o, int) else False if not isinstance(o, float) else tm.eq(self.n, int(o)) if o.is_integer() else False

    def dv_cmp(self, n, o):
        o = o.n if isinstance(o, FloatInt) else o
        if isinstance(o, float) and o.is_integer():
            o = int(o)
        if type(o) is T or isinstance(o, int):
            return getattr(tm, n)(self.n, o)
        raise Unsupported("comparison of a symbolic float")

    def dv_truth(self):
        return tm.ne(self.n, 0)


# ---------------------------------------------------------------- durations

US = {"weeks": 7 * 86400 * 10 ** 6, "days": 86400 * 10 ** 6, "hours": 3600 * 10 ** 6, "minutes": 60 * 10 ** 6, "seconds": 10 ** 6,
      "milliseconds": 1000, "microseconds": 1}
DAY = US["days"]


class SymDelta(Sym):
    """n times unit microseconds"""
    dv_type = dt.timedelta

    def __init__(self, n, unit):
        self.n, self.unit = n, unit

    def us(self):
        return scale(self.n, self.unit)

    def dv_concrete(self, m):
        return dt.timedelta(microseconds=m.ev(self.n) * self.unit)

    def dv_getattr(self, name):
        if name == "days":
            return rdiv(self.n, self.unit, DAY)
        if name == "seconds":
            return rdiv(rmod(self.n, self.unit, DAY), gcd(self.unit, DAY), 10 ** 6)
        if name == "microseconds":
            return scale(rmod(self.n, self.unit, 10 ** 6), gcd(self.unit, 10 ** 6)) if self.unit % 10 ** 6 else 0
        if name == "total_seconds":
            if self.unit % 10 ** 6 == 0:
                return BoundModel(lambda s: FloatInt(scale(s.n, s.unit // 10 ** 6)), self, name)
            raise Unsupported("total_seconds of fractions")
        if name == "__class__":
            return dt.timedelta
        raise Unsupported(f"timedelta.{name}")

    def dv_eq(self, o):
        o = delta(o)
        return False if o is None else tm.eq(*both_us(self, o))

    def dv_cmp(self, n, o):
        o = delta(o)
        if o is None:
            return NotImplemented
        return getattr(tm, n)(*both_us(self, o))

    def dv_truth(self):
        return tm.ne(self.n, 0)

    def dv_unop(self, op):
        return self if op is ast.UAdd else SymDelta(tm.neg(self.n), self.unit)

    def dv_abs(self):
        return SymDelta(tm.ite(tm.lt(self.n, 0), tm.neg(self.n), self.n), self.unit)

    def dv_binop(self, op, o, r):
        d = delta(o)
        if d is not None:
            g = gcd(self.unit, d.unit)
            a, b = scale(self.n, self.unit // g), scale(d.n, d.unit // g)
            if r:
                a, b = b, a
            if op is ast.Add:
                return mk_delta(tm.add(a, b), g)
            if op is ast.Sub:
                return mk_delta(tm.sub(a, b), g)
            if type(b) is not T and b > 0:
                if op is ast.FloorDiv:
                    return tm.div(a, b)
                if op is ast.Mod:
                    return mk_delta(tm.mod(a, b), g)
                if op is ast.Div and current().entails(tm.eq(tm.mod(a, b), 0)):
                    return FloatInt(tm.div(a, b))
            raise Unsupported("timedelta arithmetic")
        if op is ast.Mult and isinstance(o, int):
            return mk_delta(scale(self.n, o), self.unit)
        if op is ast.Mult and type(o) is T and type(self.n) is not T:
            return mk_delta(scale(o, self.n), self.unit)
        if op is ast.FloorDiv and not r and isinstance(o, int) and o > 0:
            return mk_delta(tm.div(self.us(), o), 1)
        if isinstance(o, Date) or isinstance(o, (dt.date, dt.time)):
            raise Unsupported("date arithmetic")
        return NotImplemented


def both_us(a, b):
    g = gcd(a.unit, b.unit)
    return scale(a.n, a.unit // g), scale(b.n, b.unit // g)


def rdiv(n, unit, k):
    """floor(n * unit / k)"""
    g = gcd(unit, k)
    return tm.div(scale(n, unit // g), k // g)


def rmod(n, unit, k):
    """(n * unit mod k) / gcd(unit, k)"""
    g = gcd(unit, k)
    return tm.mod(scale(n, unit // g), k // g)


def delta(o):
    if isinstance(o, SymDelta):
        return o
    if isinstance(o, dt.timedelta):
        us = o // dt.timedelta(microseconds=1)
        for u in ("days", "hours", "minutes", "seconds", "milliseconds"):
            if us % US[u] == 0:
                return SymDelta(us // US[u], US[u])
        return SymDelta(us, 1)
    return None


I.NATIVE_LIFT[dt.timedelta] = delta


def mk_delta(n, unit):
    if type(n) is not T:
        return dt.timedelta(microseconds=n * unit)
    p = current()
    lo, hi = p.interval(n)
    lim = 10 ** 9 * DAY // unit - 1
    if lo is None or hi is None or lo < -lim or hi > lim:
        if not p.branch(tm.and_(tm.lt(-lim, n), tm.lt(n, lim))):
            raise Raised(OverflowError("timedelta out of range"))
    return SymDelta(n, unit)


@model(dt.timedelta)
def m_timedelta(*a, **k):
    names = ("days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks")
    k = {**dict(zip(names, a)), **k}
    if not I.deep_sym(tuple(k.values())):
        return M.native(dt.timedelta, (), k)
    unit, parts = 0, []
    for n, v in k.items():
        if isinstance(v, FloatInt):
            v = v.n
        if isinstance(v, float) and v.is_integer():
            v = int(v)
        if not (type(v) is T or isinstance(v, int)):
            raise Unsupported("timedelta of a fraction")
        if type(v) is T:
            v = I.as_int(v)
        if type(v) is not T and v == 0:
            continue
        unit = gcd(unit, US[n])
        parts.append((v, US[n]))
    return mk_delta(add(*[scale(v, u // unit) for v, u in parts]), unit)


class SymTz(Sym):
    """datetime.timezone with a symbolic offset"""
    dv_type = dt.timezone

    def __init__(self, off):
        self.off = off

    def dv_concrete(self, m):
        return dt.timezone(self.off.dv_concrete(m))

    def dv_getattr(self, name):
        if name == "utcoffset":
            return BoundModel(lambda s, d: s.off, self, name)
        if name == "dst":
            return BoundModel(lambda s, d: None, self, name)
        if name == "__class__":
            return dt.timezone
        raise Unsupported(f"timezone.{name}")

    def dv_eq(self, o):
        if isinstance(o, SymTz):
            return self.off.dv_eq(o.off)
        if isinstance(o, dt.timezone):
            return self.off.dv_eq(o.utcoffset(None))
        return False


@model(dt.timezone)
def m_timezone(off, name=None):
    if not isinstance(off, SymDelta):
        return M.native(dt.timezone, (off,) if name is None else (off, name), {})
    p = current()
    lim = DAY // off.unit if DAY % off.unit == 0 else None
    c = tm.and_(tm.lt(-lim, off.n), tm.lt(off.n, lim)) if lim else tm.and_(tm.lt(-DAY, off.us()), tm.lt(off.us(), DAY))
    need(c, "offset must be a timedelta strictly between -timedelta(hours=24) and timedelta(hours=24)")
    return SymTz(off)


# ---------------------------------------------------------------- dates and times

def offset_of(tz):
    """SymDelta | None"""
    if tz is None:
        return None
    if isinstance(tz, SymTz):
        return tz.off
    if isinstance(tz, dt.timezone):
        return tz.utcoffset(None)
    raise Unsupported("time zone of another kind")


class Date(Sym):
    """date, time or datetime: the fields that the kind has"""

    def __init__(self, kind, **f):
        self.dv_type, self.f = kind, f

    def __repr__(self):
        return f"<{self.dv_type.__name__} {self.f}>"

    def dv_concrete(self, m):
        return self.dv_type(**{k: conc(v, m) for k, v in self.f.items()})

    def ymd(self):
        return self.f["year"], self.f["month"], self.f["day"]

    def key(self):
        """order of two values of the same kind and offset"""
        r = 0
        for k, w in (("year", 1), ("month", 16), ("day", 32), ("hour", 32), ("minute", 64), ("second", 64), ("microsecond", 1 << 20)):
            if k in self.f:
                r = tm.add(scale(r, w), self.f[k])
        return r

    def instant(self):
        off = delta(offset_of(self.f["tzinfo"]))
        g = gcd(off.unit, 1)
        return tm.sub(scale_us(self), scale(off.n, off.unit // g))

    def both(self, o):
        if "hour" not in self.f:
            return self.key(), o.key()
        a, b = offset_of(self.f["tzinfo"]), offset_of(o.f["tzinfo"])
        if (a is None) != (b is None):
            return None
        if a is None or same_offset(a, b):
            return self.key(), o.key()
        if "year" in self.f:
            return self.instant(), o.instant()
        raise Unsupported("comparison of times of different zones")

    def dv_eq(self, o):
        o = lift(o)
        if o is None or o.dv_type is not self.dv_type:
            return False
        r = self.both(o)
        if r is None:
            return False
        if r[0] is r[1]:
            return True
        if "hour" not in self.f or self.f["tzinfo"] is None or same_offset(offset_of(self.f["tzinfo"]), offset_of(o.f["tzinfo"])):
            return tm.and_(*[tm.eq(self.f[k], o.f[k]) for k in self.f if k != "tzinfo"])
        return tm.eq(*r)

    def dv_cmp(self, n, o):
        o = lift(o)
        if o is None or o.dv_type is not self.dv_type:
            return NotImplemented
        r = self.both(o)
        if r is None:
            raise Raised(TypeError("can't compare offset-naive and offset-aware"))
        return getattr(tm, n)(*r)

    def dv_truth(self):
        return True

    def dv_binop(self, op, o, r):
        raise Unsupported("date arithmetic")

    def dv_getattr(self, name):
        f = self.f
        if name in f:
            return f[name]
        if name == "__class__":
            return self.dv_type
        if name == "fold" and "hour" in f:
            return 0

        def b(g):
            return BoundModel(g, self, name)
        if "year" in f:
            if name == "weekday":
                return b(lambda s: tm.mod(tm.add(toordinal(*s.ymd()), 6), 7))
            if name == "isoweekday":
                return b(lambda s: tm.add(tm.mod(tm.add(toordinal(*s.ymd()), 6), 7), 1))
            if name == "toordinal":
                return b(lambda s: toordinal(*s.ymd()))
        if name == "replace":
            return b(replace)
        if "hour" in f and name == "utcoffset":
            return b(lambda s: offset_of(s.f["tzinfo"]))
        if self.dv_type is dt.datetime:
            if name == "date":
                return b(lambda s: make(dt.date, {k: s.f[k] for k in ("year", "month", "day")}))
            if name in ("time", "timetz"):
                z = name == "timetz"
                return b(lambda s: make(dt.time, {**{k: s.f[k] for k in TIME[:4]}, "tzinfo": s.f["tzinfo"] if z else None}))
        if hasattr(self.dv_type, name):
            raise Unsupported(f"{self.dv_type.__name__}.{name}")
        raise Raised(AttributeError(f"'{self.dv_type.__name__}' object has no attribute '{name}'"))


def same_offset(a, b):
    if a is b:
        return True
    a, b = both_us(delta(a), delta(b))
    return a is b or (type(a) is not T and type(b) is not T and a == b)


def scale_us(x):
    y, m, d = x.ymd()
    s = add(scale(toordinal(y, m, d), 86400), scale(x.f["hour"], 3600), scale(x.f["minute"], 60), x.f["second"])
    return tm.add(scale(s, 10 ** 6), x.f["microsecond"])


def conc(v, m):
    if type(v) is T:
        return m.ev(v)
    return v.dv_concrete(m) if isinstance(v, Sym) else v


def lift(o):
    if isinstance(o, Date):
        return o
    if isinstance(o, dt.datetime):
        return Date(dt.datetime, **{k: getattr(o, k) for k in YMD + TIME})
    if isinstance(o, dt.date):
        return Date(dt.date, **{k: getattr(o, k) for k in YMD})
    if isinstance(o, dt.time):
        return Date(dt.time, **{k: getattr(o, k) for k in TIME})
    return None


YMD = ("year", "month", "day")
TIME = ("hour", "minute", "second", "microsecond", "tzinfo")


def make(kind, f):
    if not I.deep_sym(tuple(f.values())):
        return I.natively(kind, (), f)
    return Date(kind, **f)


def check(kind, f):
    f = {k: (v if k == "tzinfo" else idx(v)) for k, v in f.items()}
    if "tzinfo" in f and not (f["tzinfo"] is None or isinstance(f["tzinfo"], (dt.tzinfo, SymTz))):
        raise Raised(TypeError("tzinfo argument must be None or of a tzinfo subclass"))
    if "year" in f:
        need(valid_date(f["year"], f["month"], f["day"]), "date out of range")
    if "hour" in f:
        need(tm.and_(*[tm.and_(tm.le(0, f[k]), tm.lt(f[k], n)) for k, n in
                       (("hour", 24), ("minute", 60), ("second", 60), ("microsecond", 10 ** 6))]), "time out of range")
    return make(kind, f)


def replace(self, *a, **k):
    names = list(self.f)
    k = {**dict(zip(names, a)), **k}
    k.pop("fold", None)
    bad = set(k) - set(names)
    if bad:
        raise Raised(TypeError(f"unexpected keyword {bad}"))
    return check(self.dv_type, {**self.f, **k})


def ctor(kind, names, required, defaults):
    def m(*a, **k):
        if len(a) == 1 and isinstance(a[0], (bytes, str)) and not k:
            return M.native(kind, a, k)
        f = {**defaults, **dict(zip(names, a))}
        for n, v in k.items():
            if n == "fold":
                continue
            if n not in names or n in dict(zip(names, a)):
                raise Raised(TypeError(f"unexpected argument {n}"))
            f[n] = v
        if len(a) > len(names) or any(n not in f for n in names[:required]):
            raise Raised(TypeError(f"wrong number of arguments for {kind.__name__}"))
        f = {n: f[n] for n in names}
        if not I.deep_sym(tuple(f.values())):
            return M.native(kind, (), f)
        return check(kind, f)
    return m


model(dt.date)(ctor(dt.date, YMD, 3, {}))
model(dt.time)(ctor(dt.time, TIME, 0, dict(hour=0, minute=0, second=0, microsecond=0, tzinfo=None)))
model(dt.datetime)(ctor(dt.datetime, YMD + TIME, 3, dict(hour=0, minute=0, second=0, microsecond=0, tzinfo=None)))
# methods of native dates that are given symbolic arguments
for _k in (dt.date, dt.time, dt.datetime):
    def _rep(self, *a, **k):
        return replace(lift(self), *a, **k) if I.deep_sym(a) or I.deep_sym(tuple(k.values())) else M.natively(self.replace, a, k)
    M.METHODS[(_k, "replace")] = _rep
for _k in (dt.timezone,):
    def _off(self, d):
        return self.utcoffset(None)
    M.METHODS[(_k, "utcoffset")] = _off
