"""Calendar dates and times (P06)."""
import datetime
from dv.spec import *
from dv.values import from_items as from_octets

C = repo("types.common_data_types")
O = repo("types.cosem_service_types")
W = {C.Date: 5, C.Time: 4, C.DateTime: 12}


def weekday(y, m, d):
    """1: Monday.  Sakamoto's method"""
    t = (0, 0, 3, 2, 5, 0, 3, 5, 1, 4, 6, 2, 4)
    k = y - 1 if m < 3 else y
    w = (k + k // 4 - k // 100 + k // 400 + t[m] + d) % 7
    return 7 if w == 0 else w


def between(x, lo, hi, *specials):
    return any_of(all_of(lo <= x, x <= hi), *[x == k for k in specials])


def date_ok(y, m, d, w):
    """the calendar: y, m, d, w as they are encoded"""
    if not all_of(between(y, 1, 9999, 0xffff), between(m, 1, 12, 0xfd, 0xfe, 0xff), between(d, 1, 31, 0xfd, 0xfe, 0xff), between(w, 1, 7, 0xff)):
        return False
    long = any_of(m == 1, m == 3, m == 5, m == 7, m == 8, m == 10, m >= 12)
    leap = any_of(y == 0xffff, all_of(y % 4 == 0, any_of(y % 100 != 0, y % 400 == 0)))
    if not any_of(d <= 28, d > 31, long, all_of(d <= 30, m != 2), all_of(d == 29, leap)):
        return False
    if any_of(y == 0xffff, w == 0xff, m > 12, d > 31):
        return True
    return datetime.date(y, m, d).isoweekday() == w


def time_ok(h, mi, s, f):
    return all_of(between(h, 0, 23, 0xff), between(mi, 0, 59, 0xff), between(s, 0, 59, 0xff), between(f, 0, 99, 0xff))


def fields(cls, b):
    """(date octets or nothing, time octets or nothing)"""
    if cls is C.Time:
        return None, b
    return b[:5], None if cls is C.Date else b[5:9]


def octets_ok(cls, b):
    d, t = fields(cls, b)
    if t is not None and not time_ok(t[0], t[1], t[2], t[3]):
        return False
    return d is None or date_ok(d[0] * 256 + d[1], d[2], d[3], d[4])


class Near(Bytes):
    """octets of a calendar type, sampled near the valid ones"""

    def __init__(self, n, valid=False):
        super().__init__(n, n)
        self.valid = valid

    def sample(self, rnd, i):
        def some(lo, hi, special):
            r = rnd.random()
            return rnd.choice(special) if r < .3 else rnd.choice((lo, hi)) if r < .45 else rnd.randint(lo, hi) if r < .95 or self.valid else rnd.randrange(256)
        y = rnd.choice((0xffff, 1, 4, 100, 400, 1900, 1999, 2000, 2023, 2024, 9999, rnd.randint(1, 9999))) if rnd.random() < .97 or self.valid else rnd.randrange(65536)
        m, d, w = some(1, 12, (0xff, 0xfe, 0xfd, 2)), some(1, 31, (0xff, 0xfe, 0xfd, 28, 29, 30)), some(1, 7, (0xff,))
        t = [some(0, 23, (0xff,)), some(0, 59, (0xff,)), some(0, 59, (0xff,)), some(0, 99, (0xff,))]
        if rnd.random() < .6 and y < 10000 and m < 13 and 0 < d < 29 and m:
            w = weekday(y, m, d)
        dev = rnd.choice((-0x8000, -720, -721, 720, 721, 0, -1, 1, 180, -180, rnd.randint(-720, 720))) & 0xffff
        b = bytes([y >> 8, y & 255, m, d, w] + t + [dev >> 8, dev & 255, rnd.choice((0, 0xff, 0x80, rnd.randrange(256)))])
        n = self.lo
        return b[5:9] if n == 4 else b[:n] if n <= 12 else bytes((0x19,)) + b[:n - 1]


def special(p, name, lo, hi, *vals):
    """an octet lo..hi or one of the special values (case split)"""
    k = p.choose(1 + len(vals))
    return vals[k - 1] if k else p.int_var(name, lo, hi)


class Valid(Near):
    """octets that can be valid: every field in its range or one of its special values (a superset of octets_ok)"""

    def __init__(self, n):
        super().__init__(n, True)

    def sym(self, p, name):
        out = []
        if self.lo != 4:
            if p.choose(2):
                out += [0xff, 0xff]
            else:
                out += [p.int_var(f"{name}.0", 0, 39), p.int_var(f"{name}.1", 0, 255)]
            out += [special(p, f"{name}.2", 1, 12, 0xfd, 0xfe, 0xff), special(p, f"{name}.3", 1, 31, 0xfd, 0xfe, 0xff), special(p, f"{name}.4", 1, 7, 0xff)]
        if self.lo != 5:
            out += [special(p, f"{name}.{k}", 0, n, 0xff) for k, n in ((5, 23), (6, 59), (7, 59), (8, 99))]
        if self.lo == 12:
            out += [p.int_var(f"{name}.{k}", 0, 255) for k in (9, 10, 11)]
        return from_octets(out)

    def admits(self, v):
        return octets_ok({5: C.Date, 4: C.Time, 12: C.DateTime}[self.lo], v)


@contract("P06", b=Near(12))
def valid_octets(b):
    """the domain Valid covers every valid value"""
    require(octets_ok(C.DateTime, b))
    ensure(b[0] <= 39 or b[0] == b[1] == 0xff, "year")
    ensure(1 <= b[2] <= 12 or b[2] >= 0xfd, "month")
    ensure(1 <= b[3] <= 31 or b[3] >= 0xfd, "day")
    ensure(1 <= b[4] <= 7 or b[4] == 0xff, "week day")
    for k, n in ((5, 23), (6, 59), (7, 59), (8, 99)):
        ensure(b[k] <= n or b[k] == 0xff, "time")


@contract("P06", cls=Each(C.Date, C.Time, C.DateTime), b=Bytes(0, 14, kind="bytearray"))
def calendar_width(cls, b):
    """raw contents of another width are refused"""
    require(len(b) != W[cls])
    ensure(attempt(cls, b).raised(ValueError), "refused with ValueError")


@contract("P06", cls=Each(C.Date, C.Time, C.DateTime), b=Bytes(0))
def calendar_encoding(cls, b):
    """encodings of another type, or too short ones, are refused"""
    require(b[:1] != bytes(cls.TAG) or len(b) <= W[cls])
    ensure(attempt(cls, b).raised(ValueError), "refused with ValueError")


def octets_contract(cls, b, rest):
    o = attempt(cls, bytearray(b))
    ensure(o.ok == octets_ok(cls, b), "exactly the calendar values are accepted")
    p = attempt(cls, bytes(cls.TAG) + b + rest)
    ensure(p.ok == o.ok, "the same octets are accepted in an encoding")
    if o.ok:
        ensure(o.value.contents == b, "contents")
        ensure(o.value.encoding == bytes(cls.TAG) + b, "encoding")
        ensure(p.value.contents == b and type(p.value) is cls, "contents from the encoding, followed by anything")
    else:
        ensure(o.raised(ValueError) and p.raised(ValueError), "refused with ValueError")


@contract("P06", b=Near(5), rest=Bytes(0))
def date_octets(b, rest):
    octets_contract(C.Date, b, rest)


@contract("P06", b=Near(4), rest=Bytes(0))
def time_octets(b, rest):
    octets_contract(C.Time, b, rest)


@contract("P06", b=Near(12), rest=Bytes(0))
def datetime_octets(b, rest):
    octets_contract(C.DateTime, b, rest)


# ---------------------------------------------------------------- readers

def holding(cls, b):
    """a value with these contents"""
    v = cls()
    v.__dict__["contents"] = b
    return v


def reads(v, name, x, lo, hi, specials=()):
    o = attempt(getattr, v, name)
    if x == 0xff:
        ensure(o.ok and o.value is None, name + ": unspecified")
    elif lo <= x <= hi:
        ensure(o.ok and o.value == x, name + ": value")
    else:
        ensure(o.raised(ValueError), name + ": other octets are not read as a value")


@contract("P06", cls=Each(C.Date, C.DateTime), b=Bytes(12, 12))
def date_readers(cls, b):
    v = holding(cls, b[:W[cls]])
    y = b[0] * 256 + b[1]
    r = v.year
    if y == 0xffff:
        ensure(r is None, "year: unspecified")
    else:
        ensure(r == y, "year: value")
    reads(v, "month", b[2], 1, 12)
    reads(v, "day", b[3], 1, 31)
    reads(v, "weekday", b[4], 1, 7)


@contract("P06", cls=Each(C.Time, C.DateTime), b=Bytes(12, 12))
def time_readers(cls, b):
    v = holding(cls, b[5:9] if cls is C.Time else b)
    reads(v, "hour", b[5], 0, 23)
    reads(v, "minute", b[6], 0, 59)
    reads(v, "second", b[7], 0, 59)
    reads(v, "hundredths", b[8], 0, 99)


# ---------------------------------------------------------------- setters

def with_octets(b, k, new):
    return b[:k] + new + b[k + len(new):]


SETTERS = {"year": (0, 1, 9999), "month": (2, 1, 12), "day": (3, 1, 31), "weekday": (4, 1, 7),
           "hour": (5, 0, 23), "minute": (6, 0, 59), "hundredths": (8, 0, 99)}


def setter_contract(cls, name, b, x):
    k, lo, hi = SETTERS[name]
    wide = 2 if name == "year" else 1
    none = 0xffff if name == "year" else 0xff
    if cls is C.Time:
        k -= 5
    v = holding(cls, b)
    o = attempt(getattr(v, "set_" + name), x)
    if lo <= x <= hi or x == none:
        c = with_octets(b, k, x.to_bytes(wide, "big"))
        ensure(o.ok == octets_ok(cls, c), "accepted if the result is a calendar value")
        ensure(v.contents == (c if o.ok else b), "only the field changes")
    else:
        ensure(not o.ok and v.contents == b, "a value out of range is refused")
    if not o.ok:
        ensure(o.raised(ValueError), "refused with ValueError")


@contract("P06", cls=Each(C.Date, C.DateTime), name=Each("year", "month", "day", "weekday"), b=Near(12, True), x=Int())
def date_setters(cls, name, b, x):
    b = b[:W[cls]]
    require(octets_ok(cls, b))
    setter_contract(cls, name, b, x)


@contract("P06", cls=Each(C.Time, C.DateTime), name=Each("hour", "minute", "hundredths"), b=Near(12, True), x=Int())
def time_setters(cls, name, b, x):
    b = b if cls is C.DateTime else b[5:9]
    require(octets_ok(cls, b))
    setter_contract(cls, name, b, x)


@contract("P06", b=Near(12, True), x=Int())
def clock_status_setter(b, x):
    v = holding(C.DateTime, b)
    o = attempt(v.set_clock_status, x)
    ensure(o.ok == (0 <= x <= 255), "an octet is accepted")
    ensure(v.contents == (b[:11] + bytes((x,)) if o.ok else b), "only the status changes")
    if not o.ok:
        ensure(o.raised(ValueError, OverflowError), "other values are refused")


# ---------------------------------------------------------------- texts

@contract("P06", b=Valid(5))
def date_text(b):
    require(octets_ok(C.Date, b))
    v = C.Date(bytearray(b))
    ensure(C.Date(str(v)).contents == b, "text form parses back")


@contract("P06", b=Valid(4))
def time_text(b):
    require(octets_ok(C.Time, b))
    v = C.Time(bytearray(b))
    ensure(C.Time(str(v)).contents == b, "text form parses back")


@contract("P06", b=Valid(5), rest=Bytes(7, 7))
def date_part_text(b, rest):
    require(octets_ok(C.Date, b))
    t = holding(C.DateTime, b + rest).strfdate
    ensure(" " not in t, "no space")
    ensure(C.DateTime.strpdate(t) == b, "date part of the text parses back")


@contract("P06", b=Valid(4), head=Bytes(5, 5), rest=Bytes(3, 3))
def time_part_text(b, head, rest):
    require(octets_ok(C.Time, b))
    t = holding(C.DateTime, head + b + rest).strftime
    ensure(" " not in t, "no space")
    ensure(C.DateTime.strptime(t) == b, "time part of the text parses back")


def getter(cls, name):
    q = getattr(cls, name, None)
    return q.fget if isinstance(q, property) else None


def date_written(v):
    precondition(octets_ok(C.Date, v.contents[:5]), "strfdate")
    return token("date", v.contents[:5], " ")


def time_written(v):
    precondition(time_ok(v.contents[5], v.contents[6], v.contents[7], v.contents[8]), "strftime")
    return token("time", v.contents[5:9], " ")


def date_read(t):
    v = token_value(t, "date")
    return NotImplemented if v is None else v


def time_read(t):
    v = token_value(t, "time")
    return NotImplemented if v is None else v


PARTS = (Callee(getter(C.DateTime, "strfdate"), "date_part_text", date_written), Callee(getattr(C.DateTime, "strpdate", None), "date_part_text", date_read),
         Callee(getter(C.DateTime, "strftime"), "time_part_text", time_written), Callee(getattr(C.DateTime, "strptime", None), "time_part_text", time_read))


@contract("P06", b=Near(12, True), uses=PARTS)
def datetime_text(b):
    """the text form has no clock status: it is unspecified afterwards"""
    require(octets_ok(C.DateTime, b))
    dev = int.from_bytes(b[9:11], "big", signed=True)
    require(between(dev, -720, 720, -0x8000))
    v = C.DateTime(bytearray(b))
    ensure(C.DateTime(str(v)).contents == b[:11] + bytes((0xff,)), "text form parses back")


# parts left out of a text

def written(form, parts, blank):
    """the text of a form: its letters stand for numbers (nothing or underscores for one that is left open)"""
    t = ""
    for c in form:
        t += c if c not in parts else blank if parts[c] is None else str(parts[c])
    return t


def given(form, parts, c):
    return parts[c] if c in form and parts[c] is not None else 0xff


@contract("P06", form=Each("d", "d.m", "d.m.y", "d.m-w", "w-d.m", "d.m.y-w", "w-d.m.y"), blank=Each("", "__"),
          d=Opt(Int(0, 99)), m=Opt(Int(0, 99)), y=Opt(Int(0, 9999)), w=Opt(Int(0, 99)))
def date_text_parts(form, blank, d, m, y, w):
    """parts left out of the text of a date are unspecified, the others are taken as numbers"""
    parts = {"d": d, "m": m, "y": y, "w": w}
    require(all_of(*[c in form or parts[c] is None for c in parts]))
    o = attempt(C.Date.strpdate, written(form, parts, blank))
    day, month, year, wday = given(form, parts, "d"), given(form, parts, "m"), given(form, parts, "y"), given(form, parts, "w")
    ensure(o.ok == all_of(between(day, 1, 31, 0xff), between(month, 1, 12, 0xff), between(wday, 1, 7, 0xff)), "calendar numbers taken, others refused")
    if o.ok:
        century = 0xffff if "y" not in form or y is None else y + 2000 if y < 100 else y
        ensure(o.value == century.to_bytes(2, "big") + bytes((month, day, wday)), "octets")
    else:
        ensure(o.raised(ValueError), "refused with ValueError")


@contract("P06", form=Each("H", "H:M", "H:M:S", "H:M:S.f", "M:S.f", "S.f"), blank=Each("", "__"),
          H=Opt(Int(0, 999)), M=Opt(Int(0, 999)), S=Opt(Int(0, 999)), f=Opt(Int(0, 999)))
def time_text_parts(form, blank, H, M, S, f):
    """parts left out of the text of a time are unspecified, the others are taken as numbers"""
    parts = {"H": H, "M": M, "S": S, "f": f}
    require(all_of(*[c in form or parts[c] is None for c in parts]))
    o = attempt(C.Time.strptime, written(form, parts, blank))
    e = [300 if given(form, parts, c) == 0xff and parts[c] is not None else given(form, parts, c) for c in "HMSf"]
    ensure(o.ok == all_of(between(e[0], 0, 23, 0xff), between(e[1], 0, 59, 0xff), between(e[2], 0, 59, 0xff), between(e[3], 0, 99, 0xff)), "clock numbers taken, others refused")
    if o.ok:
        ensure(o.value == bytes(e), "octets")
    else:
        ensure(o.raised(ValueError), "refused with ValueError")


@contract("P06", b=Near(12, True), dev=Int(-99999, 99999), uses=PARTS)
def datetime_text_parts(b, dev):
    """a date-time's text without a time or a deviation leaves them unspecified"""
    require(octets_ok(C.DateTime, b))
    v = C.DateTime(bytearray(b))
    date, time = v.strfdate, v.strftime
    ensure(C.DateTime(date).contents == b[:5] + bytes((0xff, 0xff, 0xff, 0xff, 0x80, 0, 0xff)), "date only")
    ensure(C.DateTime(date + " " + time).contents == b[:9] + bytes((0x80, 0, 0xff)), "date and time")
    o = attempt(C.DateTime, date + " " + time + " " + str(dev))
    ensure(o.ok == between(dev, -720, 720), "deviations of at most twelve hours")
    if o.ok:
        ensure(o.value.contents == b[:9] + dev.to_bytes(2, "big", signed=True) + bytes((0xff,)), "deviation")
    else:
        ensure(o.raised(ValueError), "refused with ValueError")


@contract("P06", b=Near(12, True), uses=PARTS)
def wrapped_datetime_text(b):
    require(octets_ok(C.DateTime, b) and between(int.from_bytes(b[9:11], "big", signed=True), -720, 720, -0x8000))
    t = str(C.DateTime(bytearray(b)))
    v = O.OctetStringDateTime(t)
    ensure(type(v) is O.OctetStringDateTime and v.contents == b[:11] + bytes((0xff,)), "text form parses back")
    ensure(v.encoding == bytes((9, 12)) + v.contents, "encoding")


@contract("P06", b=Valid(5))
def wrapped_date_text(b):
    require(octets_ok(C.Date, b))
    v = O.OctetStringDate(bytearray(b))
    w = O.OctetStringDate(str(v))
    ensure(w.contents == b and w.encoding == bytes((9, 5)) + b, "text form parses back")


@contract("P06", b=Valid(4))
def wrapped_time_text(b):
    require(octets_ok(C.Time, b))
    v = O.OctetStringTime(bytearray(b))
    w = O.OctetStringTime(str(v))
    ensure(w.contents == b and w.encoding == bytes((9, 4)) + b, "text form parses back")


# ---------------------------------------------------------------- host dates and times (P07)

class Host(Dom):
    """every host date, time or date-time (whole-minute offset of at most half a day, or none)"""

    def __init__(self, kind, zoned=None):
        self.kind, self.zoned = kind, zoned

    def sym(self, p, name):
        from dv import dates as D
        f = {}
        if self.kind is not datetime.time:
            f.update(year=p.int_var(name + ".year", 1, 9999), month=p.int_var(name + ".month", 1, 12), day=p.int_var(name + ".day", 1, 31))
            p.assume(D.valid_date(f["year"], f["month"], f["day"]))
        if self.kind is not datetime.date:
            f.update(hour=p.int_var(name + ".hour", 0, 23), minute=p.int_var(name + ".minute", 0, 59), second=p.int_var(name + ".second", 0, 59),
                     microsecond=p.int_var(name + ".us", 0, 999999), tzinfo=None)
            if self.zoned:
                f["tzinfo"] = D.SymTz(D.SymDelta(p.int_var(name + ".offset", -720, 720), D.US["minutes"]))
        return D.Date(self.kind, **f)

    def sample(self, rnd, i):
        f = {}
        if self.kind is not datetime.time:
            d = datetime.date.fromordinal(rnd.choice((1, 366, 730119, datetime.date(2024, 2, 29).toordinal(), datetime.date.max.toordinal(), rnd.randint(1, 3652059))))
            f.update(year=d.year, month=d.month, day=d.day)
        if self.kind is not datetime.date:
            f.update(hour=rnd.choice((0, 23, rnd.randrange(24))), minute=rnd.choice((0, 59, rnd.randrange(60))), second=rnd.choice((0, 59, rnd.randrange(60))),
                     microsecond=rnd.choice((0, 9999, 10000, 999999, rnd.randrange(10 ** 6))), tzinfo=None)
            if self.zoned:
                f["tzinfo"] = datetime.timezone(datetime.timedelta(minutes=rnd.choice((0, -1, 1, -720, 720, 180, -180, rnd.randint(-720, 720)))))
        return self.kind(**f)


def same_ymd(a, b):
    return all_of(a.year == b.year, a.month == b.month, a.day == b.day)


def same_hms(a, b):
    return all_of(a.hour == b.hour, a.minute == b.minute, a.second == b.second, a.microsecond == b.microsecond // 10000 * 10000)


@contract("P07", t=Host(datetime.datetime, True))
def host_datetime(t):
    """a host date-time with an offset (resolution of a hundredth of a second)"""
    v = C.DateTime(t)
    r = v.decode()
    ensure(same_ymd(r, t), "date")
    ensure(same_hms(r, t), "time of day")
    ensure(r.utcoffset() == t.utcoffset(), "offset")
    ensure(v.time_zone.utcoffset(None) == t.utcoffset(), "time zone")
    ensure(all_of(v.year == t.year, v.month == t.month, v.day == t.day, v.hour == t.hour, v.minute == t.minute, v.second == t.second), "fields")
    ensure(v.hundredths == t.microsecond // 10000, "hundredths")
    c = v.contents
    ensure(int.from_bytes(c[9:11], "big", signed=True) * datetime.timedelta(minutes=1) == t.utcoffset(), "deviation in the octets")
    ensure(c[11] == 0xff and c[4] in (0xff, t.isoweekday()), "status unspecified, week day unspecified or right")


@contract("P07", t=Host(datetime.datetime, False))
def host_datetime_without_offset(t):
    v = C.DateTime(t)
    r = v.decode()
    ensure(same_ymd(r, t) and same_hms(r, t), "date and time")
    ensure(v.time_zone is None, "no time zone")
    ensure(v.contents[9:11] == bytes((0x80, 0)), "deviation unspecified")


@contract("P07", d=Host(datetime.date))
def host_date(d):
    v = C.Date(d)
    ensure(same_ymd(v.decode(), d), "date")
    ensure(v.contents == d.year.to_bytes(2, "big") + bytes((d.month, d.day, d.isoweekday())), "octets")
    w = C.DateTime(d)
    ensure(same_ymd(w.decode(), d), "date in a date-time")
    ensure(w.contents == v.contents + bytes((0xff, 0xff, 0xff, 0xff, 0x80, 0, 0xff)), "the rest is unspecified")
    ensure(w.time_zone is None and w.hour is None and w.minute is None and w.second is None and w.hundredths is None, "unspecified fields")


@contract("P07", t=Host(datetime.time))
def host_time(t):
    v = C.Time(t)
    ensure(same_hms(v.decode(), t), "time of day")
    ensure(v.contents == bytes((t.hour, t.minute, t.second, t.microsecond // 10000)), "octets")
    w = C.DateTime(t)
    ensure(w.contents == bytes((0xff, 0xff, 0xff, 0xff, 0xff)) + v.contents + bytes((0x80, 0, 0xff)), "the rest of a date-time is unspecified")


@contract("P07", t=Host(datetime.datetime, True))
def host_datetime_parts(t):
    """a date-time given for a date or a time"""
    ensure(same_ymd(C.Date(t).decode(), t), "date")
    ensure(same_hms(C.Time(t).decode(), t), "time of day")


@contract("P07", b=Near(12, True))
def datetime_offset(b):
    """the offset of an encoded date-time"""
    require(octets_ok(C.DateTime, b))
    require(not all_of(b[0] == 0xff, b[2] == 2, b[3] == 29))
    dev = int.from_bytes(b[9:11], "big", signed=True)
    v = C.DateTime(bytearray(b))
    z = attempt(getattr, v, "time_zone")
    if dev == -0x8000:
        ensure(z.ok and z.value is None, "unspecified")
        ensure(v.decode().utcoffset() == datetime.timedelta(0), "an unspecified deviation is decoded as UTC")
    elif -720 <= dev <= 720:
        ensure(z.ok and z.value.utcoffset(None) == datetime.timedelta(minutes=dev), "time zone")
        ensure(v.decode().utcoffset() == datetime.timedelta(minutes=dev), "offset")
    else:
        ensure(z.raised(ValueError), "a deviation out of range is refused")


@contract("P07", b=Near(12, True))
def datetime_decoding(b):
    """fully specified fields appear unchanged in the host date-time; unspecified ones take their lowest value
    (29 February of an unspecified year has no host date: it is refused)"""
    require(octets_ok(C.DateTime, b))
    dev = int.from_bytes(b[9:11], "big", signed=True)
    require(between(dev, -720, 720, -0x8000))
    y, m, d = b[0] * 256 + b[1], b[2], b[3]
    if all_of(m == 2, d == 29, y == 0xffff):
        ensure(attempt(C.DateTime(bytearray(b)).decode).raised(ValueError), "no such day")
        return
    r = C.DateTime(bytearray(b)).decode()
    ensure(r.year == (1 if y == 0xffff else y), "year")
    ensure(r.month == (1 if m > 12 else m), "month")
    ensure(r.day == (1 if d > 31 else d), "day")
    ensure(r.hour == (0 if b[5] == 0xff else b[5]), "hour")
    ensure(r.minute == (0 if b[6] == 0xff else b[6]), "minute")
    ensure(r.second == (0 if b[7] == 0xff else b[7]), "second")
    ensure(r.microsecond == (0 if b[8] == 0xff else b[8] * 10000), "hundredths")


@contract("P07", b=Near(5, True))
def date_decoding(b):
    require(octets_ok(C.Date, b))
    y, m, d = b[0] * 256 + b[1], b[2], b[3]
    require(not all_of(m == 2, d == 29, y == 0xffff))
    r = C.Date(bytearray(b)).decode()
    ensure(r.year == (1 if y == 0xffff else y) and r.month == (1 if m > 12 else m) and r.day == (1 if d > 31 else d), "date")


@contract("P07", b=Near(4, True))
def time_decoding(b):
    require(octets_ok(C.Time, b))
    r = C.Time(bytearray(b)).decode()
    ensure(r.hour == (0 if b[0] == 0xff else b[0]) and r.minute == (0 if b[1] == 0xff else b[1]), "hour and minute")
    ensure(r.second == (0 if b[2] == 0xff else b[2]) and r.microsecond == (0 if b[3] == 0xff else b[3] * 10000), "second and hundredths")


WRAPPED = {O.OctetStringDateTime: (C.DateTime, 12), O.OctetStringDate: (C.Date, 5), O.OctetStringTime: (C.Time, 4)}


@contract("P06", cls=Each(*WRAPPED), data=Bytes(0, 40))
def wrapped_encoding(cls, data):
    """a date or time as octet string: exactly encodings with the octet string's tag and size are taken"""
    inner, n = WRAPPED[cls]
    require(data[:2] != bytes([9, n]) or len(data) < n + 2)
    ensure(attempt(cls, data).raised(ValueError), "wrong tag, wrong length or too few octets refused")


@contract("P06", cls=Each(*WRAPPED), b=Near(12), rest=Bytes())
def wrapped_octets(cls, b, rest):
    """a date or time as octet string carries the octets the plain type carries"""
    inner, n = WRAPPED[cls]
    c = b[5:9] if n == 4 else b[:n]
    o = attempt(inner, bytearray(c))
    p = attempt(cls, bytes([9, n]) + c + rest)
    ensure(o.ok == p.ok, "the same octets are accepted")
    if p.ok:
        ensure(type(p.value) is cls and p.value.contents == c, "contents")
        ensure(p.value.encoding == bytes([9, n]) + c, "encoding")
        w = p.value.copy()
        ensure(type(w) is cls and w == p.value, "copy")
    else:
        ensure(p.raised(ValueError), "refused with ValueError")


@contract("P06", cls=Each(*WRAPPED))
def wrapped_default(cls):
    inner, n = WRAPPED[cls]
    v = cls()
    ensure(v.encoding == bytes([9, n]) + v.contents and len(v.contents) == n, "encoding of the default")
