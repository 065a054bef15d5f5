"""Application versions (P18)."""
from dv.spec import *

V = repo("version").AppVersion
N = Nat()
P = Opt(Nat())


def rank(p):
    """a missing patch number is before every number"""
    return -1 if p is None else p


def newer(a, b):
    """a, b: (major, minor, patch)"""
    if a[0] != b[0]:
        return a[0] > b[0]
    if a[1] != b[1]:
        return a[1] > b[1]
    return rank(a[2]) > rank(b[2])


def same(a, b):
    return a[0] == b[0] and a[1] == b[1] and rank(a[2]) == rank(b[2])


@contract("P18", a=N, b=N, c=P, d=N, e=N, f=P)
def version_order(a, b, c, d, e, f):
    x, y = (a, b, c), (d, e, f)
    v, w = V(a, b, c), V(d, e, f)
    ensure((v > w) == newer(x, y), "newer")
    ensure((v < w) == newer(y, x), "older")
    ensure((v >= w) == (newer(x, y) or same(x, y)), "newer or the same")
    ensure((v <= w) == (newer(y, x) or same(x, y)), "older or the same")
    ensure((v == w) == same(x, y), "equality")
    ensure((v != w) == (not same(x, y)), "inequality")


@contract("P18", a=N, b=N, c=P, d=N, e=N, f=P, s=Text(0, 1, 2), t=Text(0, 1, 2))
def version_equality(a, b, c, d, e, f, s, t):
    """equality compares the additional text too"""
    ensure((V(a, b, c, s) == V(d, e, f, t)) == (same((a, b, c), (d, e, f)) and s == t), "equality")


@contract("P18", a=N, b=N, c=P)
def version_fields(a, b, c):
    v = V(a, b, c)
    ensure(v.major == a and v.minor == b, "major and minor number")
    ensure(v.patch is None if c is None else v.patch == c, "patch number")
    ensure(hash(v) == hash(V(a, b, c)), "equal versions have equal hashes")


@contract("P18", a=N, b=N, c=P)
def version_text(a, b, c):
    v = V(a, b, c)
    w = V.from_str(str(v))
    ensure(w == v, "the text form parses back")
    ensure(w.major == a and w.minor == b, "major and minor number")
    ensure(w.patch is None if c is None else w.patch == c, "patch number")
    ensure(w.additional == "", "no additional text")


@contract("P18", a=N, b=N, c=Int(0, 9999), s=Text(1, 2, 3, hi=0x7f), deadline=200,
          bounded="patch numbers of at most 4 digits followed by additional ASCII text of at most 3 characters")
def version_text_additional(a, b, c, s):
    require(not s[0].isdigit())
    v = V.from_str(str(a) + "." + str(b) + "." + str(c) + s)
    ensure(v.major == a and v.minor == b and v.patch == c, "numbers")
    ensure(v.additional == s, "additional text")
    ensure(str(v) == str(a) + "." + str(b) + "." + str(c), "text form without the additional text")


class Variants(Dom):
    """lists of versions close to each other"""

    def __init__(self, *ns):
        self.ns = ns

    def sym(self, p, name):
        n = self.ns[p.choose(len(self.ns))]
        return [(p.int_var(f"{name}.{i}.major", 0), p.int_var(f"{name}.{i}.minor", 0), None if p.choose(2) else p.int_var(f"{name}.{i}.patch", 0))
                for i in range(n)]

    def sample(self, rnd, i):
        return [(rnd.randrange(2), rnd.randrange(2), rnd.choice((None, 0, 1, 2, 3, 4, 9, 10, 11))) for _ in range(rnd.choice(self.ns))]


class Near(Int):
    def sample(self, rnd, i):
        return rnd.choice((0, 1, 0, 1, 0, 1, 2, 3, 9, 10, 11))


@contract("P18", a=Near(0), b=Near(0), c=Opt(Near(0)), variants=Variants(0, 1, 2, 3), bounded="at most 3 available versions", deadline=200)
def version_selection(a, b, c, variants):
    vs = [V(*x) for x in variants]
    me = (a, b, c)
    r = V(a, b, c).select_nearest(vs)
    fit = [x[0] == a and x[1] == b and not newer(x, me) for x in variants]
    if r is None:
        ensure(not any(fit), "nothing is selected only if no version fits")
        return
    got = (r.major, r.minor, r.patch)
    ensure(any(r is v for v in vs), "an available version is selected")
    ensure(got[0] == a and got[1] == b and not newer(got, me), "same line, not newer than requested")
    for i in range(len(vs)):
        if fit[i]:
            ensure(not newer(variants[i], got), "the nearest one")


@contract("P18", major=Each("", "v1", "x", "-1", "1a"), place=Each(0, 1), parts=Each(1, 2, 3), b=N, c=N)
def version_text_wrong(major, place, parts, b, c):
    """a text without major and minor number is version 0.0"""
    texts = [str(b), str(c), str(b)]
    texts[place if parts > 1 else 0] = major
    v = V.from_str(".".join(texts[:parts]))
    ensure(v.major == 0 and v.minor == 0, "major and minor number")
    ensure(v.additional == "" and v.patch is None if parts == 2 else v.patch == 0, "patch number")
