"""Loops over octet strings of unbounded length: the fold rule.

A contract names specification step functions (`folds=(step,)`).  A loop (or functools.reduce) over the
octets of a string, whose only state is one integer, is replaced by `fold(step, initial state, octets)`
after its body has been proved equal to `step` for every state of the declared range and every octet, and
`step` has been proved to stay within that range.  That is the inductive invariant
`state == fold(step, initial, octets seen so far)`.
"""
from __future__ import annotations
import ast
import time
from . import terms as tm
from . import values as vl
from .terms import T
from .values import SymBytes, SymBA, SymMV
from .engine import current, Explorer, Unsupported, Raised, Cut

STEPS: dict = {}          # name -> (function, lo, hi)
_proved: dict = {}


def folding(lo, hi):
    """declare a specification step function: (state in lo..hi, octet) -> state"""
    def d(f):
        f.dv_range = (lo, hi)
        STEPS[f.__name__] = f
        return f
    return d


def native_fold(step, init, data):
    v = init
    for b in data:
        v = step(v, b)
    return v


def step_term(step, v, i):
    if type(v) is not T and type(i) is not T:
        return step(v, i)
    return tm.uf(f"step:{step.__name__}", [v, i], *step.dv_range)


def big_endian(v, i):
    """one octet of a number, most significant first"""
    return v * 256 + i


big_endian.dv_range = (0, None)


def steps(p, data, init):
    """the specification steps which a loop over these octets is compared with"""
    out = list(getattr(p.x, "folds", ()))
    if data is not None and type(init) is int and init == 0 and type(p.norm(vl.length(data))) is T:
        out.append(big_endian)
    return out


def in_range(p, step, init):
    lo, hi = step.dv_range
    return p.entails(tm.and_(tm.le(lo, init), True if hi is None else tm.le(init, hi)))


def fold_term(step, init, data, unfold=False):
    from . import interp as I
    if step is big_endian:
        return vl.from_bytes(data, "big", False)
    if isinstance(data, SymBA):
        data = data.b
    elif isinstance(data, SymMV):
        data = data.get()
    runs = []                       # ("c", item) | ("s", arr, off, n), adjacent pieces of one array joined
    for s in vl.of_bytes(data).segs:
        parts = [("s", x.args[0], x.args[1], 1) if type(x) is T and x.op == "sel" else ("c", x) for x in s[1]] if s[0] == "c" else [s]
        for q in parts:
            if q[0] == "s" and runs and runs[-1][0] == "s" and runs[-1][1] == q[1] and tm.add(runs[-1][2], runs[-1][3]) == q[2]:
                r = runs.pop()
                q = ("s", r[1], r[2], tm.add(r[3], q[3]))
            runs.append(q)
    v = init
    for q in runs:
        if q[0] == "s":
            q = (q[0], q[1], q[2], current().norm(q[3]))
            if type(q[3]) is not T and q[3] == 0:
                continue
            v = tm.uf(f"fold:{step.__name__}:{q[1]}", [v, q[2], q[3]], *step.dv_range)
        else:
            v = I.call(step, (v, q[1])) if unfold else step_term(step, v, q[1])
    return v


def uf_value(name, args, arr):
    """native meaning of a fold or step term under a model"""
    k, *rest = name.split(":")
    if k == "step":
        f = STEPS[rest[0]]
        v, i = args
        lo, hi = f.dv_range
        return f(v, i)
    if k == "first":
        o, n = args
        if n > 4000:
            raise NotImplementedError("long search")
        return next((j for j in range(n) if arr(rest[1], o + j) == int(rest[0])), -1)
    f = STEPS[rest[0]]
    v, o, n = args
    if n > 5000:
        raise NotImplementedError("long fold")
    for j in range(n):
        v = f(v, arr(rest[1], o + j))
    return v


def _stores(body):
    out = {}
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out[n.id] = None
            elif isinstance(n, (ast.NamedExpr,)):
                out[n.target.id] = None
            elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store):
                return None
            elif isinstance(n, (ast.Break, ast.Return, ast.Yield, ast.YieldFrom, ast.Await, ast.Nonlocal, ast.Global)):
                return None
    return list(out)


def _data(v):
    if isinstance(v, SymBytes):
        return v
    if isinstance(v, SymBA):
        return v.b if isinstance(v.b, SymBytes) else None
    if isinstance(v, SymMV):
        v = v.get()
        return v if isinstance(v, SymBytes) else None
    return None


def _sym_free(names, fr):
    """every other local read by the body is concrete"""
    from . import interp as I
    for n in names:
        if n in fr.locals and I.deep_sym(fr.locals[n]):
            return False
    return True


class OneOctet:
    """stands for the octet string inside the proof of an index loop: only [index] may be read"""

    def __init__(self, idx, octet):
        self.idx, self.octet = idx, octet


def prove(key, step, run, what):
    """run(v, i) computes the body; prove it equals step(v, i) and keeps the range"""
    from . import interp as I
    got = _proved.get(key)
    if got is not None:
        return got
    x0 = current().x
    lo, hi = step.dv_range
    x = Explorer(f"{x0.name}: {what}", deadline=min(x0.deadline or time.time() + 60, time.time() + 60))

    def body(p):
        v, i = p.int_var("state", lo, hi), p.int_var("octet", 0, 255)
        try:
            out = run(v, i)
        except Raised as r:
            x.obligation(p, False, f"{what}: no exception")
            return
        if not (type(out) in (int, bool) or type(out) is T):
            x.obligation(p, False, f"{what}: integer state")
            return
        want = tm.add(tm.scale(v, 256), i) if step is big_endian else I.call(step, (v, i))
        p.oblige(tm.eq(out, want), f"{what}: one iteration is one step")
        p.oblige(tm.and_(tm.le(lo, want), True if hi is None else tm.le(want, hi)), f"{what}: state stays in range")
    try:
        x.run(body)
    except Unsupported as e:
        x.unsupported.append((str(e), []))
    ok = not x.unsupported and x.obligations and all(o.status == "discharged" for o in x.obligations)
    if ok:
        x0.obligations.extend(x.obligations)
    _proved[key] = bool(ok)
    return bool(ok)


def _frame_copy(fr):
    from . import interp as I
    g = I.Frame(fr.globals, fr.parent, fr.cls, fr.cells, fr.fn)
    for k in ("nonlocals", "globs", "selfarg", "node", "isclass"):
        setattr(g, k, getattr(fr, k))
    g.locals = dict(fr.locals)
    return g


def for_hook(s, src, fr):
    from . import interp as I
    p = current()
    if s.orelse or not isinstance(s.target, ast.Name):
        return None
    data = _data(src)
    index = None
    if data is None:
        from .models import SymRange
        if isinstance(src, range):
            if src.step != 1 or src.start != 0 or len(src) < 2 or not getattr(p.x, "folds", ()):
                return None
            stop = len(src)
        elif isinstance(src, SymRange) and src.step == 1 and type(src.start) is int and src.start == 0:
            stop = src.stop
        else:
            return None
    stores = _stores(s.body)
    if stores is None:
        return None
    stores = [I.mangle(n, fr.cls) for n in stores]
    tgt = I.mangle(s.target.id, fr.cls)
    state = [n for n in stores if n in fr.locals and n != tgt]
    if len(state) != 1 or state[0] in fr.globs or state[0] in fr.nonlocals:
        return None
    state = state[0]
    loads = {I.mangle(n.id, fr.cls) for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name)}
    if data is None:
        for n in loads:
            v = fr.locals.get(n)
            d = _data(v)
            if d is not None and p.norm(vl.length(d)) == p.norm(stop):
                index, data = n, d
        if data is None:
            return None
    init = fr.locals[state]
    if not (type(init) is int or (type(init) is T and init.sort == "I")):
        return None
    if not _sym_free(loads - {state, tgt, index}, fr):
        return None
    for step in steps(p, data, init):
        if not in_range(p, step, init):
            continue

        def run(v, i):
            g = _frame_copy(fr)
            g.locals[state] = v
            if index is None:
                g.locals[tgt] = i
            else:
                k = current().int_var("index", 0, None)
                g.locals[tgt] = k
                n = current().int_var("count", 1, None)
                current().assume(tm.lt(k, n))
                # octets of which the one at the index is the generic octet
                g.locals[index] = SymBytes([("s", "loop.before", 0, k), ("c", (i,)), ("s", "loop.after", 0, tm.add(n, tm.scale(tm.add(k, 1), -1)))])
            g.inloop = 1
            try:
                I.block(s.body, g)
            except I.Continue:
                pass
            return g.locals[state]
        what = f"loop invariant ({getattr(fr.fn, '__qualname__', None) or 'loop'})"
        if prove((id(s), step.__name__, index is not None), step, run, what):
            p.x.summaries.add(f"fold:{step.__name__}")
            fr.locals[state] = fold_term(step, init, data)
            for n in stores + [tgt]:
                if n != state:
                    fr.locals.pop(n, None)
            return True
    return None


def reduce_hook(f, data, init):
    """functools.reduce(f, octets, init)"""
    from . import interp as I
    p = current()
    d = _data(data)
    if d is None:
        return None
    for step in steps(p, d, init):
        if not in_range(p, step, init):
            continue
        if prove((id(getattr(f, "node", None) or f), step.__name__), step, lambda v, i: I.call(f, (v, i)), "reduction"):
            p.x.summaries.add(f"fold:{step.__name__}")
            return fold_term(step, init, d)
    return None


# ------------------------------------------------------------------ searching an octet

def first_index(v, c):
    """position of the first octet equal to c (a known octet), -1 if there is none"""
    p = current()
    pos = 0
    for s in vl.of_bytes(v).segs:
        n = vl.seglen(s)
        if s[0] == "c" or type(p.norm(n)) is not T and p.norm(n) <= 8:
            items = s[1] if s[0] == "c" else [tm.select(s[1], tm.add(s[2], j)) for j in range(p.norm(n))]
            for j, x in enumerate(items):
                if p.branch(tm.eq(x, c)):
                    return tm.add(pos, j)
        else:
            k = tm.uf(f"first:{c}:{s[1]}", [s[2], n], -1, None)
            p.assume(tm.lt(k, n))
            if p.branch(tm.ge(k, 0)):
                p.assume(tm.eq(tm.select(s[1], tm.add(s[2], k)), c))
                return tm.add(pos, k)
        pos = tm.add(pos, n)
    return -1


def _prove_while(key, what, body):
    got = _proved.get(key)
    if got is not None:
        return got
    x0 = current().x
    x = Explorer(f"{x0.name}: {what}", deadline=min(x0.deadline or time.time() + 60, time.time() + 60))
    try:
        x.run(lambda p: body(p, x))
    except Unsupported as e:
        x.unsupported.append((str(e), []))
    ok = bool(not x.unsupported and x.obligations and all(o.status == "discharged" for o in x.obligations))
    if ok:
        x0.obligations.extend(x.obligations)
    _proved[key] = ok
    return ok


def while_hook(s, fr):
    """`drop (or skip) octets until the first octet c`, proved for one generic iteration"""
    from . import interp as I
    p = current()
    drops = getattr(p.x, "drops", ())
    if not drops or s.orelse:
        return False
    stores = _stores(s.body)
    if stores is None or len(stores) > 1:
        return False
    nodes = [n for b in [s.test] + s.body for n in ast.walk(b)]
    loads = {I.mangle(n.id, fr.cls) for n in nodes if isinstance(n, ast.Name)}
    bufs = [n for n in loads if _data(fr.locals.get(n)) is not None]
    if len(bufs) != 1:
        return False
    buf = bufs[0]
    o = fr.locals[buf]
    state = I.mangle(stores[0], fr.cls) if stores else None
    if state is None and not isinstance(o, SymBA) or state is not None and type(fr.locals.get(state)) not in (int, T):
        return False
    if not _sym_free(loads - {buf, state}, fr):
        return False
    what = f"loop invariant ({getattr(fr.fn, '__qualname__', None) or 'loop'})"
    for c in drops:
        def body(q, x, c=c):
            n = q.int_var("count", 0, None)
            data = SymBytes([("s", "loop.data", 0, n)])
            g = _frame_copy(fr)
            g.locals[buf] = ba = SymBA(data) if isinstance(o, SymBA) else data
            i = 0
            if state is not None:
                g.locals[state] = i = q.int_var("index", 0, None)
                q.assume(tm.le(i, n))
            g.inloop = 1
            here = tm.select("loop.data", i)
            try:
                t = I.truth(I.ev(s.test, g))
                if not t:
                    q.oblige(tm.or_(tm.eq(i, n), tm.eq(here, c)), f"{what}: stops at the octet or at the end")
                    return
                q.oblige(tm.and_(tm.lt(i, n), tm.ne(here, c)), f"{what}: continues before the octet only")
                try:
                    I.block(s.body, g)
                except I.Continue:
                    pass
                if state is None:
                    want = SymBytes([("s", "loop.data", 1, tm.sub(n, 1))])
                    q.oblige(vl.goal_form(vl.bytes_eq(ba.b, want)), f"{what}: one octet is dropped")
                else:
                    q.oblige(tm.eq(g.locals[state], tm.add(i, 1)), f"{what}: one octet is skipped")
                    if isinstance(ba, SymBA):
                        q.oblige(vl.goal_form(vl.bytes_eq(ba.b, data)), f"{what}: the octets are unchanged")
            except Raised as r:
                x.obligation(q, False, f"{what}: no exception")
        if _prove_while((id(s), "while", c, state is None), what, body):
            p.x.summaries.add(f"search:{c}")
            d = _data(o)
            if state is None:
                k = first_index(d, c)
                o.b = b"" if type(k) is int and k == -1 else vl.get_slice(d, k, None)
            else:
                i = fr.locals[state]
                n = vl.length(d)
                if not p.branch(tm.and_(tm.le(0, i), tm.le(i, n))):
                    raise Unsupported("scan from outside the octets")
                k = first_index(vl.of_bytes(vl.get_slice(d, i, None)), c)
                fr.locals[state] = n if type(k) is int and k == -1 else tm.add(i, k)
            return True
    return False
