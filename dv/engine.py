"""Path exploration: decisions, assumptions, obligations."""
from __future__ import annotations
import time
from . import solve
from .terms import T, not_, and_, eq, le, lt, var, bvar, rng, is_t, _parts, rebuild


LOC: list = [None, None]       # statement being executed, its frame


def location():
    s, fr = LOC
    if s is None:
        return "?"
    try:
        f = fr.globals.get("__name__", "?").split(".")[-1]
        return f"{f}:{getattr(s, 'lineno', '?')}"
    except Exception:
        return "?"


class Unsupported(Exception):
    """construct outside the verified subset"""

    def __init__(self, msg=""):
        self.loc = location()
        super().__init__(f"{msg} [at {self.loc}]")


class Cut(BaseException):
    """path ends here (assumption unsatisfiable or inductive step finished)"""


class Raised(Exception):
    """an exception raised by the interpreted program"""

    def __init__(self, exc):
        self.exc = exc
        self.loc = location()
        super().__init__(repr(type(exc).__name__))


class Obligation:
    __slots__ = ("name", "status", "path", "detail", "model", "time")

    def __init__(self, name, status, path, detail=None, model=None, t=0.0):
        self.name, self.status, self.path, self.detail, self.model, self.time = name, status, path, detail, model, t


class Path:
    """one execution along a decision prefix"""

    def __init__(self, explorer, prefix):
        self.x = explorer
        self.prefix = prefix
        self.decisions: list = []
        self.asms: list = []
        self.asm_set: set = set()
        self.bounds: dict = {}
        self.counter: dict = {}
        self.obs: list = []           # observations for the cross-check
        self.n_branch = 0
        self.cells: dict = {}         # scratch for models
        self.dead = False

    # ---- naming
    def fresh(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return f"{base}" if n == 0 else f"{base}~{n}"

    def int_var(self, base, lo=None, hi=None):
        return var(self.fresh(base), lo, hi)

    # ---- assumptions
    def assume(self, c):
        if type(c) is not T:
            if not c:
                raise Cut()
            return
        if c.op == "and":
            for q in c.args:
                self.assume(q)
            return
        if c in self.asm_set:
            return
        self.asm_set.add(c)
        self.asms.append(c)
        if c.op in ("le0", "eq0"):
            k0, it = _parts(c.args[0])
            if len(it) == 1:
                t, k = it[0]
                l, h = self.bounds.get(t, (t.lo, t.hi))
                if c.op == "eq0":
                    if k0 % k == 0:
                        v = -k0 // k
                        if (l is not None and v < l) or (h is not None and v > h):
                            raise Cut()
                        l = h = v
                    else:
                        raise Cut()
                elif k > 0:
                    b = (-k0) // k
                    h = b if h is None else min(h, b)
                else:
                    b = -((-k0) // -k)
                    l = b if l is None else max(l, b)
                if l is not None and h is not None and l > h:
                    raise Cut()
                self.bounds[t] = (l, h)

    def interval(self, t):
        """interval of an integer term using path bounds"""
        if type(t) is not T:
            return t, t
        if t in self.bounds:
            return self.bounds[t]
        if t.op == "lin":
            c, it = t.args
            lo = hi = c
            for a, k in it:
                l, h = self.interval(a)
                if k < 0:
                    l, h = h, l
                lo = None if lo is None or l is None else lo + l * k
                hi = None if hi is None or h is None else hi + h * k
            return (lo if t.lo is None else t.lo if lo is None else max(lo, t.lo),
                    hi if t.hi is None else t.hi if hi is None else min(hi, t.hi))
        if t.op == "div":
            l, h = self.interval(t.args[0])
            m = t.args[1]
            return (t.lo if l is None else l // m), (t.hi if h is None else h // m)
        if t.op == "mod":
            l, h = self.interval(t.args[0])
            m = t.args[1]
            if l is not None and h is not None and l // m == h // m:
                return l % m, h % m
            return t.lo, t.hi
        return t.lo, t.hi

    def norm(self, t):
        """the constant a term is known to equal, else the term"""
        if type(t) is T and t.sort == "I":
            lo, hi = self.interval(t)
            if lo is not None and lo == hi:
                return lo
        return t

    def quick(self, c):
        """True / False / None without a solver"""
        if type(c) is not T:
            return bool(c)
        if c in self.asm_set:
            return True
        n = not_(c)
        if type(n) is not T:
            return not n
        if n in self.asm_set:
            return False
        if c.op in ("le0", "eq0"):
            lo, hi = self.interval(c.args[0])
            if c.op == "le0":
                if hi is not None and hi <= 0:
                    return True
                if lo is not None and lo > 0:
                    return False
            else:
                if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                    return False
                if lo == 0 and hi == 0:
                    return True
        elif c.op == "not":
            r = self.quick(c.args[0])
            return None if r is None else not r
        elif c.op == "and":
            allt = True
            for q in c.args:
                r = self.quick(q)
                if r is False:
                    return False
                if r is None:
                    allt = False
            if allt:
                return True
        return None

    def entails(self, c, timeout=None):
        q = self.quick(c)
        if q is not None:
            return q
        return solve.check(self.asms, not_(c), timeout=timeout) == "unsat"

    def feasible(self, c):
        q = self.quick(c)
        if q is not None:
            return q
        return solve.check(self.asms, c) != "unsat"

    # ---- decisions
    def branch(self, c):
        if type(c) is not T:
            return bool(c)
        q = self.quick(c)
        if q is not None:
            return q
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            self.x.tick()
            t = solve.check(self.asms, c)
            if t == "unsat":
                d = False
                forced = True
            else:
                f = solve.check(self.asms, not_(c))
                forced = f == "unsat"
                d = True
            if not forced:
                self.x.push(self.decisions + [False])
            elif False:
                pass
        self.decisions.append(d)
        self.assume(c if d else not_(c))
        return d

    def branch_assume(self, c):
        """assume c; False if that is impossible here"""
        q = self.quick(c)
        if q is False:
            return False
        if q is None:
            if solve.check(self.asms, c) == "unsat":
                return False
            self.assume(c)
        return True

    def choose(self, n, label=""):
        """unconditional n-way fork"""
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = 0
            for j in range(n - 1, 0, -1):
                self.x.push(self.decisions + [j])
        self.decisions.append(d)
        return d

    def concretize(self, t, limit=400):
        """fork over every feasible value of an integer term"""
        if type(t) is not T:
            return t
        lo, hi = self.interval(t)
        if lo is not None and lo == hi:
            return lo
        n = 0
        while True:
            i = len(self.decisions)
            if i < len(self.prefix):
                v = self.prefix[i]
                if isinstance(v, tuple):        # ('not', v)
                    self.decisions.append(v)
                    self.assume(not_(eq(t, v[1])))
                    n += 1
                    continue
                self.decisions.append(v)
                self.assume(eq(t, v))
                return v
            self.x.tick()
            r, m = solve.check(self.asms, True, model=True, full=True)
            if r == "unsat":
                raise Cut()
            if r != "sat":
                raise Unsupported("concretize: solver gave up")
            v = m.ev(t)
            if n >= limit:
                raise Unsupported(f"concretize: more than {limit} values")
            if solve.check(self.asms, not_(eq(t, v))) != "unsat":
                self.x.push(self.decisions + [("not", v)])
            self.decisions.append(v)
            self.assume(eq(t, v))
            return v

    # ---- obligations
    def simplify(self, t, memo=None):
        """the term with what the path decides put in: known integers, decided conditions, applications of
        specification steps to known values"""
        if type(t) is not T:
            return t
        memo = {} if memo is None else memo
        if t in memo:
            return memo[t]
        if t.sort == "I":
            r = self.norm(t)
        else:
            r = self.quick(t)
            r = t if r is None else r
        if type(r) is T and t.op in ("lin", "mul", "div", "divs", "mod", "mods", "band", "bor", "bxor", "ite", "lut", "uf", "sel", "eq0", "le0", "not", "and"):
            r = rebuild(t, lambda x: self.simplify(x, memo))
            if type(r) is T and r.op == "uf" and r.args[0].startswith("step:") and not any(type(x) is T for x in r.args[1]):
                from .loops import uf_value
                r = uf_value(r.args[0], r.args[1], None)
            if type(r) is T and r.sort == "I":
                r = self.norm(r)
        memo[t] = r
        return r

    def oblige(self, c, name, detail=None):
        """c must hold here"""
        self.x.obligation(self, c, name, detail)


class Explorer:
    def __init__(self, name, max_paths=20000, deadline=None):
        self.name = name
        self.work: list = [[]]
        self.obligations: list[Obligation] = []
        self.paths = 0
        self.max_paths = max_paths
        self.deadline = deadline
        self.witnesses: list = []
        self.seen_ob: set = set()
        self.cover: dict = {}
        self.dropped: dict = {}        # loop-candidate bookkeeping
        self.restart = False
        self.folds: tuple = ()
        self.drops: tuple = ()
        self.fns: set = set()
        self.summaries: set = set()
        self.failed = 0
        self.unsupported: list = []

    def tick(self):
        if self.deadline and time.process_time() > self.deadline:
            raise Unsupported("time budget exceeded")

    def push(self, prefix):
        self.work.append(prefix)

    def obligation(self, path, c, name, detail=None):
        if self.failed > 12:
            raise Unsupported("too many failed obligations")
        t0 = time.time()
        q = path.quick(c)
        if q is True:
            self.obligations.append(Obligation(name, "discharged", list(path.decisions), detail, None, 0.0))
            return
        if type(c) is T and c.op == "and" and len(c.args) > 1:
            for k in c.args:
                self.obligation(path, k, name, detail)
            path.assume(c)
            return
        g = not_(c) if type(c) is T else True
        r = solve.check(path.asms, g, full=type(g) is not T, timeout=4000)
        if r != "unsat" and type(g) is T:
            g2 = path.simplify(g)
            if type(g2) is not T and not g2:
                r = "unsat"
            elif type(g2) is T and g2 is not g:
                r2 = solve.check(path.asms, g2, full=False, timeout=4000)
                r = r2 if r2 == "unsat" else r
        if r == "unknown" and type(g) is T:
            r = solve.split(path.asms, g)
        if r == "unknown":
            r = solve.check(path.asms, g, full=type(g) is not T)
        mdl = None
        if r == "sat":
            r2, mdl = solve.check(path.asms, g, model=True, full=True)
            if r2 == "unsat":
                r = "unsat"
        st = {"unsat": "discharged", "sat": "failed", "unknown": "unknown"}[r]
        ob = Obligation(name, st, list(path.decisions), detail, None, time.time() - t0)
        if st != "discharged":
            self.failed += 1
            ob.detail = (detail or "") + f" | goal: {c}"
            if mdl is not None:
                ob.model = (path, mdl)
        self.obligations.append(ob)
        # continue under the assumption that it holds
        if type(c) is T and st == "discharged":
            path.assume(c)
        elif st != "discharged":
            raise Cut()

    def run(self, body, on_path=None):
        """body(path) executed along every feasible decision sequence"""
        global _cur
        while self.work:
            prefix = self.work.pop()
            if self.paths >= self.max_paths:
                self.unsupported.append((f"more than {self.max_paths} paths", []))
                return
            if self.deadline and time.process_time() > self.deadline:
                self.unsupported.append(("time budget exceeded", []))
                return
            path = Path(self, prefix)
            prev = _cur
            _cur = path
            try:
                self.paths += 1
                try:
                    body(path)
                except Cut:
                    path.dead = True
                except Unsupported as e:
                    path.dead = True
                    self.unsupported.append((str(e), list(path.decisions)))
                    if len(self.unsupported) > 8 or "budget" in str(e):
                        return
                if on_path and not path.dead:
                    on_path(path)
            finally:
                _cur = prev


_cur: Path | None = None


def current() -> Path:
    if _cur is None:
        raise RuntimeError("no symbolic path is active")
    return _cur
