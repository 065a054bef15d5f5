"""Verification of one contract case: symbolic execution, obligations, replay, concrete search."""
from __future__ import annotations
import datetime
import pickle
import random
import time
import traceback
import z3
from . import engine, solve, spec, interp as I, values as vl
from .engine import Explorer, Raised, Cut, Unsupported
from .spec import Each, Skip, Violation, concretize
from .values import SymBA, SymBytes
from .terms import T


def snapshot(v):
    if isinstance(v, SymBA):
        return SymBA(v.b)
    if type(v).__name__ == "SymList":
        return v.copy()
    if isinstance(v, list):
        return [snapshot(x) for x in v]
    if isinstance(v, tuple):
        return tuple(snapshot(x) for x in v)
    return v


def fresh_native(v):
    if isinstance(v, bytearray):
        return bytearray(v)
    if isinstance(v, list):
        return [fresh_native(x) for x in v]
    return v


class Native:
    """outcome of a native run"""
    __slots__ = ("kind", "what", "trace")

    def __init__(self, kind, what=None, trace=()):
        self.kind, self.what, self.trace = kind, what, list(trace)


def run_native(c, args, limit=None):
    args = {k: fresh_native(v) for k, v in args.items()}
    spec.CELLS.clear()
    try:
        c.fn(**args)
        return Native("ok", None, spec.CELLS.get("trace", ()))
    except Skip:
        return Native("skip", None, spec.CELLS.get("trace", ()))
    except Violation as v:
        return Native("violation", v.name, spec.CELLS.get("trace", ()))
    except RecursionError as e:
        return Native("violation", f"no exception ({type(e).__name__})", spec.CELLS.get("trace", ()))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        return Native("violation", f"no exception ({type(e).__name__}: {str(e)[:120]} at {tb[-1].name})", spec.CELLS.get("trace", ()))


def label(v):
    """stable name of a case value"""
    q = getattr(v, "__qualname__", None)
    if q:
        return f"{v.__module__.split('.')[-1]}.{q}"
    return repr(v)


def show(v, n=400):
    r = repr(v)
    return r if len(r) <= n else r[:n] + "..."


def verify(c, case, tier="quick", seed=1, budget=60.0, samples=300, sample_s=2.0, max_witness=60, hunt_s=25.0):
    """returns a plain dictionary (crosses a process boundary)"""
    t0 = time.time()
    solve.CONFIRM = 500 if tier == "thorough" else 0
    for k in solve.STATS:
        solve.STATS[k] = 0
    I.INTERPRETED.clear()
    x = Explorer(c.name, deadline=time.process_time() + budget)
    x.folds, x.drops = c.folds, c.drops
    state = {}
    failures: list = []        # (obligation, args) confirmed natively
    undischarged: list = []
    mism: list = []
    seeds: list = []
    wit = {"replayed": 0, "limit": max_witness, "skipped": 0}
    live = [0]
    nosum = tuple(c.fns)
    uses = {u.fn: u.apply for u in c.uses if u.fn is not None}

    def body(p):
        p.cells["nosum"] = nosum
        p.cells["uses"] = uses
        args = {}
        for k, d in c.args.items():
            args[k] = case[k] if isinstance(d, Each) else d.sym(p, k)
        p.cells["inputs"] = {k: snapshot(v) for k, v in args.items()}
        try:
            I.call(c.fn, (), args)
        except Raised as r:
            e = r.exc
            x.obligation(p, False, f"no exception ({type(e).__name__}: {str(e)[:120]})",
                         "exception escapes" + where(r))
        except Skip:
            raise Cut()

    def on_path(p):
        live[0] += 1
        if wit["replayed"] >= wit["limit"]:
            return
        try:
            r, m = solve.check(p.asms, True, model=True, full=True, timeout=5000)
        except z3.Z3Exception:
            return
        if r != "sat" or m is None:
            wit["skipped"] += 1
            return
        if not m.repair(p.asms):
            wit["skipped"] += 1
            return
        try:
            args = {k: concretize(v, m) for k, v in p.cells["inputs"].items()}
            if not spec.faithful(p, m):
                wit["skipped"] += 1
                return
        except (Unsupported, ValueError, NotImplementedError):
            wit["skipped"] += 1
            return
        seeds.append({k: fresh_native(v) for k, v in args.items()})
        n = run_native(c, args)
        wit["replayed"] += 1
        if n.kind == "violation":
            failures.append((n.what, args, "witness of a path on which every obligation was discharged"))
            return
        sym = [o if isinstance(o, str) else None for o in p.obs]
        nat = [o if isinstance(o, str) else None for o in n.trace]
        if n.kind == "skip" or sym != nat:
            mism.append(f"path {p.decisions[:30]} args {show(args)}: symbolic {sym[-6:]} native {n.kind} {nat[-6:]}")
            return
        for a, b in zip(p.obs, n.trace):
            if not isinstance(a, str):
                try:
                    va = concretize(a, m)
                except Exception:
                    continue
                if type(va) is not bool and va != b:
                    mism.append(f"args {show(args)}: symbolic value {show(va)} native {show(b)}")
                    return

    err = None
    try:
        x.run(body, on_path)
    except Unsupported as e:
        x.unsupported.append((str(e), []))
    except Exception as e:
        err = "".join(traceback.format_exception(e))[-3000:]
        x.unsupported.append((f"internal: {type(e).__name__}: {e}", []))
    for o in x.obligations:
        if o.status == "discharged":
            continue
        ent = {"name": o.name, "status": o.status, "detail": (o.detail or "")[:1500], "path": str(o.path)[:300]}
        if o.model is not None:
            p, m = o.model
            if m is not None:
                try:
                    m.repair(p.asms)
                    args = {k: concretize(v, m) for k, v in p.cells["inputs"].items()}
                    ent["args"] = show(args)
                    seeds.insert(0, {k: fresh_native(v) for k, v in args.items()})
                    n = run_native(c, args)
                    ent["native"] = n.kind
                    if n.kind == "violation":
                        failures.append((n.what, args, f"counterexample of obligation '{o.name}'"))
                except Exception as e:
                    ent["native"] = f"not replayable: {type(e).__name__}"
        undischarged.append(ent)
    # concrete search on the real code
    rnd = random.Random(f"{seed}/{c.name}/{sorted((k, label(v)) for k, v in case.items())}")
    done = met = 0
    t1 = time.time()
    for i in range(samples):
        if time.time() - t1 > sample_s or len(failures) > 3:
            break
        try:
            args = {k: case[k] if isinstance(d, Each) else d.sample(rnd, i) for k, d in c.args.items()}
        except Exception as e:
            err = err or f"sampler: {e!r}"
            break
        keep = {k: fresh_native(v) for k, v in args.items()}
        n = run_native(c, args)
        done += 1
        if n.kind != "skip":
            met += 1
        if n.kind == "violation":
            failures.append((n.what, keep, "concrete search"))
    hunted = 0
    if (undischarged or x.unsupported or mism) and not failures:
        hunted = hunt(c, case, seeds, rnd, failures, hunt_s)
    if err and err.startswith("sampler"):
        print(f"{c.name}: {err}", flush=True)
    for m_, path in x.unsupported[:6]:
        undischarged.append({"name": "within the verified subset", "status": "unsupported", "detail": m_, "path": str(path)[:300]})
    for m_ in mism[:4]:
        undischarged.append({"name": "cross-check with CPython", "status": "unknown", "detail": m_})
    nobl = len(x.obligations)
    if nobl == 0 or live[0] == 0:
        if not undischarged:
            undischarged.append({"name": "vacuity", "status": "unknown",
                                 "detail": f"{nobl} obligations, {live[0]} live paths: the precondition excludes everything"})
    by: dict = {}
    for o in x.obligations:
        e = by.setdefault(o.name, [0, 0])
        e[0] += 1
        e[1] += o.status == "discharged"
    return {
        "contract": c.name, "case": {k: label(v) for k, v in case.items()},
        "obligations": nobl, "discharged": sum(o.status == "discharged" for o in x.obligations),
        "by_name": by, "paths": x.paths, "live": live[0],
        "undischarged": undischarged, "failures": [(w, enc_args(a), src) for w, a, src in failures[:4]],
        "interpreted": sorted(I.INTERPRETED), "summaries": sorted(x.summaries), "stats": dict(solve.STATS),
        "witnesses": wit["replayed"], "spurious": wit["skipped"], "samples": done + hunted, "samples_met": met, "wall": time.time() - t0, "error": err,
        "time_max": max([o.time for o in x.obligations], default=0),
    }


def hunt(c, case, seeds, rnd, failures, secs):
    """an obligation failed without a replayable counterexample: search around the models of the explored paths"""
    t1 = time.time()
    n = 0
    free = [k for k, d in c.args.items() if not isinstance(d, Each)]
    if not free:
        return 0
    seeds = seeds[:200]
    pools = {k: [s[k] for s in seeds] for k in free}
    while time.time() - t1 < secs and not failures:
        n += 1
        try:
            if seeds and rnd.random() < .8:
                s = rnd.choice(seeds[:4]) if rnd.random() < .4 else rnd.choice(seeds)
                args = {k: fresh_native(v) for k, v in s.items()}
                for k in (free if rnd.random() < .3 else [rnd.choice(free)]):
                    args[k] = c.args[k].mutate(args[k], rnd, pools[k])
                    if not c.args[k].admits(args[k]):
                        raise ValueError
            else:
                args = {k: case[k] if isinstance(d, Each) else d.sample(rnd, n) for k, d in c.args.items()}
        except Exception:
            continue
        keep = {k: fresh_native(v) for k, v in args.items()}
        try:
            r = run_native(c, args)
        except Exception:
            continue
        if r.kind == "violation":
            failures.append((r.what, keep, "concrete search around the models of the explored paths"))
        elif r.kind == "ok" and n % 50 == 0 and len(seeds) < 400:
            seeds.append(keep)
    return n


def where(r):
    return f" at {r.loc}"


# ---- encoding of native inputs for replay files

def enc(v):
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, int):
        return {"int": str(v)} if abs(v) > 1 << 53 else v
    if isinstance(v, bytearray):
        return {"bytearray": bytes(v).hex()}
    if isinstance(v, bytes):
        return {"bytes": v.hex()}
    if isinstance(v, list):
        return {"list": [enc(x) for x in v]}
    if isinstance(v, tuple):
        return {"tuple": [enc(x) for x in v]}
    if isinstance(v, float):
        return {"float": v.hex()}
    if isinstance(v, (datetime.date, datetime.time)):
        return {"pickle": pickle.dumps(v).hex(), "repr": repr(v)}
    return {"repr": repr(v)}


def dec(v):
    if isinstance(v, dict):
        k, x = next(iter(v.items()))
        if k == "int":
            return int(x)
        if k == "bytearray":
            return bytearray.fromhex(x)
        if k == "bytes":
            return bytes.fromhex(x)
        if k == "list":
            return [dec(q) for q in x]
        if k == "float":
            return float.fromhex(x)
        if k == "pickle":
            return pickle.loads(bytes.fromhex(x))
        if k == "tuple":
            return tuple(dec(q) for q in x)
        return v
    return v


def enc_args(a):
    return {k: enc(v) for k, v in a.items()}
