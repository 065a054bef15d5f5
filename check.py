#!/usr/bin/env python3-vt
"""Decide one property:  python3-vt check.py P02 [--tier quick|thorough]
Replay a failing input: python3-vt check.py --replay replays/P02-1.json

Exit 0: every obligation generated from /repo's current source was discharged and no concrete run failed.
Exit 1: a VIOLATION line.  (DV_REPO overrides the tree, for experiments only.)
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import re
import resource
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

TRUSTED = [
    "dv/ verification-condition generator (AST interpreter of the Python subset); cross-checked against CPython on a model of every explored path",
    "z3 (bit-vector and integer back ends)",
    "models of builtins and standard library in dv/models.py (int, bytes, bytearray, memoryview, str, struct, itertools, enum, dataclass, datetime)",
    "Python integers are mathematical integers (no overflow); memory is unlimited",
    "logging and print have no effect on results",
    "the package's __init__ cannot be imported on this commit: modules are imported one by one under a stub package",
]


def modules_of(prop):
    """spec modules that mention the property (textually, so that a module that cannot be imported is noticed)"""
    out = []
    d = os.path.join(HERE, "specs")
    for n in sorted(os.listdir(d)):
        if n.endswith(".py") and n[0] != "_":
            t = open(os.path.join(d, n)).read()
            if re.search(r'@contract\([^)]*"' + prop + '"', t):
                out.append(n[:-3])
    return out


def worker(conn, c, case, kw):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    except Exception:
        pass
    try:
        from dv import verify
        r = verify.verify(c, case, **kw)
    except BaseException as e:       # noqa: BLE001
        r = {"contract": c.name, "crash": "".join(traceback.format_exception(e))[-2500:]}
    try:
        conn.send(r)
    finally:
        conn.close()
        os._exit(0)


def blank(c, case, why):
    from dv import verify
    return {"contract": c.name, "case": {k: verify.label(v) for k, v in case.items()}, "obligations": 0, "discharged": 0, "by_name": {},
            "paths": 0, "live": 0, "undischarged": [{"name": "verification finishes", "status": "unknown", "detail": why}], "failures": [],
            "interpreted": [], "summaries": [], "stats": {}, "witnesses": 0, "samples": 0, "samples_met": 0, "wall": 0.0, "error": why,
            "time_max": 0}


def run_jobs(jobs, nproc, kw, deadline, log):
    ctx = mp.get_context("fork")
    todo = list(reversed(jobs))
    live = {}
    out = []
    while todo or live:
        while todo and len(live) < nproc:
            c, case = todo.pop()
            left = deadline - time.time()
            if left < 3:
                out.append((c, case, blank(c, case, "time budget of the check exceeded before this contract was reached")))
                continue
            a, b = ctx.Pipe(False)
            k = dict(kw)
            k["budget"] = min(c.deadline or kw["budget"], left - 2)
            p = ctx.Process(target=worker, args=(b, c, case, k))
            p.start()
            b.close()
            live[p] = (a, c, case, time.time(), k["budget"])
        ready = mp.connection.wait([v[0] for v in live.values()], timeout=0.5)
        for p, (a, c, case, t0, bud) in list(live.items()):
            if a in ready:
                try:
                    r = a.recv()
                except EOFError:
                    r = {"crash": "the worker ended without an answer (out of memory?)"}
                if "crash" in r:
                    r = blank(c, case, r["crash"])
                out.append((c, case, r))
                p.join()
                del live[p]
            elif time.time() - t0 > 4 * bud + 60 + kw["sample_s"] or time.time() > deadline + 60:
                p.kill()
                p.join()
                out.append((c, case, blank(c, case, f"no answer within {time.time() - t0:.0f} s")))
                del live[p]
    return out


def native_replay(path):
    """run one stored input on the real code; prints the outcome; exit status 1 if it fails"""
    d = json.load(open(path))
    from dv import spec, verify, loader
    C = loader.load({d["module"]})
    c = C[d["contract"]]
    case = next((k for k in c.cases() if {a: verify.label(v) for a, v in k.items()} == d["case"]), None)
    if case is None:
        print("case not found")
        return 2
    args = {k: (case[k] if k in case else resolve(c.args[k], verify.dec(v))) for k, v in d["args"].items()}
    n = verify.run_native(c, args)
    print(f"{d['contract']} {d['case']}\n  inputs: " + ", ".join(f"{k}={verify.show(v)}" for k, v in args.items() if k not in case))
    if n.kind == "violation":
        print(f"  FAILS: {n.what}")
        return 1
    print(f"  outcome: {n.kind}")
    return 0


def resolve(dom, v):
    if isinstance(v, dict) and "repr" in v:
        for x in getattr(dom, "vals", []):
            if repr(x) == v["repr"]:
                return x
    return v


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="one contract (development)")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    os.chdir(HERE)
    if a.replay:
        sys.exit(native_replay(a.replay))
    prop, tier = a.prop, a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    total = 780 if tier == "quick" else 3600 * 3
    deadline = t0 + total
    os.makedirs("replays", exist_ok=True)
    os.makedirs("evidence", exist_ok=True)
    for f in os.listdir("replays"):
        if f.startswith(prop + "-"):
            os.remove(os.path.join("replays", f))
    load_errors = []
    C = {}
    mods = modules_of(prop)
    from dv import spec
    try:
        from dv import loader
        loader.load(set())
    except BaseException:
        load_errors.append("code under verification cannot be loaded:\n" + traceback.format_exc()[-2000:])
    sys.path.insert(0, os.path.join(HERE, "specs"))
    for m in mods:
        try:
            importlib.import_module(m)
        except BaseException:
            load_errors.append(f"contracts of {m} do not fit the code:\n" + traceback.format_exc()[-2000:])
    C = spec.CONTRACTS
    jobs = [(c, case) for c in C.values() if prop in c.props and (not a.only or c.name == a.only) for case in c.cases()]
    jobs.sort(key=lambda j: -(j[0].deadline or 0))
    kw = dict(tier=tier, seed=seed, budget=150.0 if tier == "quick" else 1200.0,
              samples=400 if tier == "quick" else 20000, sample_s=1.5 if tier == "quick" else 40.0,
              max_witness=60 if tier == "quick" else 400)
    res = run_jobs(jobs, min(8, os.cpu_count() or 4), kw, deadline, a.v) if jobs else []
    res.sort(key=lambda r: (r[0].name, str(r[2]["case"])))
    # ------- aggregate
    ob = dis = bob = bdis = 0
    viol, und, left = [], [], []
    fns, sums, stats = set(), set(), {}
    native = met = wit = paths = 0
    tab = {}
    for c, case, r in res:
        if a.v:
            print(f"  {c.name} {r['case']} {r['discharged']}/{r['obligations']} paths {r['paths']} wit {r['witnesses']} "
                  f"samples {r['samples_met']}/{r['samples']} {r['wall']:.1f}s maxq {r['time_max']:.1f}"
                  + (f" UNDISCHARGED {json.dumps(r['undischarged'][:3])[:900]}" if r["undischarged"] else "")
                  + (f" FAILURES {r['failures'][:2]}" if r["failures"] else ""), flush=True)
        if c.bounded:
            bob += r["obligations"]
            bdis += r["discharged"]
        else:
            ob += r["obligations"]
            dis += r["discharged"]
        fns |= set(r["interpreted"])
        sums |= set(r["summaries"])
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
        native += r["samples"]
        met += r["samples_met"]
        wit += r["witnesses"]
        paths += r["paths"]
        t = tab.setdefault(c.name, {"cases": 0, "obligations": 0, "discharged": 0, "paths": 0, "bounded": c.bounded or None,
                                    "wall_s": 0.0, "postconditions": {}})
        t["cases"] += 1
        t["obligations"] += r["obligations"]
        t["discharged"] += r["discharged"]
        t["paths"] += r["paths"]
        t["wall_s"] = round(t["wall_s"] + r["wall"], 2)
        for k, v in r["by_name"].items():
            e = t["postconditions"].setdefault(k, [0, 0])
            e[0] += v[0]
            e[1] += v[1]
        for what, args, src in r["failures"]:
            viol.append((c, r["case"], what, args, src))
        for u in r["undischarged"]:
            (left if c.standin and u["status"] in ("unsupported", "unknown") else und).append((c, r["case"], u))
    # ------- confirm failing inputs in a clean process
    lines = []
    confirmed = 0
    seen = set()
    unconfirmed = []
    for c, case, what, args, src in viol:
        key = (c.name, json.dumps(case), what)
        if key in seen or confirmed >= 5:
            continue
        seen.add(key)
        path = f"replays/{prop}-{len(seen)}.json"
        json.dump({"property": prop, "module": c.module, "contract": c.name, "case": case, "args": args, "fails": what, "found_by": src,
                   "statement": c.note, "how": f"python3-vt check.py --replay {path}"}, open(path, "w"), indent=1)
        p = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), "--replay", path], capture_output=True, text=True, timeout=120)
        if p.returncode == 1 and "FAILS" in p.stdout:
            confirmed += 1
            print(p.stdout.rstrip())
            lines.append(f"VIOLATION property={prop} replay={path}")
        else:
            unconfirmed.append((c, case, what, p.stdout[-500:] + p.stderr[-500:]))
    for c, case, what, o in unconfirmed:
        und.append((c, case, {"name": what, "status": "failed once, not on replay", "detail": o}))
    for e in load_errors:
        und.append((None, {}, {"name": "contracts apply to the code", "status": "failed", "detail": e}))
    if not jobs and not load_errors:
        und.append((None, {}, {"name": "contracts exist", "status": "failed", "detail": "no contract is declared for this property"}))
    if und and not confirmed:
        path = f"replays/{prop}-obligations.json"
        json.dump({"property": prop, "undischarged": [{"contract": c.name if c else None, "case": k, **u} for c, k, u in und[:40]]},
                  open(path, "w"), indent=1)
        c, k, u = und[0]
        for c, k, u in und[:6]:
            print(f"undischarged: {c.name if c else '-'} {k} '{u['name']}' ({u['status']}): {str(u.get('detail'))[:400]}")
        lines.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
    for c, k, u in left[:6]:
        print(f"not proved, decided by the bounded contract {', '.join(c.standin)}: {c.name} {k} '{u['name']}' ({u['status']}): {str(u.get('detail'))[:200]}")
    wall = time.time() - t0
    from dv import solve      # noqa: F401
    trusted = list(TRUSTED)
    json.dump({
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": ob, "discharged": dis,
            "checker_cmd": f"python3-vt check.py {prop} --tier {tier}",
            "trusted_base": trusted,
            "functions_under_contract": sorted(f for f in fns if f.startswith("src.")),
            "specification_functions": sorted(f for f in fns if not f.startswith("src.")),
            "contracts": tab,
            "paths": paths,
            "backends": {"z3 bit-vector queries": stats.get("bv", 0), "z3 integer queries": stats.get("int", 0),
                         "decided without a solver (intervals, syntactic)": max(0, ob + bob - stats.get("obl", ob + bob)),
                         "cache hits": stats.get("cache", 0), "unsat verdicts confirmed by cvc5": stats.get("cvc5", 0),
                         "left open by cvc5": stats.get("cvc5 open", 0), "contradicted by cvc5": stats.get("cvc5 disagrees", 0), "unknown": stats.get("unknown", 0)},
            "solver_time_s": round(stats.get("time", 0.0), 2),
            "bounded_obligations": bob, "bounded_discharged": bdis,
            "bounds": {n: t["bounded"] for n, t in tab.items() if t["bounded"]},
            "undischarged": [{"contract": c.name if c else None, "case": k, "name": u["name"], "status": u["status"]} for c, k, u in und[:20]],
            "not_proved_bounded_contract_decides": [{"contract": c.name, "case": k, "name": u["name"], "status": u["status"],
                                                     "decided_by": list(c.standin)} for c, k, u in left[:20]],
            "cpython_cross_checks": wit,
            "evaluations": native, "distinct_nontrivial": met,
            "rule": "concrete search: boundary-biased random inputs of every contract run on the real code; non-trivial = meets the precondition",
        },
        "assumptions": trusted[3:] + [f"summary used at call sites, proved by its own contract: {s}" for s in sorted(sums)],
        "wall_s": round(wall, 2), "violations": len(lines),
    }, open(f"evidence/{prop}.json", "w"), indent=1)
    for kf in known(prop, C):
        print(kf)
    for l in lines:
        print(l)
    print(f"{prop} {tier}: {len(jobs)} jobs, {dis}/{ob} obligations discharged"
          + (f" (+{bdis}/{bob} bounded)" if bob else "") + f", {paths} paths, {wit} cross-checks, {met}/{native} concrete runs, "
          f"solver {stats.get('time', 0):.1f}s, wall {wall:.1f}s")
    sys.exit(1 if lines else 0)


def known(prop, C):
    out = []
    f = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(f):
        for e in open(f):
            if e.startswith(f"known: property={prop} "):
                out.append("KNOWN-FINDING: " + e[len("known: "):].strip())
    return out


if __name__ == "__main__":
    import multiprocessing.connection      # noqa: F401
    main()
