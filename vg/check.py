"""check.py --property ID [--tier quick|thorough]: decides the obligations of one property.

Every obligation is a driver (a few lines calling the public interface).  The
analyser maps it, with everything it calls in /repo inlined, to a value-graph
term, does the same with the reference contract, and compares the normal forms."""
import argparse
import ast
import json
import os
import sys
import time
import traceback
from multiprocessing import Process, Queue

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(30000)

TIMEOUT = {"quick": 420, "thorough": 800}


def run_obligation(mode, dfile, drv, q):
    import resource
    import threading
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    threading.stack_size(512 * 1024 * 1024)
    th = threading.Thread(target=_run, args=(mode, dfile, drv, q))
    th.start()
    th.join()


def _run(mode, dfile, drv, q):
    try:
        q.put(obligation(mode, dfile, drv))
    except BaseException as e:      # noqa: the checker's own failure is reported as undecided
        q.put({"driver": drv, "status": "error", "detail": "%s: %s" % (type(e).__name__, str(e)[:300]),
               "trace": traceback.format_exc()[-1500:]})


def obligation(mode, dfile, drv):
    from vg import terms as tm
    from vg import worlds as wd
    from vg.diff import compare
    from vg.interp import Interp
    t0 = time.time()
    impl, spec = wd.worlds(wd.MODES[mode], os.path.join(HERE, "contracts", "drivers", dfile + ".py"))
    r = {"driver": "%s.%s" % (dfile, drv), "mode": mode}
    outs = []
    for w in (impl, spec):
        ip = Interp(w)
        try:
            fn = w.mod("vgdrv").names[drv][1]
            outs.append(ip.run_driver(fn))
        except BaseException as e:
            r["status"] = "undecided" if w is impl else "error"
            r["detail"] = "analysis of %s gave up: %s %s" % (w.name, type(e).__name__, str(e)[:200])
            r["trace"] = traceback.format_exc()[-1200:]
            return r
        r[w.name] = {"functions": len(ip.visited), "calls": ip.calls, "loops": ip.loops, "joins": ip.joins,
                     "where": sorted(ip.visited), "opaque": sorted(set(ip.opaque))[:12], "missing": sorted(set(ip.missing))}
    drift = private_drift(impl, spec, drv)
    if drift:
        r["status"], r["detail"] = "undecided", "private helper reorganised: " + drift
        r["terms"], r["wall_s"] = len(tm._all), round(time.time() - t0, 2)
        return r
    r["terms"] = len(tm._all)
    r["wall_s"] = round(time.time() - t0, 2)
    if r["impl"]["missing"]:
        r["status"] = "different"
        r["diffs"] = [{"path": "", "impl": "name not defined: " + m, "spec": "defined", "definite": True, "why": ""}
                      for m in r["impl"]["missing"]]
        return r
    st, ps = compare(outs[0], outs[1])
    r["status"] = st
    r["diffs"] = [{"path": p.path, "definite": p.definite, "why": p.why,
                   "impl": tm.show(p.a, 7)[:700], "spec": tm.show(p.b, 7)[:700]} for p in ps[:12]]
    return r


def private_drift(impl, spec, drv):
    """a driver of a private helper says something only while the helper has the interface
    the contract knows; its users are covered by the drivers of the public interface"""
    mod = spec.mod("vgdrv")
    names, todo, seen = set(), [drv], set()
    while todo:
        d = todo.pop()
        if d in seen:
            continue
        seen.add(d)
        for n in ast.walk(mod.names[d][1].node):
            if isinstance(n, ast.Attribute) and n.attr.startswith("_") and not n.attr.startswith("__"):
                names.add(n.attr)
            elif isinstance(n, ast.Name) and mod.names.get(n.id, ("",))[0] == "func":
                todo.append(n.id)
    for n in sorted(names):
        a, b = _interface(impl, spec, n)
        for k in b:
            if a.get(k) != b[k]:
                return "%s.%s" % (k, n)
    return ""


def _interface(impl, spec, name):
    out = []
    used = [m for m in spec.mods.values() if m is not None and m.name.startswith("qiskit_optimization.")]
    for w in (impl, spec):
        t = {}
        for m in used:
            m = w.mod(m.name)
            if m is None:
                continue
            for ent in m.names.values():
                if ent[0] != "class":
                    continue
                e = ent[1]
                if name in e.methods:
                    f = e.methods[name]
                    x = f.node.args
                    t[e.name] = (f.static, f.classm, len(x.posonlyargs + x.args), len(x.kwonlyargs), len(x.defaults))
                elif any(isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store)
                         for n in ast.walk(e.node)):
                    t[e.name] = "field"
        out.append(t)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    reg = json.load(open(os.path.join(HERE, "contracts", "obligations.json")))
    p = reg[a.property]
    jobs = [(o["mode"], o["file"], d) for o in p["obligations"] for d in o["drivers"]]
    res = run_all(jobs, a.jobs, TIMEOUT[a.tier])
    helpers(res, reg["cover"], a.jobs, TIMEOUT[a.tier] - (time.time() - t0))
    from vg import rules
    for rule in p.get("rules", []):
        res.append(rules.run(rule))
    finish(a, p, jobs, res, time.time() - t0)


def helpers(res, cover, par, timeout):
    """differences confined to a private helper whose public users are all proved equal"""
    bad = [r for r in res if r["status"] == "different" and r["driver"] in cover]
    jobs = sorted({tuple(c) for r in bad for c in cover[r["driver"]]})
    have = {r["driver"]: r["status"] for r in res}
    need = [j for j in jobs if "%s.%s" % j[1:] not in have]
    for j, r in zip(need, run_all(need, par, timeout)):
        have["%s.%s" % j[1:]] = r["status"]
    for r in bad:
        if all(have.get("%s.%s" % tuple(c[1:])) == "equal" for c in cover[r["driver"]]):
            r["status"] = "covered"
            r["detail"] = "private helper reorganised; its public users are proved equal"


def run_all(jobs, par, timeout):
    todo, live, res = list(enumerate(jobs)), {}, {}
    while todo or live:
        while todo and len(live) < par:
            i, (m, f, d) = todo.pop(0)
            q = Queue()
            pr = Process(target=run_obligation, args=(m, f, d, q))
            pr.start()
            live[i] = (pr, q, time.time(), f, d)
        for i, (pr, q, t, f, d) in list(live.items()):
            got = None
            try:
                got = q.get(timeout=0.02)
            except Exception:
                if not pr.is_alive():
                    try:
                        got = q.get(timeout=0.5)
                    except Exception:
                        got = {"status": "undecided", "detail": "analysis process ended"}
                elif time.time() - t > timeout:
                    pr.kill()
                    got = {"status": "undecided", "detail": "analysis time limit"}
            if got is not None:
                got.setdefault("driver", "%s.%s" % (f, d))
                if "." not in got["driver"]:
                    got["driver"] = "%s.%s" % (f, d)
                res[i] = got
                pr.join(1)
                del live[i]
    return [res[i] for i in range(len(jobs))]


def known(pid):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("KNOWN-FINDING: property=%s " % pid):
                out.append(line.strip())
    return out


def finish(a, p, jobs, res, wall):
    bad = [r for r in res if r["status"] == "different"]
    err = [r for r in res if r["status"] == "error"]
    und = [r for r in res if r["status"] == "undecided"]
    held = [r for r in res if r["status"] in ("equal", "covered")]
    fns = sorted({w for r in res for w in r.get("impl", {}).get("where", [])})
    cov = {
        "programs": len(res),
        "disagreements_checked": sum(len(r.get("diffs", [])) for r in res),
        "obligations_equal": len(held),
        "obligations_undecided": [{"driver": r["driver"], "detail": r.get("detail") or [
            d["why"] for d in r.get("diffs", [])][:3]} for r in und],
        "functions_analysed": len(fns),
        "functions": fns,
        "calls_inlined": sum(r.get("impl", {}).get("calls", 0) for r in res),
        "loops_summarised": sum(r.get("impl", {}).get("loops", 0) for r in res),
        "joins_merged": sum(r.get("impl", {}).get("joins", 0) for r in res),
        "terms_built": sum(r.get("terms", 0) for r in res),
        "sites": sum(r.get("sites", 0) for r in res),
        "rule": "the normal form of every driver over /repo equals the normal form over the reference contract; "
                "a difference between two fully understood normal forms is a violation",
        "samples": [{k: r[k] for k in ("driver", "status", "wall_s") if k in r} for r in res],
        "explanation": "value-graph translation validation of /repo's current source against the contract; "
                       "nothing is executed and no solver is used",
    }
    ev = {"property": a.property, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
          "level": "translation_validation", "coverage": cov, "wall_s": round(wall, 2), "violations": len(bad),
          "assumptions": ["floating-point arithmetic is treated as real arithmetic",
                          "external libraries are uninterpreted functions of their arguments",
                          "names of variables of a program are unique (decided by the registry property)"]}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.property + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for r in res:
        print("%-9s %-44s %6ss" % (r["status"], r["driver"], r.get("wall_s", "?")), r.get("detail", ""))
        if r["status"] == "error" or a.v:
            print(r.get("trace", ""))
        if r["status"] in ("different", "undecided"):
            for d in r.get("diffs", [])[:4]:
                print("   at result%s %s\n     code:     %s\n     contract: %s" % (
                    d["path"], ("" if d["definite"] else "(undecided: %s)" % d["why"]), d["impl"], d["spec"]))
            if "impl" in r and r["status"] == "different":
                print("   analysed: " + ", ".join(r["impl"]["where"][:12]))
    for k in known(a.property):
        print(k)
    if bad:
        rp = os.path.join(HERE, "evidence", a.property + ".violation.json")
        with open(rp, "w") as f:
            json.dump(bad, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (a.property, rp))
        sys.exit(1)
    if err:
        print("ERROR: the contract itself could not be analysed")
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
