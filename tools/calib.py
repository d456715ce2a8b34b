"""calib.py {r|m} OUT [--prop P..] [--drv file.driver..] [--max N] [--kinds k,k] [--seconds S]: runs the checks on source variants"""
import argparse
import json
import os
import random
import signal
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.setrecursionlimit(30000)
threading.stack_size(512 * 1024 * 1024)
import variants                         # noqa
from vg import terms as tm              # noqa
from vg import worlds as wd             # noqa
from vg.diff import compare             # noqa
from vg.interp import Interp            # noqa


def jobs(a):
    reg = json.load(open(os.path.join(HERE, "contracts", "obligations.json")))
    reg.pop("cover", None)
    out = {}
    for p, r in reg.items():
        if a.prop and p not in a.prop:
            continue
        for o in r["obligations"]:
            for d in o["drivers"]:
                if a.drv and "%s.%s" % (o["file"], d) not in a.drv:
                    continue
                out.setdefault((o["mode"], o["file"], d), []).append(p)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("what")
    ap.add_argument("out")
    ap.add_argument("--prop", nargs="*")
    ap.add_argument("--drv", nargs="*")
    ap.add_argument("--max", type=int, default=10 ** 9)
    ap.add_argument("--kinds")
    ap.add_argument("--seconds", type=float, default=60)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=7)
    a = ap.parse_args()
    table = variants.REWRITES if a.what == "r" else variants.FAULTS
    if a.kinds:
        table = {k: v for k, v in table.items() if k in a.kinds.split(",")}
    rng = random.Random(a.seed)
    tmp = tempfile.mkdtemp(prefix="calib")
    outf = open(a.out, "w")
    cache = {}
    for (mode, f, d), props in jobs(a).items():
        dr = os.path.join(HERE, "contracts", "drivers", f + ".py")
        impl, spec = wd.worlds(wd.MODES[mode], dr)
        pid = os.fork()
        if pid:
            os.waitpid(pid, 0)
            outf.close()
            outf = open(a.out, "a")
            continue
        ip = Interp(spec)
        t0 = time.time()
        ref = ip.run_driver(spec.mod("vgdrv").names[d][1])
        base = time.time() - t0
        ip = Interp(impl)
        ip.run_driver(impl.mod("vgdrv").names[d][1])
        vs = []
        byfile = {}
        for w in ip.visited:
            file, q = w.split(":")[0], w.split(":")[1]
            byfile.setdefault(file, set()).add(q)
        for file, qs in sorted(byfile.items()):
            path = os.path.join(wd.REPO, file) if not os.path.isabs(file) else file
            if not path.startswith(wd.REPO + "/"):
                continue
            mod = os.path.relpath(path, wd.REPO)[:-3].replace("/", ".")
            for q, kind, k, src in variants.generate(path, table, qs):
                vs.append((mod, q, kind, k, src))
        rng.shuffle(vs)
        vs = vs[:min(a.max, max(8, int(a.seconds * a.jobs / max(base, 0.05))))]
        live = {}
        t1 = time.time()

        def reap(block):
            for p, (v, rf, t) in list(live.items()):
                r, _ = os.waitpid(p, os.WNOHANG)
                if r:
                    try:
                        res = json.load(open(rf))
                        os.unlink(rf)
                    except Exception:
                        res = {"status": "crash", "diffs": []}
                elif time.time() - t > 30 + 6 * base:
                    os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                    res = {"status": "timeout", "diffs": []}
                else:
                    continue
                del live[p]
                outf.write(json.dumps(dict(mod=v[0], fn=v[1], kind=v[2], k=v[3], drv="%s.%s" % (f, d), mode=mode, props=props, **res)) + "\n")
            if live and block:
                time.sleep(0.003)

        for n, v in enumerate(vs):
            while len(live) >= a.jobs:
                reap(True)
            vf = os.path.join(tmp, "v%d.py" % n)
            open(vf, "w").write(v[4])
            rf = vf + ".json"
            p = os.fork()
            if p == 0:
                def child():
                    w = wd.worlds(wd.MODES[mode], dr)[0]
                    w.extra = dict(w.extra)
                    w.extra[v[0]] = vf
                    try:
                        i2 = Interp(w)
                        o = i2.run_driver(w.mod("vgdrv").names[d][1])
                        st, ps = compare(o, ref)
                        if i2.missing:
                            st, ps = "different", []
                        r = {"status": st, "diffs": [[q.path, q.definite, q.why, tm.show(q.a, 5)[:300], tm.show(q.b, 5)[:300]] for q in ps[:4]]}
                    except BaseException as e:      # noqa
                        r = {"status": "giveup", "diffs": [repr(e)[:200]]}
                    json.dump(r, open(rf, "w"))
                th = threading.Thread(target=child)
                th.start()
                th.join()
                os._exit(0)
            live[p] = (v, rf, time.time())
        while live:
            reap(True)
        outf.flush()
        print("%s.%s base %.2fs variants %d in %.0fs" % (f, d, base, len(vs), time.time() - t1), flush=True)
        os._exit(0)


def run():
    t = threading.Thread(target=main)
    t.start()
    t.join()


run()
