"""hand.py FILE.py [name..]: runs the drivers reaching the edited functions on hand-written variants.
FILE defines V = [(name, path below qiskit_optimization, [(old, new), ..]), ..]"""
import ast, difflib, importlib.util, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = "/tmp/dmap.json"
ONE = r'''
import sys, json, os
sys.path.insert(0, %r); sys.setrecursionlimit(30000)
import threading; threading.stack_size(512*1024*1024)
from vg import check
def go():
    try:
        r = check.obligation(*sys.argv[1:4])
    except BaseException as e:
        r = {"status": "error", "detail": repr(e)[:300]}
    print("@@" + json.dumps(r))
t = threading.Thread(target=go); t.start(); t.join()
''' % HERE


def one(j, repo, tmo=400):
    try:
        p = subprocess.run(["nice", sys.executable, "-c", ONE, *j], env=dict(os.environ, VG_REPO=repo), capture_output=True, text=True, timeout=tmo)
        l = [x for x in p.stdout.splitlines() if x.startswith("@@")]
        return json.loads(l[0][2:]) if l else {"status": "crash", "detail": p.stderr[-300:]}
    except subprocess.TimeoutExpired:
        return {"status": "timeout"}


def jobs():
    reg = json.load(open(os.path.join(HERE, "contracts", "obligations.json")))
    reg.pop("cover")
    return sorted({(o["mode"], o["file"], d) for p in reg.values() for o in p["obligations"] for d in o["drivers"]})


def dmap():
    if not os.path.exists(MAP):
        out = []
        with ThreadPoolExecutor(8) as ex:
            for j, r in zip(jobs(), ex.map(lambda j: one(j, "/repo"), jobs())):
                out.append((j, r["status"], r.get("impl", {}).get("where", []), r.get("wall_s")))
        json.dump(out, open(MAP, "w"))
    return json.load(open(MAP))


def spans(src):
    out = []
    def walk(n, q):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                qq = q + [c.name]
                if isinstance(c, ast.FunctionDef):
                    a = min([c.lineno] + [d.lineno for d in c.decorator_list])
                    out.append((a, c.end_lineno, ".".join(qq)))
                walk(c, qq)
            else:
                walk(c, q)
    walk(ast.parse(src), [])
    return out


def main():
    spec = importlib.util.spec_from_file_location("hv", sys.argv[1])
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    names = sys.argv[2:]
    dm = dmap()
    for name, path, edits in m.V:
        if names and name not in names:
            continue
        tmp = tempfile.mkdtemp(prefix="hand")
        try:
            shutil.copytree("/repo/qiskit_optimization", tmp + "/qiskit_optimization")
            f = os.path.join(tmp, "qiskit_optimization", path)
            old = src = open(f).read()
            for a, b in edits:
                if src.count(a) < 1:
                    print(name, "EDIT NOT FOUND:", a[:80]); break
                src = src.replace(a, b, 1)
            else:
                open(f, "w").write(src)
                ast.parse(src)
                ol, nl = old.splitlines(), src.splitlines()
                touched = set()
                for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, ol, nl, False).get_opcodes():
                    if tag != "equal":
                        for a, b, q in spans(old):
                            if i1 < b and i2 >= a and (i1 != i2 or a <= i1 < b):
                                touched.add(q)
                js = [(j, w) for j, st, wh, w in dm if any(x.endswith(path + ":" + q) for x in wh for q in touched)]
                if not js:
                    print(name, "NO DRIVERS for", sorted(touched)); continue
                with ThreadPoolExecutor(8) as ex:
                    rs = list(ex.map(lambda j: one(j[0], tmp, 120 + 6 * (j[1] or 1)), js))
                bad = [(j[0][2], r) for j, r in zip(js, rs) if r["status"] != "equal"]
                print("%-34s %d drivers, %d not equal %s" % (name, len(js), len(bad), sorted(touched)[:4] if not bad else ""), flush=True)
                for d, r in bad:
                    print("     %s: %s %s" % (d, r["status"], str(r.get("detail", ""))[:200]))
                    if r["status"] == "different":
                        for x in r["diffs"][:1]:
                            print("        at %s\n          code %s\n          spec %s" % (x["path"], x["impl"][:260], x["spec"][:260]))
        finally:
            shutil.rmtree(tmp)


main()
