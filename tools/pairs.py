"""pairs.py FILE..: functions x_spec / x_impl of each file must have equal normal forms (ne_x: different)"""
import sys, os, threading
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.setrecursionlimit(30000); threading.stack_size(512 * 1024 * 1024)
from vg import worlds as wd, terms as tm
from vg.interp import Interp
from vg.diff import compare


def go():
    for f in sys.argv[1:]:
        w = wd.worlds(wd.MODES["client"], os.path.abspath(f))[0]
        names = w.mod("vgdrv").names
        for n in names:
            if not n.endswith("_spec"):
                continue
            for m in names:
                if m.startswith(n[:-5] + "_impl"):
                    o = []
                    for x in (m, n):
                        ip = Interp(w)
                        o.append(ip.run_driver(names[x][1]))
                    st, ps = compare(*o)
                    want = "different" if n.startswith("ne_") else "equal"
                    print("%-5s %-30s %s" % ("ok" if st == want else "FAIL", m, st))
                    if st != want:
                        for p in ps[:2]:
                            print("   ", p.path, tm.show(p.a, 9)[:500], "\n    ", tm.show(p.b, 9)[:500])


t = threading.Thread(target=go); t.start(); t.join()
