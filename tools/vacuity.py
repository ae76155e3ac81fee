"""Reachability guard: assert(false) placed at every exit and every loop end of a function under contract must be refused.
usage: vacuity.py PROPERTY...   lists the points that are (wrongly) unreachable, that is, proved vacuously"""
import sys, os, time, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vc"))
import cxxast, vc, spec
from props import PROPS
MARK = "proof { assert(false /*vacuity %s*/); }"
def points(keys, specs):
    out = []
    for k in keys:
        out.append((k, "exit"))
        for l in specs[k].loops: out.append((k, "loop %s end" % l))
        for a in dict.fromkeys(a for a, _ in specs[k].hints):
            if a != "entry" and (k, a) not in out: out.append((k, a))
    return out
def attempt(prog, keys, pts, timeout, by=()):
    """points of pts that are refused when all are placed at once"""
    specs = spec.load(os.path.join(vc.HERE, "specs"))
    for i, (k, a) in enumerate(pts): specs[k].hints.append((a, MARK % i))
    c = vc.Crate(prog, keys, specs, by)
    want = {}
    for k in {p[0] for p in pts}:
        a, b, _ = c.fn_lines[k]
        for ln in range(a, b + 1):
            t = c.lines[ln - 1]
            if "/*vacuity " in t: want.setdefault(int(t.split("/*vacuity ")[1].split("*/")[0]), []).append(ln)
    d = tempfile.mkdtemp()
    try: r = c.verify(d, sorted({"f_" + c.tr.rname(k) for k, _ in pts}), timeout=timeout, nerr=60)
    finally: shutil.rmtree(d, ignore_errors=True)
    got = {a["rs"] for e in r["errors"] for a in e["at"]}
    ok, bad = [], []
    for i, p in enumerate(pts):
        ls = want.get(i)
        if not ls: continue                      # no such point (a loop that always leaves)
        # a single point: it is enough that the function is not proved with it
        (ok if any(l in got for l in ls) or (len(pts) == 1 and r["nerrors"]) else bad).append(p)
    return ok, bad
def run(prop, prog, timeout=600, budget=1e9):
    t0 = time.time()
    keys = PROPS[prop]["fns"]
    if not keys: return 0, []
    pts = points(keys, spec.load(os.path.join(vc.HERE, "specs")))
    ok, bad = attempt(prog, keys, pts, timeout, PROPS[prop]["by"])
    still = []
    for p in bad:                                # one at a time: several at once can exhaust the solver
        if time.time() - t0 > budget: still.append("%s: %s (not tried alone)" % p); continue
        o, b = attempt(prog, keys, [p], timeout, PROPS[prop]["by"])
        if b: still.append("%s: %s" % p)
        else: ok.append(p)
    return len(ok) + len(still), still
if __name__ == "__main__":
    prog = cxxast.Program("/repo")
    for p in sys.argv[1:]:
        n, bad = run(p, prog)
        print(p, "%d reachability points, %d refused as they must" % (n, n - len(bad)))
        for x in bad: print("   not refused:", x)
