#!/usr/bin/env python3
"""Records the integer types of the locals of every annotated function (vc/vartypes.json); run on the unchanged tree."""
import os, sys, json
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(ROOT, "vc"))
import cxxast, vc
from props import PROPS
c = vc.Crate(cxxast.Program("/repo"), sorted({k for p in PROPS.values() for k in p["fns"]}))
out = {}
for k, f in sorted(c.fns.items()):
    ty = {}
    for nm, t in f.varlist: ty.setdefault(nm, set()).add(t)
    d = {n: list(t)[0] for n, t in sorted(ty.items()) if len(t) == 1 and list(t)[0][:1] in "iu" and list(t)[0][1:].isdigit()}
    if d: out[k] = d
json.dump(out, open(os.path.join(ROOT, "vc", "vartypes.json"), "w"), indent=0, sort_keys=True)
