"""Build the verification crate for a set of functions and run the verifier."""
import os, re, json, subprocess, sys, time, glob
import cxxast, translate, prelude, spec
from cxxast import Unsupported

HERE = os.path.dirname(os.path.abspath(__file__))

def libs():
    out = {}
    for p in sorted(glob.glob(os.path.join(HERE, "lib", "*.rs"))):
        out[os.path.basename(p)[:-3]] = open(p).read()
    return out

def lib_deps(name, all_libs, seen=None):
    seen = seen if seen is not None else set()
    if name in seen: return seen
    seen.add(name)
    m = re.search(r"(?m)^//\s*uses:\s*(.*)$", all_libs[name])
    for d in (m.group(1).split() if m else []): lib_deps(d, all_libs, seen)
    return seen

class Crate:
    def __init__(self, prog, keys, specs=None, by=()):
        self.prog = prog
        self.specs = specs or spec.load(os.path.join(HERE, "specs"))
        self.by = dict(by)
        self.assumed = sorted(k for k in self.specs if self.specs[k].assumed)
        for k in self.by: self.specs[k].assumed = True
        self.tr = translate.Translator(prog, self.specs)
        self.keys = keys
        self.fns = self.tr.translate_all(list(keys))
        self.libs = libs()
        self.modules = []
        self.build()

    def build(self):
        lines, lmap = [], {}
        def addt(t):
            for l in t.split("\n"): lines.append(l)
        addt(prelude.text(self.tr))
        addt("pub use base::*;")
        self.used_libs = set()
        for k in self.fns:
            for u in (self.specs[k].uses if k in self.specs else []): lib_deps(u, self.libs, self.used_libs)
        for n, t in self.libs.items():
            start = len(lines) + 1
            addt("pub mod lib_%s { use super::*;\n%s\n}\npub use lib_%s::*;" % (n, subst_lib(t), n))
            lmap[n] = (start, len(lines))
        self.lib_lines = lmap
        self.fn_lines = {}
        for k, f in sorted(self.fns.items()):
            m = "f_" + self.tr.rname(k)
            lines.append("pub mod %s { use super::*;" % m)
            start = len(lines) + 1
            self.fn_lines[k] = [start, None, {}]
            for t, cl in f.text():
                for l in t.split("\n"):
                    lines.append(l)
                    if cl: self.fn_lines[k][2][len(lines)] = cl
            self.fn_lines[k][1] = len(lines)
            lines.append("}")
            lines.append("pub use %s::*;" % m)
        addt("} // verus\nfn main() {}")
        self.text = "\n".join(lines)
        self.lines = lines

    def where(self, line):
        for k, (a, b, mp) in self.fn_lines.items():
            if a <= line <= b:
                l = line
                while l >= a and l not in mp: l -= 1
                f = self.prog.fns.get(k)
                return k, (os.path.basename(f.node["_file"]) if f else "?"), mp.get(l)
        for n, (a, b) in self.lib_lines.items():
            if a <= line <= b: return "lib:" + n, None, None
        return None, None, None

    def verify(self, out_dir, modules=None, extra=(), timeout=600, threads=8, nerr=3):
        os.makedirs(out_dir, exist_ok=True)
        path = os.path.join(out_dir, "crate.rs")
        open(path, "w").write(self.text)
        mods = modules
        if mods is None:
            mods = ["base"] + ["lib_" + n for n in sorted(self.used_libs)] + ["f_" + self.tr.rname(k) for k in sorted(self.fns)]
        cmd = ["verus", path, "--num-threads", str(threads), "--output-json", "--time-expanded", "--error-format=json", "--multiple-errors", str(nerr)]
        for m in mods: cmd += ["--verify-module", m]
        cmd += list(extra)
        t0 = time.time()
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=out_dir)
            rc, so, se = p.returncode, p.stdout.decode(), p.stderr.decode()
        except subprocess.TimeoutExpired as e:
            rc, so, se = None, "", ""
        r = {"cmd": " ".join(cmd), "rc": rc, "wall": time.time() - t0, "errors": [], "verified": 0, "nerrors": 0, "raw": "", "json": None, "modules": mods}
        try:
            r["json"] = json.loads(so[so.index("{"):])
            vr = r["json"]["verification-results"]
            r["verified"], r["nerrors"] = vr.get("verified", 0), vr.get("errors", 0)
            r["vir_error"] = vr.get("encountered-vir-error", False)
            r["success"] = p.returncode == 0 and not vr.get("encountered-error", True) and vr.get("errors") == 0
        except Exception as e:
            r["success"] = False
        for l in se.split("\n"):
            l = l.strip()
            if not l.startswith("{"):
                if l: r["raw"] += l + "\n"
                continue
            try: d = json.loads(l)
            except Exception: continue
            if d.get("level") != "error": continue
            spans = d.get("spans", [])
            prim = [s for s in spans if s.get("is_primary")] or spans
            e = {"msg": d["message"], "code": (d.get("code") or {}), "at": []}
            for s in spans:
                k, f, cl = self.where(s["line_start"])
                e["at"].append({"fn": k, "cfile": f, "cline": cl, "rs": s["line_start"], "label": s.get("label"), "text": self.lines[s["line_start"] - 1].strip()[:300], "span": self.lines[s["line_start"] - 1][s["column_start"] - 1:s["column_end"] - 1 if s["line_end"] == s["line_start"] else None]})
            r["errors"].append(e)
        return r

    def trusted(self):
        """mechanical scan of the crate for everything that is assumed"""
        t, out = self.text, []
        out.append("heap and machine-integer primitives of vc/prelude.py: %d external_body functions" % t.count("external_body]"))
        for n, b in self.libs.items():
            for m in re.finditer(r"\b(assume|admit|external_body|axiom fn\s+\w+)", b): out.append("lib %s: %s" % (n, m.group(1)))
        for k, f in self.fns.items():
            txt = "\n".join(x for x, _ in f.text())
            for m in re.finditer(r"\b(assume\s*\(|admit\s*\(|external_body|assume_specification)", txt):
                out.append("contract of %s: discharged in the check of %s" % (k, self.by[k]) if k in self.by and k not in self.assumed else "contract of %s: assumed (%s)" % (k, m.group(1)))
        out += ["Verus 0.2026.09.13 and Z3", "clang 18 front end"]
        return out

    def breakdown(self, r):
        """queries and solver milliseconds per extracted function, as reported on this run"""
        out = {}
        try: ms = r["json"]["times-ms"]["smt"]["smt-run-module-times"]
        except Exception: return out
        names = {"f_" + self.tr.rname(k): k for k in self.fns}
        for m in ms:
            k = names.get(m.get("module", "").split("::")[-1])
            for f in m.get("function-breakdown", []):
                kk = k or ("lemmas:" + m.get("module", "?"))
                e = out.setdefault(kk, {"queries": 0, "ms": 0}); e["queries"] += 1; e["ms"] += f["time"]
        return out

def subst_lib(t): return t

def show(r):
    print("rc=%s verified=%s errors=%s wall=%.1fs" % (r["rc"], r["verified"], r["nerrors"], r["wall"]))
    if r["raw"]: print(r["raw"][:2000])
    for e in r["errors"][:25]:
        print("*", e["msg"])
        for a in e["at"]: print("     %s %s:%s [%s] rs%d: %s" % (a["fn"], a["cfile"], a["cline"], a["label"], a["rs"], (a["span"] if a["label"] and "failed" in a["label"] and len(a["span"]) < len(a["text"]) else a["text"])[:220]))

if __name__ == "__main__":
    import argparse, pickle
    ap = argparse.ArgumentParser()
    ap.add_argument("keys", nargs="*")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--only", action="store_true", help="verify only the named functions' modules")
    ap.add_argument("--lib", action="append", default=[])
    ap.add_argument("--out", default="/tmp/w/vcout")
    ap.add_argument("--pickle")
    ap.add_argument("--profile", action="store_true")
    ap.add_argument("--show", action="store_true")
    ap.add_argument("--extra", action="append", default=[])
    a = ap.parse_args()
    if a.pickle and os.path.exists(a.pickle): prog = pickle.load(open(a.pickle, "rb"))
    else:
        prog = cxxast.Program(a.repo)
        if a.pickle: pickle.dump(prog, open(a.pickle, "wb"))
    c = Crate(prog, a.keys)
    if a.show:
        for k in a.keys:
            s, e, _ = c.fn_lines[k]
            print("\n".join(c.lines[s - 1:e]))
    mods = None
    if a.only: mods = ["f_" + c.tr.rname(k) for k in a.keys] + ["lib_" + l for l in a.lib]
    elif a.lib and not a.keys: mods = ["lib_" + l for l in a.lib]
    r = c.verify(a.out, mods, extra=a.extra)
    show(r)
    if r["json"] and a.profile:
        ts = r["json"].get("times-ms", {})
        ms = ts.get("smt", {}).get("smt-run-module-times", [])
        fb = []
        for m in ms:
            for f in m.get("function-breakdown", []): fb.append((f["time"], f["function"], f.get("rlimit")))
        for x in sorted(fb, reverse=True)[:15]: print(x)
