#!/usr/bin/env python3
"""Check of one property: deductive verification of the extracted functions, plus a concrete search on the real code.
usage: run.py PROPERTY [--tier quick|thorough]      run.py PROPERTY --replay FILE
exit 0: every obligation discharged (or, where no proof is claimed or extraction fails, nothing found);
exit 1 with a VIOLATION line: a failing input was found, or an obligation is refused."""
import os, re, sys, json, time, threading, traceback, hashlib, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import search
from props import PROPS
REPO = os.environ.get("VERIF_REPO", "/repo")
SEARCH_ONLY = "--search-only" in sys.argv

def proof(prop, out):
    """out: dict filled with status ok|refuted|undecided|none and details"""
    P = PROPS[prop]
    out.update(status="none", failures=[], reason="", obligations=0, discharged=0, functions=[], cmd="", smt_s=0.0, wall=0.0)
    if not P["fns"] and not P["libs"]: return
    d = tempfile.mkdtemp(prefix="flbwt-proof-%s-" % prop)
    try:
        import cxxast, vc
        t0 = time.time()
        try:
            prog = cxxast.Program(REPO)
            c = vc.Crate(prog, P["fns"], by=P["by"])
        except Exception as e:      # extraction does not reach the changed code
            out.update(status="undecided", reason="extraction: %s: %s" % (type(e).__name__, str(e)[:400])); return
        out["extract_s"] = round(time.time() - t0, 1)
        r = c.verify(d, timeout=int(os.environ.get("VERIF_PROOF_TIMEOUT", "420")))
        out["cmd"], out["wall"] = r["cmd"], round(r["wall"], 1)
        out["functions"] = sorted(k for k in c.fns if not c.specs.get(k) or not c.specs[k].assumed)
        out["trusted"] = c.trusted()
        out["obligations"] = r["verified"] + r["nerrors"]; out["discharged"] = r["verified"]
        if r["json"]:
            try: out["smt_s"] = r["json"]["times-ms"]["smt"]["total"] / 1000.0
            except Exception: pass
        out["breakdown"] = c.breakdown(r)
        for k, f in c.fns.items():
            for a, _ in (f.spec.hints if f.spec else []):
                if a not in f.used_hints: out.setdefault("unused_hints", []).append(k + ": " + a)
        if r["success"] and r["nerrors"] == 0:
            missing = [k for k in P["fns"] if not out["breakdown"].get(k, {}).get("queries")]
            if r["verified"] == 0 or missing: out.update(status="undecided", reason="no obligations generated for " + ", ".join(missing)); return
            out["status"] = "ok"; return
        if r["rc"] is None: out.update(status="undecided", reason="verifier time limit"); return
        if r["nerrors"] == 0:
            out.update(status="undecided", reason="extracted text is outside the contracts' shape: " + "; ".join(e["msg"] for e in r["errors"][:3]) + r["raw"][:300]); return
        real = [e for e in r["errors"] if not any(w in e["msg"].lower() for w in ("rlimit", "resource limit", "timeout", "aborting due"))]
        if not real: out.update(status="undecided", reason="solver resource limit"); return
        out["status"] = "refuted"
        for e in real:
            out["failures"].append({"obligation": e["msg"], "at": [{"function": a["fn"], "source": "%s:%s" % (a["cfile"], a["cline"]) if a["cfile"] else None, "what": a["label"], "text": a["text"]} for a in e["at"]]})
    except Exception:
        out.update(status="undecided", reason="machinery: " + traceback.format_exc()[-600:])
    finally: shutil.rmtree(d, ignore_errors=True)

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    rdir = os.path.join(ROOT, "out", "replay"); os.makedirs(rdir, exist_ok=True)
    if "--replay" in sys.argv:
        s = search.Search(prop, REPO, seed, 0); s.build(); ok = True
        f = os.path.abspath(sys.argv[sys.argv.index("--replay") + 1])
        case = (re.findall(r"(?m)^CASE (\w+)", open(f, errors="replace").read()) or [""])[0]
        for d, exe in [("huge", s.huge)] if case == "runs" and s.huge else [("big", s.big)] if case == "long" and s.big else s.built:
            rc, o = search.sh([exe, s.dir, str(seed), "0", "1", "0", f], env=search.ENV, timeout=300); print(o)
            ok = ok and rc == 0
        s.close(); sys.exit(0 if ok else 1)
    pr = {}
    th = threading.Thread(target=(lambda: pr.update(status="none", failures=[], reason="")) if SEARCH_ONLY else (lambda: proof(prop, pr))); th.start()
    S = search.Search(prop, REPO, seed, 12 if tier == "quick" else 300)
    failure, cov = None, {}
    try:
        if S.build(): failure, cov = S.run()
        th.join()
        # no proof of this text: search longer before giving up
        if failure is None and pr["status"] in ("refuted", "undecided") and S.built and not SEARCH_ONLY:
            S.seed = seed + 1
            failure, cov2 = S.run((90 if pr["status"] == "refuted" else 45) if tier == "quick" else 300, scale=8)
            cov["evaluations"] += cov2["evaluations"]; cov["distinct_nontrivial"] += cov2["distinct_nontrivial"]
    finally:
        th.join(); S.close()
    P = PROPS[prop]
    reach = None
    if tier == "thorough" and pr["status"] == "ok":
        try:
            sys.path.insert(0, os.path.join(ROOT, "tools")); import vacuity, cxxast
            n, bad = vacuity.run(prop, cxxast.Program(REPO), timeout=300, budget=300); reach = {"points": n, "unreachable": bad}
        except Exception as e: reach = {"error": str(e)[:300]}
    lines, rc = [], 0
    def replay(text):
        path = os.path.join(rdir, "%s-%s.txt" % (prop, hashlib.sha1(text.encode()).hexdigest()[:10]))
        open(path, "w").write(text); return os.path.relpath(path, ROOT)
    proof_text = ""
    if pr["status"] == "refuted":
        proof_text = "REFUSED OBLIGATIONS (verus):\n" + json.dumps(pr["failures"], indent=1) + "\n"
    if failure:
        text = "property %s\n%s\nreproduce: cd /verif && python3 vc/run.py %s --replay <this file>\nCASE %s\n\n%s\n%s" % (prop, failure["msg"], prop, failure["case"], failure["output"], proof_text)
        lines.append("VIOLATION property=%s replay=%s" % (prop, replay(text))); rc = 1
        print("failing case: %s\n%s" % (failure["case"][:300], failure["msg"][:400]))
    elif pr["status"] == "refuted":
        for f in pr["failures"][:6]: print("refused: %s  %s" % (f["obligation"], [(a["function"], a["source"]) for a in f["at"]]))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay("property %s\n%sno failing input found by the concrete search (%s cases)\n" % (prop, proof_text, cov.get("evaluations"))))); rc = 1
    proved = pr["status"] == "ok"
    level = P["level"] if proved or P["level"] != "proof" else "exploration"
    cv = {"evaluations": cov.get("evaluations", 0), "distinct_nontrivial": cov.get("distinct_nontrivial", 0),
          "rule": "concrete cross-check on the compiled code (AddressSanitizer, UBSan): enumerated small cases, then random structured ones from VERIF_SEED; non-trivial: distinct cases above the smallest size",
          "samples": cov.get("samples", [])[:4] or ["none"], "search_notes": S.notes, "drivers": cov.get("drivers", [])}
    if P["fns"] or P["libs"]:
        cv.update(obligations=pr.get("obligations", 0), discharged=pr.get("discharged", 0), checker_cmd=pr.get("cmd", ""),
                  trusted_base=pr.get("trusted", []) or ["see DESIGN.md"], functions_under_contract=pr.get("functions", []), back_end="Verus 0.2026.09.13 / Z3",
                  solver_s=pr.get("smt_s", 0), verifier_wall_s=pr.get("wall", 0), per_function=pr.get("breakdown", {}), proof_status=pr["status"], proof_reason=pr.get("reason", ""),
                  decided_by_contracts=P["decides"], bounded_only=P["rest"], unused_hints=pr.get("unused_hints", []))
        if reach: cv["reachability_guard"] = reach
        print("proof: %s, %d of %d obligations discharged, %d functions%s" % (pr["status"], cv["discharged"], cv["obligations"], len(cv["functions_under_contract"]), "; " + pr["reason"] if pr["reason"] else ""))
    else: cv["explanation"] = "bounded search only: " + P["rest"]
    print("search: %d cases, %d distinct and non-trivial%s" % (cv["evaluations"], cv["distinct_nontrivial"], "; " + "; ".join(S.notes) if S.notes else ""))
    known = os.path.join(ROOT, "known_findings.txt")
    for l in (open(known).read().split("\n") if os.path.exists(known) else []):
        if l.startswith("finding: property=%s " % prop): lines.append("KNOWN-FINDING: " + l[len("finding: "):])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cv, "assumptions": ASSUME + [x for x in pr.get("trusted", []) if x.startswith("contract of ")], "wall_s": round(time.time() - t0, 1), "violations": 1 if rc else 0}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    for l in lines: print(l)
    sys.stdout.flush()
    sys.exit(rc)

ASSUME = ["malloc, realloc and new succeed", "the clang AST of /repo denotes the code that is compiled; the translation tools/vc of its C++ subset and the heap model in vc/prelude.py",
          "integer conversions and shifts of signed values as gcc and clang define them (modular)", "pointer arithmetic is checked where a pointer is dereferenced, compared or subtracted"]
if __name__ == "__main__": main()
