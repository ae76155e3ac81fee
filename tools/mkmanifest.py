import json, sys, subprocess
sys.path.insert(0, "/verif/vc")
from props import PROPS
ps = {json.loads(l)["id"]: json.loads(l) for l in open("/verif/properties.jsonl")}
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^Guarded hook"], capture_output=True, text=True).stdout.split()
checks = []
for i, P in PROPS.items():
    proofy = bool(P["fns"])
    checks.append({"property": i, "quick_cmd": "python3 vc/run.py %s --tier quick" % i, "thorough_cmd": "python3 vc/run.py %s --tier thorough" % i,
        "technique": ("contract-based deductive verification (Verus) of the functions extracted from /repo" + ("" if P["level"] == "proof" else "; bounded concrete search for the parts not under contract")) if proofy else
                     "bounded concrete search standing in for contracts not yet within reach",
        "level": P["level"],
        "level_note": (("Contracts decide: " + P["decides"] + " ") if P["decides"] else "") + (("Bounded only (not counted as proved): " + P["rest"] + " ") if P["rest"] else "") +
            "Trusts clang's AST, the translator and heap model in vc/, Verus and Z3; allocation succeeds."})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "hooks": {"guard": "FLBWT_VERIFY_HOOKS", "enable": "the search compiles /repo/src with -DFLBWT_VERIFY_HOOKS", "source_commits": hook},
     "checks": checks, "not_applicable": []}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
