#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py; --covers records what a clean run reached"""
import json, os, sys
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.abspath(__file__))
TECH = "symbolic execution of the compiled LLVM IR of /repo (own engine), SMT (Z3 bit-vectors) deciding every branch and assertion; counterexamples replayed natively"
with open(V + "/properties.jsonl", "w") as f:
    for pid, p in sorted(PROPS.items()):
        f.write(json.dumps(dict(id=pid, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=p["mechanism"], observe_at=p["observe_at"], hook_needed=None))) + "\n")
    for pid, (title, st, over, text, files, why) in sorted(NOT_APPLICABLE.items()):
        f.write(json.dumps(dict(id=pid, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant="not decided here: " + why,
                                anchors=dict(files=files, mechanism=[]))) + "\n")
checks = []
for pid, p in sorted(PROPS.items()):
    b = p["bounds"]
    q, t = (b, b) if isinstance(b, str) else (b[0], b[1])
    checks.append(dict(property=pid, quick_cmd=f"python3 check.py {pid} --tier quick", thorough_cmd=f"python3 check.py {pid} --tier thorough", evidence_file=f"evidence/{pid}.json",
                       technique=TECH, level="model_checking",
                       level_note=f"holds for every input within the bounds (quick: {q}" + (f"; thorough: {t}" if t != q else "") + "). Trusts rustc's IR, the engine's instruction semantics (a sample of paths is re-run natively on every check and must agree) and Z3." + (" " + p["note"] if p["note"] else "")))
m = dict(version=1, setup_cmd="python3 check.py --setup", hooks=dict(guard="none", enable="no hooks: the checks use the public API only", source_commits=[]), checks=checks,
         not_applicable=[dict(property=pid, reason=x[-1]) for pid, x in sorted(NOT_APPLICABLE.items())],
         notes="All checks build /repo's current tree together with /verif/harness into one LLVM module and execute it symbolically with /verif/engine. See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
if "--covers" in sys.argv:
    C = {}
    for pid in PROPS:
        e = json.load(open(f"{V}/evidence/{pid}.json"))
        assert e["coverage"]["exhaustive"], pid
        for h, x in e["coverage"]["harnesses"].items():
            C.setdefault(h, {})["1" if e["tier"] == "thorough" else "0"] = sorted(x["covers"])
    json.dump(C, open(V + "/covers.json", "w"), indent=1, sort_keys=True)
try:
    import jsonschema
    for l in open(V + "/properties.jsonl"):
        jsonschema.validate(json.loads(l), json.load(open("/root/.vp/PROPERTIES.schema.json")))
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid", len(checks), "checks")
except ImportError:
    pass
