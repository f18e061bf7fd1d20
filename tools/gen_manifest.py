"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); sys.path.insert(0, V)
import props
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    if i not in props.PROPS: continue
    p = props.PROPS[i]
    checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
        technique="symbolic execution of the LLVM bitcode of the real sources (and of the generated machine code), verification conditions decided by Z3 over bit-vectors", level=p["level"],
        level_note=(p["explain"] + " Bounds: " + p["bounds"])[:900]))
na = [dict(property=i, reason=props.NOT_APPLICABLE[i]) for i in ids if i not in props.PROPS]
m = dict(version=1, setup_cmd="mkdir -p build && make -C engine -j8", checks=checks, not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
