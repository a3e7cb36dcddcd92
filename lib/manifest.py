"""Write MANIFEST.json from props.py (run by hand after editing props.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import props
m = {
    "version": 1,
    "setup_cmd": "bash lib/setup.sh",
    "checks": [
        {"property": k, "quick_cmd": "./check %s quick" % k, "thorough_cmd": "./check %s thorough" % k,
         "technique": "symbolic execution of the real code's LLVM IR with Z3 (rsx), counterexamples replayed natively",
         "level": "model_checking", "level_note": v.get("note", "Bounded: holds for every value of the symbolic inputs within the bounds listed in the evidence; "
         "nothing is claimed outside them. Trusts rustc's IR, the rsx executor and its libc stubs, and Z3.")}
        for k, v in props.PROPS.items()],
    "not_applicable": getattr(props, "NOT_APPLICABLE", []),
    "notes": "DESIGN.md describes the machinery, bounds and trusted base.",
}
if getattr(props, "HOOKS", None):
    m["hooks"] = props.HOOKS
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
