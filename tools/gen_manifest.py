import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from runs import PROPS
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
NA = {
 "C26": "the CasADi based headers need the CasADi library and headers, which are not installed in this sandbox: the code cannot be compiled, so it cannot be encoded",
}
LN = ("Bounded: holds for all real values of the symbolic inputs within the ranges and sizes listed in evidence/<id>.json (runs[].bounds); solver verdict per obligation, counterexamples replayed natively. "
      "Trusts clang's front end and -O1 pipeline, the instrumentation pass, the term/normal-form layer and z3; floating-point rounding on symbolic data is abstracted to real arithmetic (constants are exact doubles).")
pending = "no check registered yet (work in progress)"
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": [{"property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough",
                 "technique": "solver-based symbolic execution of the compiled code (LLVM IR instrumentation, z3)", "level": "model_checking", "level_note": LN} for p in ids if p in PROPS],
     "not_applicable": [{"property": p, "reason": NA.get(p, pending)} for p in ids if p not in PROPS],
     "notes": "engine/: instrumentation pass, symbolic runtime, native replay runtime; harness/: one harness per group of properties; runs.py: table of symbolic runs; known_findings.txt: repaired and recorded defects"}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
