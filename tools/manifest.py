#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py and the harnesses in props/."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
meta = json.load(open(os.path.join(H, "props", "meta.json")))
ps = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in ps:
    i = p["id"]
    if i in meta and os.path.exists(os.path.join(H, "props", i + ".cpp")):
        m = meta[i]
        t = "property-based testing: generated cases against " + m.get("oracle", "an independent model") + ", tape shrinking and replay"
        if m.get("fuzz"):
            t += "; libFuzzer (coverage-guided, AddressSanitizer) on the same properties in the thorough tier"
        checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "exploration",
                       "level_note": m.get("note", "Randomised search of the stated input domain with a fixed seed; finds violations, does not prove their absence. Trusts the independent oracle in /verif/lib and the compiler.")})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 -c \"import json; json.load(open('props/meta.json'))\" && g++ --version && clang++ --version",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks are needed in /repo: the library is header-only and every check compiles its own harness from /repo/include. Repairs of genuine defects are the fix: commits listed in known_findings.txt."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
