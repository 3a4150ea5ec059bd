#!/usr/bin/env python3
"""Writes proofs/plan.json (what check.py runs per property) and MANIFEST.json."""
import json, pathlib, subprocess
ROOT = pathlib.Path(__file__).resolve().parent.parent
UNITS = {}
PROPS = {}
def unit(name, props, rlimit=60, **fn_props):
    UNITS[name] = {"props": props, "rlimit": rlimit, "fn_props": fn_props}
def prop(id, level, explain, rule, trusted=(), assume=(), note="", **kw):
    PROPS[id] = dict(level=level, explain=explain, rule=rule, trusted=list(trusted), assume=list(assume), note=note, **kw)
exec((ROOT / "tools/plan_data.py").read_text())
(ROOT / "proofs/plan.json").write_text(json.dumps({"units": UNITS, "props": PROPS, "trusted_common": TRUSTED, "assume_common": ASSUME}, indent=1) + "\n")
checks = []
for id in sorted(PROPS):
    p = PROPS[id]
    us = [u for u in UNITS if id in UNITS[u]["props"]]
    checks.append({"property": id, "quick_cmd": f"python3 check.py {id} --tier quick", "thorough_cmd": f"python3 check.py {id} --tier thorough",
        "technique": ("contract-based deductive verification (Verus) of functions extracted from /repo on every run" +
                      (", plus a bounded stand-in on the real crate" if us else ": bounded stand-in on the real crate only (labelled bounded)")),
        "level": p["level"], "level_note": (p["note"] or p["explain"]) + (" Verus units: " + ", ".join(us) + "." if us else "")})
man = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": NOT_APPLICABLE,
       "notes": "No hooks are added to /repo; the harness uses the public API, the verifier works on text extracted from /repo's source on every run."}
(ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1, ensure_ascii=False) + "\n")
