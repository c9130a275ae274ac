#!/usr/bin/env python3
"""The one table behind properties.jsonl, contracts/props.json and MANIFEST.json (run to regenerate them)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NOT_APPLICABLE = []
BASE_ASSUME = ["f64 arithmetic is real arithmetic: rounding, overflow and NaN are outside the proofs (the bounded runs use f64)"]
METRIC = ["a metric look-up is a function of the network and the state (contracts/metric.rs)"]
TIME = ["civil date fields satisfy the Gregorian calendar relations (contracts/time.rs); jiff is trusted"]


def prop(id, title, statement, over, text, why, mech, units, bounded, assumptions=(), secs=8, secs_thorough=120, level="proof", note="", bounded_only=(), trusted=(), harness="core", focus=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, mech=mech, units=units, bounded=bounded,
                      assumptions=list(assumptions), secs=secs, secs_thorough=secs_thorough, level=level, note=note, bounded_only=list(bounded_only), trusted=list(trusted), harness=harness, focus=focus or {}))


exec(open(os.path.join(HERE, "tools", "table_data.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS + [n for n in NOT_APPLICABLE]:
        files = []
        for _, w in p["mech"]:
            if w not in files:
                files.append(w)
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
conf = {p["id"]: {"units": p["units"], "harness": p["harness"], "secs": p["secs"], "secs_thorough": p["secs_thorough"], "bounded": p["bounded"], "trusted": ["contracts/prelude.rs"] + p["trusted"],
                  "assumptions": BASE_ASSUME + p["assumptions"], "level": p["level"], "bounded_only": p["bounded_only"], "focus": p["focus"]} for p in PROPS}
json.dump(conf, open(os.path.join(HERE, "contracts/props.json"), "w"), indent=1)
json.dump({
    "version": 1, "setup_cmd": "python3 setup.py",
    "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                "technique": "contract-based deductive verification: Verus discharges contracts on mechanically extracted functions; bounded contract runs of the compiled code look for failing inputs",
                "level": p["level"], "level_note": p["note"] or "All obligations of the functions under contract are discharged by Verus/Z3 on every run; f64 is treated as real."} for p in PROPS],
    "hooks": {"guard": "none", "enable": "no hooks are needed", "source_commits": []},
    "not_applicable": [{"property": n["id"], "reason": n["reason"]} for n in NOT_APPLICABLE],
    "notes": "see DESIGN.md",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
for p in PROPS + NOT_APPLICABLE:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    assert len(p["statement"].replace(" e.g.", "").split(". ")) <= 3, (p["id"], p["statement"].split(". "))
print(len(PROPS), "claimed", len(NOT_APPLICABLE), "not applicable")
