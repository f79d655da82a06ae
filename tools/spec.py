#!/usr/bin/env python3
"""Single source of properties.jsonl, props.json and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "fenris-geometry/src/"
P = []

REAL = ("The real generic code runs on a symbolic scalar type (exact reals); z3/cvc5 decide every branch and "
        "assertion for all scalar values within the bounds; counterexamples are replayed natively in f64.")


def prop(id, title, statement, over, qtext, why, files, mech, bins, functions, bounds, outside,
         level="model_checking", budget=None, observe=None, note=None, technique=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  bins=bins, functions=functions, bounds=bounds, outside=outside, level=level,
                  budget=budget or {}, observe=observe, note=note, technique=technique, state=state))


exec(open(os.path.join(V, "tools/spec_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")

json.dump({p["id"]: {k: v for k, v in dict(bins=p["bins"], functions=p["functions"], bounds=p["bounds"],
                                            outside=p["outside"], level=p["level"], budget=p["budget"]).items() if v}
           for p in P if p["bins"]},
          open(os.path.join(V, "props.json"), "w"), indent=1)

checks, na = [], []
for p in P:
    if p["bins"]:
        checks.append({"property": p["id"], "quick_cmd": f"python3 /verif/check.py {p['id']} --tier quick",
                       "thorough_cmd": f"python3 /verif/check.py {p['id']} --tier thorough",
                       "evidence_file": f"/verif/evidence/{p['id']}.json",
                       "technique": p["technique"] or ("symbolic execution of the real generic Rust code on a symbolic scalar, "
                                                        "branches and assertions decided by SMT (z3/cvc5, QF_NRA/QF_LRA)"),
                       "level": p["level"],
                       "level_note": p["note"] or ("Bounded: " + p["bounds"] + " Outside: " + p["outside"])})
    else:
        na.append({"property": p["id"], "reason": p["note"]})
json.dump({"version": 1,
           "setup_cmd": "python3 /verif/check.py --setup",
           "checks": checks, "not_applicable": na,
           "notes": "Checks rebuild /verif/symx against /repo's working tree on every run. "
                    "No hooks in /repo are needed; /repo has only fix: commits."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks,", len(na), "not applicable")
