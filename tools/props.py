#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "src/bin/fl/"
P = []
L2 = "real code run on symbolic operands, exported result decided by z3"
L1 = "CBMC bounded model checking of the real C functions"
def p(id, title, statement, over, text, why, files, mech, claimed=True, technique=L2, note="", na=None, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  claimed=claimed and na is None, technique=technique, note=note, na=na, state=state, observe=observe))

exec(open(os.path.join(V, "tools", "proplist.py")).read())

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as fh:
        for q in sorted(P, key=lambda q: q["id"]):
            a = dict(files=[f if "/" in f else B + f for f in q["files"]],
                     mechanism=[dict(name=n, where=w if "/" in w else B + w) for n, w in q["mech"]])
            if q["state"]:
                a["state"] = [dict(name=n, meaning=m, where=w if "/" in w else B + w) for n, m, w in q["state"]]
            if q["observe"]:
                a["observe_at"] = q["observe"]
            a["hook_needed"] = None
            assert len(q["title"]) <= 80, q["title"]
            fh.write(json.dumps(dict(id=q["id"], title=q["title"], statement=q["statement"],
                     quantifier=dict(over=q["over"], text=q["text"]), why_tests_cant=q["why"], anchors=a)) + "\n")
    m = dict(version=1, setup_cmd="python3-vt lib/setup.py", checks=[], not_applicable=[],
             notes="Solver-based checking of the real code; see DESIGN.md. No hooks: the checks build /repo's sources as they are.")
    for q in sorted(P, key=lambda q: q["id"]):
        if q["claimed"]:
            assert os.path.exists(os.path.join(V, "checks", q["id"] + ".py")), q["id"]
            m["checks"].append(dict(property=q["id"], quick_cmd="python3-vt checks/%s.py --quick" % q["id"],
                                    thorough_cmd="python3-vt checks/%s.py --thorough" % q["id"],
                                    evidence_file="evidence/%s.json" % q["id"],
                                    technique=q["technique"], level="other", level_note=q["note"]))
        else:
            m["not_applicable"].append(dict(property=q["id"], reason=q["na"] or "check not built"))
    with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1); fh.write("\n")
    print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not claimed")
    try:
        import jsonschema
        jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for l in open(os.path.join(V, "properties.jsonl")):
            jsonschema.validate(json.loads(l), s)
    except ImportError:
        print("jsonschema missing: not validated")
main()
