#!/usr/bin/env python3
"""Development tool: writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "contracts/oraiswap-v3/src/"
P, NA = [], []
TECH = "static analysis: interprocedural gated value-flow over the compiler's type-checked MIR, compared with a declarative specification"


def prop(pid, title, statement, over, qtext, why, files, mech, observe, note, state=None, hook=None, technique=TECH):
    a = {"files": [f if "/" in f and not f.startswith("!") and f.split("/")[0] in ("contracts", "packages", "wasm") else C + f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
               "why_tests_cant": why, "anchors": a}, note, technique))


def not_applicable(pid, title, statement, over, qtext, why, files, mech, observe, reason):
    prop(pid, title, statement, over, qtext, why, files, mech, observe, None)
    NA.append({"property": pid, "reason": reason})


exec(open(os.path.join(HERE, "tools", "props_table.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, n, t in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    na = {x["property"] for x in NA}
    man = {"version": 1, "setup_cmd": "cd /verif && python3 -m sa.build",
           "checks": [{"property": p["id"], "quick_cmd": "cd /verif && python3 check.py %s" % p["id"],
                       "thorough_cmd": "cd /verif && python3 check.py %s --thorough" % p["id"],
                       "evidence_file": "/verif/evidence/%s.json" % p["id"], "technique": t, "level": "other", "level_note": n}
                      for p, n, t in P if p["id"] not in na],
           "not_applicable": NA,
           "notes": "All checks share one engine (sa/) and one MIR dump of /repo's current tree, cached under .build by content hash; no check runs the analysed code."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    import jsonschema
    s = json.load(open("/root/.vp/MANIFEST.schema.json"))
    jsonschema.validate(man, s)
    ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p, _, _ in P:
        jsonschema.validate(p, ps)


main()
