#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the one list below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note, level="exploration", observe=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        anchors["observe_at"] = observe
    P.append(dict(p=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=anchors),
                  c=dict(property=id, quick_cmd="./run.sh %s" % id, thorough_cmd="VERIF_TIER=thorough ./run.sh %s" % id,
                         evidence_file="evidence/%s.json" % id, technique=tech, level=level, level_note=note)))


exec(open(os.path.join(here, "tools", "props.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for e in P:
        f.write(json.dumps(e["p"], ensure_ascii=False) + "\n")
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [e["c"] for e in P],
    "not_applicable": [],
    "notes": "Every check rebuilds harness/ (a Go module that imports the packages of /repo's working tree) and the goslice command, runs the real pipeline in worker processes on generated models and configurations, and judges what the stages hand to each other and what is written with oracles of its own. No hooks in /repo are needed: the stages are replaceable handlers, so the monitors sit at their boundaries. Exit codes other than 0 and 1 mean inconclusive. The properties and this manifest are generated by tools/gen.py.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
try:
    import jsonschema
    ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for e in P:
        jsonschema.validate(e["p"], ps)
        assert e["p"]["statement"].count(". ") <= 2, e["p"]["id"]
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid:", len(P))
except ImportError:
    pass
