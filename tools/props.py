#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing; the outputs are committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from plan import PLAN

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=m, where=", ".join(files)) for m in mechanism],
                               observe_at=observe, hook_needed=None), technique=technique, note=note))


ENC = ["engines/yayamls/encode/astbuilder.go", "engines/goyaml/encode/astbuilder.go"]
DEC = ["engines/yayamls/decode/astreader.go", "engines/goyaml/decode/astreader.go"]

exec(open(os.path.join(V, "tools", "props_list.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        if p["id"] not in PLAN:
            continue
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")},
                           ensure_ascii=False) + "\n")
for p in P:
    for f in p["anchors"]["files"]:
        if not os.path.exists(os.path.join("/repo", f)):
            print("missing anchor", p["id"], f)
    if len(p["title"]) > 80:
        print("long title", p["id"])
checks = [dict(property=p["id"], quick_cmd="python3 run.py %s quick" % p["id"],
               thorough_cmd="python3 run.py %s thorough" % p["id"], technique=p["technique"],
               level=PLAN[p["id"]].get("level", "model_checking"), level_note=p["note"],
               evidence_file="evidence/%s.json" % p["id"]) for p in P if p["id"] in PLAN]
m = dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=[],
         notes="TLA+ specifications in spec/, checked with TLC; every behaviour TLC generates is replayed against "
               "code built from /repo's working tree by harness/drive; no hooks are needed in /repo.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
