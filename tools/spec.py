#!/usr/bin/env python3
"""Single source for properties.jsonl, harness/meta.json and MANIFEST.json. Run after editing."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique="", note="", rule="", require=None, observe=None, na=None, assumptions=None, extra=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique,
                  note=note, rule=rule, require=require or {}, observe=observe or [], na=na, assumptions=assumptions or [], extra=extra or {}))
SAN = "ASan+UBSan on every case; "
exec(open(os.path.join(V, "tools", "spec_body.py")).read())
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
have = [p for p in P if os.path.isdir(V + "/harness/" + p["id"]) and not p["na"]]
json.dump({p["id"]: {"rule": p["rule"], "require": p["require"], "assumptions": p["assumptions"],
    **{k: [q["id"] for q in have if "borrow" not in q["extra"] and q["id"] not in v[4:]] if v[:3] == "all" else v for k, v in p["extra"].items()}} for p in have}, open(V + "/harness/meta.json", "w"), indent=1)
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py",
  "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
              "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in have],
  "not_applicable": [{"property": p["id"], "reason": p["na"] or "machinery not built yet"} for p in P if p not in have],
  "notes": "No hooks are needed in /repo: every monitor observes the public API, element lifetimes, allocations and sanitizer events."},
  open(V + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties,", len(have), "claimed")
