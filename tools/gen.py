#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from tools/registry.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from registry import PROPS, NA
NOTE = ("Abstract interpretation of the clang IR of the current headers, closed by a most-general client. Over-approximates the client and "
        "scalar values; bounded in the number of preemptions at synchronisation points, threads and harness shapes. No value reordering of relaxed "
        "loads beyond the happens-before race check. Trusts clang's lowering and the models of libstdc++/pthread calls.")
TYN = "Decided by the compilers' type checkers (clang 18 and g++ 13) on the current headers; trusts them."
lines = []
for i, p in sorted(PROPS.items()):
    assert len(p["title"]) <= 80, i
    lines.append({"id": i, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                  "why_tests_cant": p["why"], "anchors": {"files": sorted({a[0] for a in p["where"]}), "mechanism": [{"name": a[1], "where": a[0]} for a in p["where"]]}})
for (i, title, st, over, text, why, anch, reason) in NA:
    assert len(title) <= 80, i
    lines.append({"id": i, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                  "anchors": {"files": sorted({a[0] for a in anch}), "mechanism": [{"name": a[1], "where": a[0]} for a in anch]}})
lines.sort(key=lambda l: l["id"])
for l in lines:
    for f in l["anchors"]["files"]:
        assert os.path.exists(os.path.join("/repo", f)), f
open(os.path.join(VERIF, "properties.jsonl"), "w").write("".join(json.dumps(l) + "\n" for l in lines))
man = {"version": 1, "setup_cmd": "bash engine/build.sh",
       "checks": [{"property": i, "quick_cmd": "python3 tools/check.py " + i, "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": p["technique"], "level": "other",
                   "level_note": (p["note"] + " " if p["note"] else "") + (NOTE if p["harness"] else TYN)} for i, p in sorted(PROPS.items())],
       "not_applicable": [{"property": n[0], "reason": n[7]} for n in NA],
       "notes": "No hooks in /repo are needed. See DESIGN.md."}
json.dump(man, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
except ImportError:
    jsonschema = None
if jsonschema: jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in lines if jsonschema else []:
    jsonschema.validate(l, sch)


# ---- DESIGN.md ---------------------------------------------------------------------------
def cut(t, n=100000):
    return t if len(t) <= n else t[:n] + "..."
scen = json.load(open(os.path.join(HERE, "scenarios.json")))
out = [open(os.path.join(VERIF, "doc", "head.md")).read()]
for i, p in sorted(PROPS.items()):
    out.append("\n### %s. %s\n" % (i, p["title"]))
    out.append("*Property.* %s\n" % p["statement"])
    out.append("*Over.* %s. *Why tests cannot settle it.* %s\n" % (p["text"], p["why"]))
    how = []
    for h in p["harness"]:
        n = len(scen.get(i, {}).get(h["file"], []))
        how.append("`harness/%s` (%d scenarios, abstract interpretation)" % (h["file"], n))
    for w in p["witness"]:
        how.append("`harness/%s` (type-level witnesses, %s)" % (w["file"], " and ".join(w.get("compilers", ["clang++", "g++"]))))
    out.append("*Decided by.* " + "; ".join(how) + ".\n")
    out.append("*Rule.* %s.\n" % p["rule"].rstrip("."))
    out.append("*Anchors.* " + "; ".join("`%s` (%s)" % (a[0], a[1]) for a in p["where"]) + ".\n")
    if p["note"]:
        out.append("*Note.* %s\n" % p["note"])
out.append("\n## 5. Defects found, planted bugs\n\nGenuine defects the checks found on the original tree:\n")
for k in json.load(open(os.path.join(VERIF, "known_findings.json"))):
    out.append("- %s %s%s: %s" % (k["property"], k["status"], " in " + k["commit"] if k.get("commit") else " (scenario `%s`)" % k.get("scenario", ""), k["what"]))
out.append("\nPlanted bugs (`seeded/`), each caught by the check of the property it breaks:\n\n| planted bug | property | needs | breaks |\n|---|---|---|---|")
sd = os.path.join(VERIF, "seeded")
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], m["what_it_breaks"]))
out.append("\nBeyond these, every harness was tried against batches of small source mutations of the files it anchors (dropped or reordered statements, weakened memory orders, removed exception handlers, swapped channels, missing deregistrations); misses led to new scenarios, mutants that turned out to keep the behaviour were set aside.\n")
out.append("\n## 6. Not applicable\n")
for n in NA:
    out.append("- **%s** %s: %s" % (n[0], n[1], n[7]))
out.append(open(os.path.join(VERIF, "doc", "tail.md")).read())
open(os.path.join(VERIF, "DESIGN.md"), "w").write("\n".join(out))
