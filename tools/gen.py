#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
import props
V = os.path.dirname(H)
TECH = "symbolic execution of the compiled crate (LLVM IR regenerated from /repo) with z3 deciding every branch and assertion over all input values; counterexamples replayed natively"
allp = {p: d for p, d in props.PROPS.items()}
lines = []
for pid in sorted(list(allp) + [n["id"] for n in props.NA]):
    d = allp.get(pid) or [n for n in props.NA if n["id"] == pid][0]
    lines.append(json.dumps({"id": pid, "title": d["title"], "statement": d["statement"], "quantifier": {"over": d["over"], "text": d["qtext"]},
                             "why_tests_cant": d["why"],
                             "anchors": {"files": d["files"], "mechanism": [{"name": a, "where": b} for a, b in d["mech"]], "hook_needed": None}}, ensure_ascii=False))
    assert len(d["title"]) <= 80, d["title"]
open(os.path.join(V, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 /verif/tools/check.py --setup",
    "hooks": {"guard": "none (no hooks: the harnesses use the public API only)", "enable": "not needed", "source_commits": []},
    "checks": [{"property": p, "quick_cmd": "python3 /verif/tools/check.py %s --tier quick" % p, "thorough_cmd": "python3 /verif/tools/check.py %s --tier thorough" % p,
                "evidence_file": "/verif/evidence/%s.json" % p, "technique": TECH, "level": "model_checking",
                "level_note": "bounded, exhaustive within: " + allp[p]["bounds"]["quick"] + ". Outside: " + allp[p]["outside"]} for p in sorted(allp)],
    "not_applicable": [{"property": n["id"], "reason": n["reason"]} for n in props.NA],
    "notes": "Engine: /verif/engine (symbolic executor for LLVM IR on z3 4.8.12). Harnesses: /verif/harness. See DESIGN.md.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)

# DESIGN.md: the generated part
import notes
D = os.path.join(V, "DESIGN.md")
t = open(D).read().split("<!-- generated -->")[0].rstrip() + "\n\n<!-- generated -->\n"
t += "\n## Properties\n"
for p in sorted(allp):
    d = allp[p]
    t += "\n### %s %s\n\n%s\n\n- Decided by: %s\n- Bounds, quick: %s.\n- Bounds, thorough: %s.\n- Outside: %s.\n- Beyond the tests: %s\n" % (
        p, d["title"], d["statement"], notes.HOW[p], d["bounds"]["quick"], d["bounds"]["thorough"], d["outside"], d["why"])
if props.NA:
    t += "\n### Not applicable\n\n" + "".join("- %s %s: %s\n" % (n["id"], n["title"], n["reason"]) for n in props.NA)
t += "\n## Defects found and repaired\n\nEach was found by the named check on the original tree (counterexample replayed natively) and repaired by a `fix:` commit in /repo; none is left open.\n\n"
t += "".join("- `%s` (%s) %s\n" % f for f in notes.FIXES)
t += "\n## Planted bugs and what catches them\n\nAll in `seeded/`; caught by the quick check of the property named unless stated otherwise.\n\n| id | property | what it breaks | needs |\n|---|---|---|---|\n"
S = os.path.join(V, "seeded")
for i in sorted(os.listdir(S)) if os.path.isdir(S) else []:
    m = json.load(open(os.path.join(S, i, "meta.json")))
    t += "| %s | %s | %s | %s |\n" % (i, m["property"], m["what_it_breaks"], m["needs"])
t += notes.TAIL
open(D, "w").write(t)
json.dump({"findings": [{"id": "F%02d" % (i + 1), "property": p, "status": "fixed", "match": {}, "what": "fixed: property=%s %s %s" % (p, c, w)} for i, (c, p, w) in enumerate(notes.FIXES)]},
          open(os.path.join(V, "known_findings.json"), "w"), indent=1)
