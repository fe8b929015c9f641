#!/usr/bin/env python3
"""The single source of properties.jsonl and MANIFEST.json.  Run it after editing: lib/props.py"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NOT_CLAIMED = {}


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), note="", technique=None,
         claimed=True, reason=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why,
                      files=files, mechanism=mechanism, state=list(state), observe=list(observe), note=note,
                      technique=technique))
    if not claimed:
        NOT_CLAIMED[id] = reason or "no check built yet"


exec(open(os.path.join(VERIF, "lib", "proplist.py")).read())

TECH = "TLA+ specification checked by TLC; traces of the real code validated against it by TLC"


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "bin/setup",
         "checks": [{"property": p["id"], "quick_cmd": "bin/check " + p["id"],
                     "thorough_cmd": "VERIF_TIER=thorough bin/check " + p["id"],
                     "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"] or TECH,
                     "level": "model_checking", "level_note": p["note"]}
                    for p in PROPS if p["id"] not in NOT_CLAIMED],
         "not_applicable": [{"property": k, "reason": v} for k, v in NOT_CLAIMED.items()],
         "notes": "No hooks: the harnesses drive /repo's classes through their own interfaces. bin/check ID builds the "
                  "harness from /repo's working tree, explores specs/*.tla with TLC, replays schedules into the code and "
                  "has TLC validate what the code did."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

    # DESIGN.md: the text of DESIGN.in.md with the tables filled in
    props = "\n".join("* **%s %s.** %s" % (p["id"], p["title"], p["note"]) for p in PROPS)
    rows = ["| planted bug | property | needs | reported by the check |", "|---|---|---|---|"]
    seeds = os.path.join(VERIF, "seeded")
    caught = json.load(open(os.path.join(VERIF, "lib", "seeds.json"))) if os.path.exists(os.path.join(VERIF, "lib", "seeds.json")) else {}
    for i in sorted(os.listdir(seeds)) if os.path.isdir(seeds) else []:
        m = json.load(open(os.path.join(seeds, i, "meta.json")))
        rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], caught.get(i, "not run")))
    t = open(os.path.join(VERIF, "lib", "DESIGN.in.md")).read()
    t = t.replace("%PROPS%", props).replace("%SEEDS%", "\n".join(rows)).replace("%DEFECTS%\n", "")
    if os.path.isdir(seeds):
        open(os.path.join(VERIF, "DESIGN.md"), "w").write(t)


main()
