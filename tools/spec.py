"""Single source for properties.jsonl, MANIFEST.json and DESIGN.md.

Run `python3 tools/spec.py` after editing tools/spec.d/*.json-like entries.
"""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load():
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, "tools", "spec.d", "*.py"))):
        ns = {}
        exec(compile(open(f).read(), f, "exec"), ns)
        out.append(ns["P"])
    return out


def main():
    props = load()
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in props:
            f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
    checks, na = [], []
    for p in props:
        if p.get("not_applicable"):
            na.append({"property": p["id"], "reason": p["not_applicable"]})
            continue
        checks.append(
            {
                "property": p["id"],
                "quick_cmd": f"bash check.sh {p['id']}",
                "thorough_cmd": f"bash check.sh {p['id']} --tier thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": p["technique"],
                "level": p["level"],
                "level_note": p["level_note"],
            }
        )
    man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na, "notes": "See DESIGN.md. No hooks in /repo; the commits there are fix: commits only."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    head = open(os.path.join(HERE, "tools", "DESIGN.head.md")).read()
    tail_p = os.path.join(HERE, "tools", "DESIGN.tail.md")
    tail = open(tail_p).read() if os.path.exists(tail_p) else ""
    body = []
    for p in props:
        body.append(f"### {p['id']} — {p['title']}\n\n{p['statement']}\n\n*Decided by ({p['level']}):* {p['design']}\n")
        if p.get("not_applicable"):
            body.append(f"*Not applicable:* {p['not_applicable']}\n")
    kf = json.load(open(os.path.join(HERE, "KNOWN_FINDINGS.json")))
    fl = "\n".join("- " + x for x in kf["fixed"]) or "- none"
    kn = "\n".join(f"- {x['property']} `{x['id']}`: {x['what']}" for x in kf["known"]) or "- none"
    body.append(f"## Genuine defects repaired in /repo (`fix:` commits)\n\n{fl}\n\n## Known findings recorded, not repaired\n\n{kn}\n")
    sd = []
    for m in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        d = json.load(open(m))
        sd.append(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['needs'][:160]} | {d.get('caught', '?')} |")
    body.append("## Planted bugs (seeded/) and what catches them\n\n| bug | property | needs | caught by the property's quick check |\n|---|---|---|---|\n" + "\n".join(sd) + "\n")
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write(head + "\n" + "\n".join(body) + "\n" + tail)
    for p in props:
        assert re.fullmatch(r"[A-Z][0-9]{2,3}", p["id"]) and len(p["title"]) <= 80, p["id"]
        assert p.get("not_applicable") or os.path.exists(os.path.join(HERE, "mc", "props", p["id"].lower() + ".py")), p["id"]
    print(len(props), "properties", len(checks), "checks")


main()
