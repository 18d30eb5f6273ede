#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: `python3 tools/props.py` regenerates both."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []  # (id, title, statement, over, quantifier text, why tests can't, files, mechanism)


def p(id, title, statement, over, qtext, why, mech):
    assert len(title) <= 80, (id, len(title))
    files = sorted({m[1].split(":")[0] for m in mech})
    for fn in files:
        assert os.path.exists(os.path.join("/repo/Merlin++", fn)), (id, fn)
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()), "quantifier": {"over": over.split(), "text": qtext},
              "why_tests_cant": why, "anchors": {"files": ["Merlin++/" + f for f in files],
                                                 "mechanism": [{"name": n, "where": "Merlin++/" + w} for n, w in mech]}})


exec(open(os.path.join(V, "tools", "props_data.py")).read())

NA = NOT_APPLICABLE


def design(cfg, na):
    T = os.path.join(V, "tools")
    o = [open(os.path.join(T, "design_head.md")).read(), "## Properties and how each is decided\n"]
    for x in P:
        i = x["id"]
        o.append("### %s %s\n" % (i, x["title"]))
        o.append(x["statement"] + "\n")
        if i in cfg:
            c = cfg[i]
            o.append("* Enumerated (bound): " + c["bound"] + ".")
            o.append("* Quantifier: " + x["quantifier"]["text"] + ". Beyond tests: " + x["why_tests_cant"] + ".")
            if c.get("how"):
                o.append("* Oracle: " + c["how"])
            if c.get("assumptions"):
                o.append("* Left unspecified / assumed: " + "; ".join(c["assumptions"]) + ".")
            o.append("* Harness: `harness/%s`. Anchors: %s.\n" % (c["sources"][0], ", ".join(m["where"] for m in x["anchors"]["mechanism"])))
        else:
            o.append("* Not applicable: " + na[i] + "\n")
    for f in ("design_tail.md",):
        if os.path.exists(os.path.join(T, f)):
            o.append(open(os.path.join(T, f)).read())
    S = os.path.join(V, "seeded")
    seeds = sorted(d for d in os.listdir(S) if os.path.exists(os.path.join(S, d, "meta.json"))) if os.path.isdir(S) else []
    if seeds:
        res = {}
        rf = os.path.join(T, "seed_results.json")
        if os.path.exists(rf):
            res = json.load(open(rf))
        o.append("## Planted bugs and what catches them\n\n| id | property | breaks | caught by own check |\n|---|---|---|---|")
        for d in seeds:
            m = json.load(open(os.path.join(S, d, "meta.json")))
            o.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], res.get(d, "not run yet")))
    k = os.path.join(V, "known_findings.txt")
    o.append("\n## Genuine defects\n\nRepaired (`fix:` commits) and recorded, from known_findings.txt:\n")
    o += ["* " + l.strip() for l in open(k) if l.startswith(("fixed", "finding"))]
    with open(os.path.join(V, "DESIGN.md"), "w") as f:
        f.write("\n".join(o) + "\n")


def main():
    P.sort(key=lambda x: x["id"])
    assert len({x["id"] for x in P}) == len(P)
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    cfg = json.load(open(os.path.join(V, "harness", "checks.json")))
    ids = {x["id"] for x in P}
    assert set(cfg) <= ids, set(cfg) - ids
    na = dict(NA)
    for i in sorted(ids - set(cfg)):
        na.setdefault(i, "no check built yet")
    man = {"version": 1, "setup_cmd": "python3 tools/mc.py setup", "checks": [], "not_applicable": []}
    for i in sorted(cfg):
        note = "Decides the property by complete enumeration of the stated bounded space on the real code built from /repo: " + cfg[i]["bound"] + "."
        if cfg[i].get("assumptions"):
            note += " Assumes: " + "; ".join(cfg[i]["assumptions"]) + "."
        note += " Trusts the reference model in harness/" + cfg[i]["sources"][0] + ", the compiler and the address sanitizer; nothing beyond the bound is claimed."
        man["checks"].append({"property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i,
                              "technique": cfg[i].get("technique", "bounded explicit-state model checking of the implementation: exhaustive enumeration of operation sequences / configurations against a reference model"),
                              "level": "model_checking", "level_note": note})
    for i in sorted(na):
        if i not in cfg:
            man["not_applicable"].append({"property": i, "reason": na[i]})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    design(cfg, na)
    print(len(P), "properties", len(cfg), "checks", len(man["not_applicable"]), "not applicable")


main()
