"""Regenerates the tables of DESIGN.md (called by gen_manifest.py)."""
import json, os, re
d = os.path.dirname(os.path.abspath(__file__))


def unit_functions(unit):
    out, todo, seen = [], [unit + ".vc"], set()
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        for l in open(os.path.join(d, "contracts", f)):
            m = re.match(r"\s*//@ include (\S+)", l)
            if m:
                todo.append(m.group(1))
    for k in SK.get(unit, {}):
        out.append(k)
    return out


SK = json.load(open(os.path.join(d, "contracts", "skeletons.json")))


def write(PROPS, NA):
    p = os.path.join(d, "DESIGN.md")
    s = open(p).read()
    seeds = ["| id | property | breaks | needs | caught by |", "|---|---|---|---|---|"]
    sd = os.path.join(d, "seeded")
    by = json.load(open(os.path.join(d, "seed_results.json"))) if os.path.exists(os.path.join(d, "seed_results.json")) else {}
    for i in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, i, "meta.json")))
        seeds.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], by.get(i, "")))
    props = []
    for k in sorted(PROPS):
        c = PROPS[k]
        props.append("### %s %s\n" % (k, c["title"]))
        props.append(c["statement"] + "\n")
        props.append("*Decided by:* %s. %s\n" % (c["technique"], c["level_note"]))
        fs = {}
        for u in c.get("verus", []):
            for f in unit_functions(u):
                a, b = f.split(" ", 1)
                fs.setdefault(a, []).append(b)
        props.append("*Under contract* (units %s): %s\n" % (", ".join(c.get("verus", [])) or "none", "; ".join("`%s`: %s" % (a, ", ".join("`%s`" % x for x in sorted(set(b)))) for a, b in sorted(fs.items()))))
        if c.get("design"):
            props.append(c["design"] + "\n")
    if NA:
        props.append("### Not applicable\n")
        for n in NA:
            props.append("* %s: %s" % (n["property"], n["reason"]))
    a, b = s.index("<!-- seeds -->"), s.index("## The properties")
    s = s[:a] + "<!-- seeds -->\n\n" + "\n".join(seeds) + "\n\n" + s[b:]
    a = s.index("<!-- properties -->")
    s = s[:a] + "<!-- properties -->\n\n" + "\n".join(props).rstrip() + "\n"
    open(p, "w").write(s)
