"""Rewrites the generated sections of DESIGN.md (between the markers): defects, planted bugs, reference per check."""
import importlib
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)


def section(text, name, body):
    a, b = "<!-- %s -->" % name, "<!-- end %s -->" % name
    assert a in text and b in text, name
    return text[:text.index(a) + len(a)] + "\n" + body.strip() + "\n" + text[text.index(b):]


def cell(s):
    return s.replace("|", "\\|").replace("\n", " ")


def defects():
    d = json.load(open(os.path.join(V, "known_findings.json")))
    out = ["| property | commit | what failed |", "|---|---|---|"]
    for line in d["fixed"]:
        m = re.match(r"fixed: property=(\w+) (\w+) (.*)", line)
        out.append("| %s | %s | %s |" % (m.group(1), m.group(2), cell(m.group(3))))
    out.append("")
    out.append("Recorded, not repaired: %s." % ("; ".join(k["what"] for k in d["known"]) or "none"))
    return "\n".join(out)


def bugs():
    S = os.path.join(V, "seeded")
    caught = json.load(open(os.path.join(V, "tools", "caught.json")))
    out = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
    for i in sorted(os.listdir(S)):
        m = json.load(open(os.path.join(S, i, "meta.json")))
        c = caught.get(i, {})
        by = ", ".join(k for k, v in sorted(c.items()) if v) or "-"
        no = ", ".join(k for k, v in sorted(c.items()) if not v)
        out.append("| %s | %s | %s | %s%s |" % (i, m["property"], cell(m["needs"]), by, " (not by %s)" % no if no else ""))
    return "\n".join(out)


def checks():
    out = []
    props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
    os.environ.setdefault("PYTHONHASHSEED", "0")
    from rv import boot
    boot.load()
    for p in props:
        m = importlib.import_module("rv.checks." + p["id"].lower())
        out.append("### %s: %s\n" % (p["id"], p["title"]))
        out.append("*Executions and oracle.* %s\n" % m.RULE)
        out.append("*Why not tests.* %s\n" % p["why_tests_cant"])
        fl = ", ".join("%s %d" % kv for kv in sorted(m.FLOORS.items()))
        out.append("*Counts a quick run must reach to be conclusive.* %s.%s\n" % (
            fl, " *Assumes.* " + "; ".join(m.ASSUMPTIONS) + "." if getattr(m, "ASSUMPTIONS", None) else ""))
        out.append("*Anchored in.* %s\n" % ", ".join(p["anchors"]["files"]))
    return "\n".join(out)


if __name__ == "__main__":
    p = os.path.join(V, "DESIGN.md")
    t = open(p).read()
    for name, f in (("defects", defects), ("planted bugs", bugs), ("checks", checks)):
        t = section(t, name, f())
    open(p, "w").write(t)
