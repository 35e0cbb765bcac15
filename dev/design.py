"""Fill DESIGN.md's generated part (rules, obligations, seeds, fixes) from props.py, the evidence files, seeded/ and known_findings.json."""
import json, os, re, glob
H = "/verif"
P = [json.loads(l) for l in open(H + "/properties.jsonl")]
M = json.load(open(H + "/MANIFEST.json"))
K = json.load(open(H + "/known_findings.json"))
C = {c.get("property_id") or c.get("property"): c for c in M["checks"]}
out = ["## Per property: rules, obligations and cost", "",
       "Obligations are those discharged on the current tree by the quick command (the thorough one widens the tables, see the notes).", ""]
for p in P:
    i = p["id"]
    f = H + "/ka/rules/%s.py" % i
    if i not in C:
        continue
    out.append("### %s — %s" % (i, p["title"]))
    c = C[i]
    out.append("*Method*: %s." % c["technique"].rstrip("."))
    if c.get("level_note"):
        out.append("*Bounds*: %s." % c["level_note"].rstrip("."))
    rules = re.findall(r'r\.rule\("([^"]+)",\s*"([^"]+)", (\d+)\)', open(f).read())
    n = {}
    try:
        ev = json.dumps(json.load(open(H + "/evidence/%s.json" % i)))
        for name, _, _ in rules:
            m = re.search(r'"rule": "%s"[^{}]*?"obligations": (\d+)' % re.escape(name), ev) or re.search(r'"%s": \{[^{}]*?"(?:obligations|checked|total)": (\d+)' % re.escape(name), ev)
            if m:
                n[name] = int(m.group(1))
    except OSError:
        pass
    for name, text, mn in rules:
        out.append("- `%s`: %s (at least %s obligations, else the run is an error%s)." % (name, text, mn, "; now %d" % n[name] if name in n else ""))
    out.append("")
out += ["## Not applicable", ""]
for x in M["not_applicable"]:
    t = next((p["title"] for p in P if p["id"] == x.get("property_id", x.get("property"))), "")
    out.append("- **%s** %s: %s" % (x.get("property_id", x.get("property")), t, x["reason"]))
out += ["", "## Planted changes (seeded/) and what catches them", "", "| change | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(d))
    out.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"].replace("|", "/"), m.get("caught", m["property"])))
out += ["", "## Genuine defects found and repaired", "", "%d defects, each one `fix:` commit in /repo and one `fixed:` line in known_findings.json; none is left as a known finding that a check would have to suppress. By property:" % len(K["fixed"]), ""]
by = {}
for x in K["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", x)
    by.setdefault(m.group(1), []).append("%s (%s)" % (m.group(3), m.group(2)))
for i in sorted(by):
    out.append("- **%s**: %s." % (i, "; ".join(by[i])))
s = open(H + "/DESIGN.md").read()
a, b = "<!-- generated by dev/design.py -->", "<!-- end -->"
s = s[:s.index(a)] + a + "\n" + "\n".join(out) + "\n" + b + s[s.index(b) + len(b):]
open(H + "/DESIGN.md", "w").write(s)
