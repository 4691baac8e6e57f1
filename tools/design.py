#!/usr/bin/env python3
"""Writes DESIGN.md: design_head.md, one section per property (from properties.jsonl, MANIFEST.json notes, the rule text of the
last evidence run, known_findings.txt and seeded/), design_tail.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = lambda *p: open(os.path.join(V, *p)).read()
props = [json.loads(l) for l in R("properties.jsonl").splitlines()]
man = json.loads(R("MANIFEST.json"))
checks = {c["property"]: c for c in man["checks"]}
known = R("known_findings.txt").splitlines()
bugs = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    bugs.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
rules = json.loads(R("tools/rules.json"))
for f in glob.glob(V + "/evidence/*.json"):
    e = json.load(open(f))
    if e.get("tier") == "quick":
        rules[e["property"]] = dict(rule=e["coverage"]["rule"], n=e["coverage"]["evaluations"])
json.dump(rules, open(V + "/tools/rules.json", "w"), indent=0, sort_keys=True)
out = [R("tools/design_head.md")]
for p in props:
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("*Specified*: %s\n" % p["statement"])
    if i in rules:
        out.append("*Generated, oracle, non-triviality*: %s\n" % rules[i]["rule"])
        out.append("*Size*: about %s cases in the quick run.  " % rules[i]["n"] + "*Why beyond the tests*: %s\n" % p["why_tests_cant"])
    n = checks.get(i, {}).get("level_note") or ""
    n = n.replace("Bounded random search, coverage-guided, under AddressSanitizer; trusts the reference model in the harness. ", "")
    if n.strip():
        out.append("*Bounds*: %s\n" % n.strip())
    k = [l for l in known if ("property=%s " % i) in l]
    for l in k:
        l = re.sub(r"property=\S+ ", "", l)
        out.append("- " + l)
    if k: out.append("")
    for b, m in bugs.get(i, []):
        out.append("- planted `%s`: %s. Needs: %s." % (b, m["what_it_breaks"].rstrip("."), m["needs"].rstrip(".")) +
                   (" %s" % m["note"] if m.get("note") else ""))
    if i in bugs: out.append("")
out.append(R("tools/design_tail.md"))
open(V + "/DESIGN.md", "w").write("\n".join(out))
