"""Development aid: DESIGN.md = tools/method.md + what the registry, properties.jsonl, known_findings.json and the planted bugs say."""
import os, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/vp")
import registry as r
P = {d["id"]: d for d in map(json.loads, open(V + "/properties.jsonl"))}
K = json.load(open(V + "/known_findings.json"))
K = K["findings"] if isinstance(K, dict) else K
S = {}
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    S.setdefault(m["property"], []).append((i, m))
o = [open(V + "/tools/method.md").read().rstrip(), "", "## The properties, one by one", "",
  "For each one: the files encoded (in addition, whatever they need is found automatically), the harnesses with their bounds, what was found wrong. "
  "Everything is decided by the solver over all the values within the bounds; what lies beyond them is not claimed.", ""]
for k, d in P.items():
    o.append("### %s %s" % (k, d["title"])); o.append("")
    if k in r.NOT_APPLICABLE or k not in r.PROPS:
        o += ["Not applicable: " + r.NOT_APPLICABLE.get(k, "no check yet"), ""]; continue
    hs = r.PROPS[k]["harnesses"]
    fs = []
    for h in hs:
        for f in h.repo:
            if f not in fs: fs.append(f)
    o.append("Code: " + ", ".join("`%s`" % f for f in fs) + "."); o.append("")
    seen = {}
    for h in hs:
        b = h.bounds.split(" (part ")[0]
        seen.setdefault((h.src, b), []).append(h)
    for (src, b), l in seen.items():
        n = l[0].name + ("" if len(l) == 1 else " .. %s (%d parts run side by side)" % (l[-1].name, len(l)))
        o.append("- `vp/h/%s` %s: %s." % (src, n, b))
        t = [x.thorough.get("bounds") for x in l if x.thorough and x.thorough.get("bounds")]
        if t: o.append("  Thorough: %s." % t[0])
        c = {}
        for x in l:
            for f, m in (x.const or {}).items(): c.setdefault(f, {}).update(m)
        if c: o.append("  Scaled constants: " + "; ".join("%s %s" % (f, " ".join("%s=%s" % z for z in m.items())) for f, m in c.items()) + ".")
    for a in r.PROPS[k]["assumptions"]: o.append("- Assumed: %s" % a)
    if r.PROPS[k]["note"]: o.append("- " + r.PROPS[k]["note"])
    for f in K:
        if f["property"] == k:
            o.append("- Defect %s%s: %s." % (f["status"], " in " + f["commit"] if f.get("commit") else "", f["what"]))
    for i, m in S.get(k, []): o.append("- Planted bug `%s`: needs %s; %s. Caught by this check." % (i, m["needs"], m["what_it_breaks"]))
    o.append("")
open(V + "/DESIGN.md", "w").write("\n".join(o).rstrip() + "\n")
