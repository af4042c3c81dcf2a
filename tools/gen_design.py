"""fill in the lists of DESIGN.md from MANIFEST.json and the planted bugs"""
import json, os, re
B = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(B + "/DESIGN.md").read()
m = json.load(open(B + "/MANIFEST.json"))
na = "\n".join("- %s: %s" % (x.get("property") or x.get("property_id") or x.get("id"), x["reason"]) for x in m["not_applicable"])
sd = []
for d in sorted(os.listdir(B + "/seeded")):
    x = json.load(open("%s/seeded/%s/meta.json" % (B, d)))
    sd.append("- %s → %s (%s)" % (d, x["property"], x["what_it_breaks"].rstrip(".")))
for tag, text in (("NA", na), ("SEEDS", "\n".join(sd))):
    b, e = "<!-- %s -->" % tag, "<!-- /%s -->" % tag
    s = s.replace("@@%s@@" % tag, b + "\n" + e)
    s = re.sub(re.escape(b) + ".*?" + re.escape(e), lambda _: b + "\n" + text + "\n" + e, s, flags=re.S)
open(B + "/DESIGN.md", "w").write(s)
