"""Fill the generated tables of DESIGN.md (idempotent: text between markers is replaced)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
def block(name, text):
    global s
    a, b = "<!-- %s -->" % name, "<!-- /%s -->" % name
    new = a + "\n" + text.rstrip() + "\n" + b
    if "@@%s@@" % name in s:
        s = s.replace("@@%s@@" % name, new)
    else:
        s = re.sub(re.escape(a) + ".*?" + re.escape(b), lambda m: new, s, flags=re.S)
kf = json.load(open(os.path.join(V, "known_findings.json")))
block("FIXED", "\n".join("* %s" % e["text"] for e in kf))
rows = ["| seed | property | caught by | needs |", "|---|---|---|---|"]
caught = {}
c = os.path.join(V, "meta", "caught.json")
if os.path.exists(c):
    caught = json.load(open(c))
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], caught.get(i, "?"), m["needs"].replace("|", "/")))
block("SEEDS", "\n".join(rows))
out = []
for l in open(os.path.join(V, "properties.jsonl")):
    r = json.loads(l)
    out.append("**%s – %s.** %s" % (r["id"], r["title"], r["statement"]))
block("PROPDETAIL", "\n\n".join(out))
open(p, "w").write(s)
