"""Writes SCENARIOS.md: for each property, its scenarios with what is symbolic in them and within what bounds."""
import json, os, re, sys
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path.insert(0, "tools")
import table
docs = {}
for f in sorted(os.listdir("harness/scen")):
    for doc, name in re.findall(r"((?:^///.*\n)+)pub fn (\w+)\(\) \{", open("harness/scen/" + f).read(), re.M):
        docs[f[:-3] + "_" + name] = " ".join(l[3:].strip() for l in doc.strip().splitlines())
out = ["# Scenarios", "", "Written by tools/mkdoc.py from the doc comments in harness/scen. \"deep\" bounds are the thorough tier's.", ""]
for line in open("properties.jsonl"):
    p = json.loads(line)
    if p["id"] not in table.PROPERTIES:
        continue
    out += ["## %s: %s" % (p["id"], p["title"]), "", table.NOTES[p["id"]], ""]
    names = table.scenarios(p["id"], sorted(docs))
    if p["id"] == "C22":
        out += ["Every scenario of " + ", ".join(x for x in table.PROPERTIES["C22"] if not x.startswith("readonly")) + ", and:", ""]
        names = [n for n in names if n.startswith("readonly_")]
    out += ["* `%s`: %s" % (n, docs[n]) for n in names] + [""]
open("SCENARIOS.md", "w").write("\n".join(out))
