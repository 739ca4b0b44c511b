"""Writes DESIGN.md from DESIGN.in.md: tables of models (from a finished run in evidence/), findings and planted bugs."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]

models, claims = {}, {}
for f in sorted(glob.glob(os.path.join(ROOT, "evidence", "C*.json"))):
    d = json.load(open(f))
    for m in d["coverage"].get("models", []):
        models[m["cfg"]] = m
        claims.setdefault(m["cfg"], []).append(d["property"])
ABOUT = json.load(open(os.path.join(HERE, "models.json")))
rows = ["| model | states (generated) | cases (up to 400 replayed, 4000 thorough) | properties | about |", "|---|---|---|---|---|"]
for k in sorted(models):
    m = models[k]
    rows.append("| %s | %d (%d) | %s | %s | %s |" % (k, m["distinct"], m["generated"], m.get("cases") or "-", " ".join(claims[k]), ABOUT.get(k.rstrip("012"), ABOUT.get(k, ""))))

added = json.load(open(os.path.join(HERE, "strengthened.json")))
seeds = ["| planted bug | property | needs | strengthened |", "|---|---|---|---|"]
ids = sorted(os.listdir(os.path.join(ROOT, "seeded")))
for s in ids:
    d = json.load(open(os.path.join(ROOT, "seeded", s, "meta.json")))
    seeds.append("| %s | %s | %s | %s |" % (s, d["property"], d["needs"].replace("|", "/"), added.get(s, "")))

found = ["* %s" % l.strip()[7:] for l in open(os.path.join(ROOT, "known_findings.txt")) if l.startswith("fixed: ")]
t = open(os.path.join(HERE, "DESIGN.in.md")).read()
mut = json.load(open(os.path.join(HERE, "mutation.json")))
t = t.replace("%(findings)s", "\n".join(found)).replace("%(models)s", "\n".join(rows)).replace("%(seeds)s", "\n".join(seeds))
t = t.replace("%(nseeds)d", str(len(ids))).replace("%(mutants)s", mut["mutants"]).replace("%(mutation)s", mut["text"])
open(os.path.join(ROOT, "DESIGN.md"), "w").write(t)
