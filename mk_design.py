"Makes DESIGN.md from DESIGN.src.md, the bounds of the checks, the list of findings and the planted bugs."

import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "mc"), "/repo"]
from design_notes import MISSED, NOTES  # noqa: E402

with open(f"{HERE}/properties.jsonl", encoding="utf-8") as f:
    properties = [json.loads(line) for line in f]

parts = []
for p in properties:
    module = importlib.import_module(f"props.{p['id'].lower()}")
    oracle, why, cost = NOTES[p["id"]]
    bounds = module.BOUNDS
    doc = " ".join((module.__doc__ or "").split())
    doc = doc.split(": ", 1)[1] if ": " in doc[:6] or doc.startswith(p["id"]) else doc
    assumptions = "".join(f" Assumed: {a}." for a in getattr(module, "ASSUMPTIONS", []))
    parts.append(
        f"### {p['id']}: {p['title']}\n\n"
        f"*Check* (`mc/props/{p['id'].lower()}.py`): {doc}\n\n"
        f"*Oracle*: {oracle}\n\n"
        f"*Bounds*: quick: {bounds['quick']}. Thorough: {bounds['thorough']}.{assumptions}\n\n"
        f"*Cost* (quick, 8 cores): {cost}. *Reaches what tests cannot*: {why}\n"
    )

findings, fixes = [], 0
with open(f"{HERE}/known-findings.txt", encoding="utf-8") as f:
    for line in f:
        if line.startswith("finding: "):
            prop, key, what = line[len("finding: ") :].strip().split(" ", 2)
            findings.append(f"* {prop.split('=')[1]} `{key.split('=')[1]}`: {what}")
        elif line.startswith("fixed: "):
            fixes += 1

rows = ["| id | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
caught = {}
if os.path.exists(f"{HERE}/seeded-results.json"):
    with open(f"{HERE}/seeded-results.json", encoding="utf-8") as f:
        caught = json.load(f)
for path in sorted(glob.glob(f"{HERE}/seeded/*/meta.json")):
    name = os.path.basename(os.path.dirname(path))
    with open(path, encoding="utf-8") as f:
        meta = json.load(f)
    cells = [name, meta["property"], meta["what_it_breaks"], meta["needs"], caught.get(name, "?")]
    rows.append("| " + " | ".join(str(c).replace("|", "\\|").replace("\n", " ") for c in cells) + " |")

with open(f"{HERE}/DESIGN.src.md", encoding="utf-8") as f:
    text = f.read()
for key, value in {
    "PROPERTIES": "\n".join(parts),
    "FINDINGS": "\n".join(findings),
    "FIXCOUNT": str(fixes),
    "SEEDS": "\n".join(rows),
    "MISSED": "\n".join(f"* {m}" for m in MISSED),
}.items():
    text = text.replace(f"%%{key}%%", value)
with open(f"{HERE}/DESIGN.md", "w", encoding="utf-8") as f:
    f.write(text)
