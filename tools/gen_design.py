#!/usr/bin/env python3
"""Fills DESIGN.md from tools/DESIGN.template.md, the checks and the planted bugs."""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
manifest = json.load(open(os.path.join(ROOT, "MANIFEST.json"), encoding="utf-8"))
reasons = {n["property"]: n["reason"] for n in manifest["not_applicable"]}
table = []
for line in open(os.path.join(ROOT, "properties.jsonl"), encoding="utf-8"):
    prop = json.loads(line)
    table.append(f"### {prop['id']} {prop['title']}\n")
    if prop["id"] in reasons:
        table.append(f"Not claimed: {reasons[prop['id']]}.\n")
        continue
    module = importlib.import_module(f"checks.{prop['id'].lower()}")
    table.append(" ".join(module.RULE.split()) + "\n")
    notes = getattr(module, "ASSUMPTIONS", ())
    if notes:
        table.append("Assumes: " + "; ".join(notes) + ".\n")
catches = os.path.join(ROOT, "tools", "catches.json")
caught = json.load(open(catches, encoding="utf-8")) if os.path.exists(catches) else {}
seeds = ["| bug | property | what it breaks | caught by |", "|---|---|---|---|"]
for name in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    path = os.path.join(ROOT, "seeded", name, "meta.json")
    if os.path.exists(path):
        meta = json.load(open(path, encoding="utf-8"))
        seeds.append(f"| {name} | {meta['property']} | {meta['what_it_breaks']} "
                     f"| {', '.join(caught.get(name, [])) or '-'} |")
text = open(os.path.join(ROOT, "tools", "DESIGN.template.md"), encoding="utf-8").read()
text = text.replace("@@TABLE@@", "\n".join(table)).replace("@@SEEDS@@", "\n".join(seeds))
open(os.path.join(ROOT, "DESIGN.md"), "w", encoding="utf-8").write(text)
