"""Rewrite the table of planted changes at the end of DESIGN.md from seeded/*/meta.json and CAUGHT."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# checks seen to report the change (the check of its own property first)
ALSO = {"T15": ["C08"], "U42": ["C10"], "U47": ["C13"]}
MARK = "<!-- planted -->"


def main():
    rows = []
    for i in sorted(os.listdir(f"{HERE}/seeded")):
        m = json.load(open(f"{HERE}/seeded/{i}/meta.json"))
        caught = m.get("caught_by") or [m["property"]] + ALSO.get(i, [])
        rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {', '.join(caught) or 'none'} |")
    text = open(f"{HERE}/DESIGN.md").read().split(MARK)[0].rstrip()
    table = "\n".join(["| id | property | what it breaks | needs | caught by |", "|---|---|---|---|---|", *rows])
    open(f"{HERE}/DESIGN.md", "w").write(f"{text}\n\n{MARK}\n## Table of planted changes\n\n{table}\n")


main()
