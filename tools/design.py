#!/usr/bin/env python3
"""Puts DESIGN.md together from the parts in tools/design."""
import json
import os
import re

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "design")
ROOT = os.path.dirname(os.path.dirname(HERE))


def part(name):
    with open(os.path.join(HERE, name)) as f:
        return f.read().rstrip() + "\n\n"


def main():
    out = part("1-head.md") + part("2-props.md") + part("3-open.md") + part("4-defects.md")
    out += "| commit | properties | what failed | how measured |\n|---|---|---|---|\n"
    for f in json.loads(part("fixes.json")):
        out += "| %s | %s | %s | %s |\n" % (f["commit"], " ".join(f["properties"]), f["failed"], f["measured"])
    out += "\n" + part("5-planted.md")
    catches = json.loads(part("catches.json"))
    out += "| id | property | what it breaks | needs | also noticed by |\n|---|---|---|---|---|\n"
    seeded = os.path.join(ROOT, "seeded")
    for name in sorted(os.listdir(seeded), key=lambda n: [int(x) for x in re.findall(r"^s(\d+)", n)]):
        with open(os.path.join(seeded, name, "meta.json")) as f:
            m = json.load(f)
        also = " ".join(p for p in catches.get(name, []) if p != m["property"])
        if name not in catches:
            also = "(only %s was run)" % m["property"]
        out += "| %s | %s | %s | %s | %s |\n" % (name, m["property"], m["what_it_breaks"], m["needs"], also)
    out += "\n" + part("6-limits.md").rstrip() + "\n"
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
        f.write(out)


main()
