"Rewrites the Properties section of DESIGN.md from the properties, the checks, known-findings.txt and the planted bugs."

import importlib
import json
import os
import sys
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, "/repo", os.path.join(HERE, "tools")]
from design_notes import NOTES  # pylint: disable=wrong-import-position

CAUGHT_BY_OTHERS = {}


def wrap(text, first="* ", rest="  "):
    return textwrap.fill(text, 118, initial_indent=first, subsequent_indent=rest, break_long_words=False, break_on_hyphens=False)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8") as fh:
        props = [json.loads(line) for line in fh]
    with open(os.path.join(HERE, "known-findings.txt"), encoding="utf-8") as fh:
        findings = [line.strip() for line in fh if line.startswith(("fixed:", "known:"))]
    bugs = {}
    for name in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        with open(os.path.join(HERE, "seeded", name, "meta.json"), encoding="utf-8") as fh:
            bugs.setdefault(json.load(fh)["property"], []).append(name)
    out = [
        "## Properties\n",
        wrap("What decides each (the statements are in properties.jsonl, sizes and required observations in the checks). Planted bugs are in seeded/; each listed here is caught by the check of its own property (tools/plant.py run) unless it says otherwise.", "", ""),
        "",
    ]
    for p in sorted(props, key=lambda p: p["id"]):
        pid = p["id"]
        mod = importlib.import_module(f"mon.checks.{pid.lower()}")
        oracle, limits = NOTES[pid]
        out += [f"### {pid}: {p['title']}\n", wrap("Oracle: " + oracle), wrap("Workload: " + mod.RULE)]
        out.append(wrap(f"Size: {mod.SIZES['quick'] * 8:,} cases quick, {mod.SIZES['thorough'] * 8:,} thorough, over eight workers."))
        if limits:
            out.append(wrap("Left out: " + limits))
        mine = [f for f in findings if f"property={pid} " in f]
        for f in mine:
            out.append(wrap(f.replace(f" property={pid}", ""), "* ", "  "))
        if pid in bugs:
            out.append(wrap("Planted bugs caught: " + ", ".join(bugs[pid])))
        out.append("")
    path = os.path.join(HERE, "DESIGN.md")
    with open(path, encoding="utf-8") as fh:
        text = fh.read()
    head = text[: text.index("## Properties")]
    with open(path, "w", encoding="utf-8") as fh:
        fh.write(head + "\n".join(out))


main()
