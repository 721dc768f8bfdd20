"""Rewrite the table of planted changes in DESIGN.md from the log of `tools/seed.py --check`.

    python tools/table.py LOG...
"""

import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    caught, name = {}, None
    for path in sys.argv[1:]:
        with open(path) as f:
            for line in f:
                if m := re.match(r"(\S+): (OK|BAD)", line):
                    name = m[1]
                elif m := re.match(r"    (\w+) by (C\d+) in", line):
                    caught.setdefault(name, {})[m[2]] = m[1]
    rows = ["| change | property | caught by | what it needs |", "|---|---|---|---|"]
    for name in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        with open(os.path.join(HERE, "seeded", name, "meta.json")) as f:
            meta = json.load(f)
        by = [c for c, word in caught.get(name, {}).items() if word == "caught"]
        needs = " ".join(meta["needs"].split()).replace("|", "\\|")
        rows.append(f"| `{name}` | {meta['property']} | {', '.join(sorted(by)) or 'not caught'} | {needs} |")
    path = os.path.join(HERE, "DESIGN.md")
    with open(path) as f:
        text = f.read()
    mark = "<!-- table -->\n"
    with open(path, "w") as f:
        f.write(text[: text.index(mark)] + mark + "\n" + "\n".join(rows) + "\n")


main()
