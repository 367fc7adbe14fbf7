#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
home = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# missed by the checks as they were when the bug was written, and what was added
MISSED = {
 "C11-terminal": "streams that are terminals", "C11-arguments": "more arguments for the tool", "C15-name": "outputs whose name is not text", "C07-processors": "number of processors",
 "C07-cache": "families of near-identical configurations", "C07-header-set": "more headers, of equal length",
 "C09-cwd": "builds with relative paths in threads", "C09-poison": "writers that fail or panic anywhere, and call the generator",
 "C10-backup": "modules of earlier configurations at the output", "C11-large": "long route files", "C13-limit": "long files among the damaged ones",
 "C17-mask": "odd initial process state", "C17-cwd": "relative and odd folders in the environment",
 "C07-depth": "failing and panicking writers before a generation", "C08-memo": "texts read into one reused buffer; sibling texts",
 "C09-depth": "repeated calls after failures", "C13-eof-mark": "marks inserted into the damaged file",
 "C28-descriptors": "a number of free descriptors, with nothing else denied", "C28-home": "the report compared with the one in usual surroundings",
 "C28-settings": "the denial exempted the scratch folder below /dev", "C30-buffer": "parameter types that ask for their own route",
 "C30-lock": "deep matchers, panicking parameter types", "C30-turns": "requests repeated hundreds of times",
}
rows = []
for i in sorted(os.listdir(home + "/seeded")):
    m = json.load(open(f"{home}/seeded/{i}/meta.json"))
    rows.append(f"| {i}{'*' if i in MISSED else ''} | {m['needs']}{' (now: ' + MISSED[i] + ')' if i in MISSED else ''} |")
t = "| bug | needs |\n|---|---|\n" + "\n".join(rows) + "\n"
d = open(home + "/DESIGN.md").read()
a, b = "<!-- planted -->\n", "<!-- /planted -->\n"
d = d[:d.index(a) + len(a)] + t + d[d.index(b):]
open(home + "/DESIGN.md", "w").write(d)
print(len(rows), "planted")
