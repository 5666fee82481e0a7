#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# Missed when planted -> what was added; the rest were caught at once.
LATER = {
    "big5-range-u16": "around round sizes", "sjis-long-run": "around round sizes, clients with large blocks",
    "utf8-dirty-buffer": "buffers holding what is about to be written", "sjis-kana-run": "neighbours and triads",
    "cp1258-compose": "(harness defect: arena too small, fixed)", "utf32le-zwnbsp-tail": "(harness defect: arena too small, fixed)",
    "sjis-error-streak": "runs of ill-formed pieces",
    "sjis-lazy-race": "cold starts", "utf16le-carry-state": "streams of calls",
    "utf16le-shift": "words of few characters, cuts where the code departs from the tables", "big5-canonical-lost": "the one-form rule of C21",
    "utf32le-panic-page": "edges at round numbers of output",
    "single-byte-block-2917": "literals of the sources", "sjis-staging-1777": "literals of the sources", "utf8-pieces-3331": "literals of the sources",
    "big5-keyword": "literals of the sources", "utf16le-unit-pair": "literals of the sources",
    "utf16be-room-u32": "vast buffers", "utf8-copy-u32": "vast buffers", "big5-input-u32": "vast buffers", "sjis-room-u32": "vast buffers",
    "single-byte-consumed-i32": "vast buffers", "utf16le-pair-u32": "vast buffers", "utf32be-room-i32": "vast buffers",
}
MISSED = {}
rows = []
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m, i = json.load(open(f)), f.split("/")[-2]
    s = "**missed** (%s)" % MISSED[i] if i in MISSED else "caught, after adding: " + LATER[i] if i in LATER else "caught"
    rows.append((m["property"], i, m["needs"], s))
rows.sort()
caught = sum(1 for r in rows if "missed" not in r[3])
t = ["## Planted bugs", "",
     "%d in seeded/, each written from a property's text and the code, each confirmed to pass the existing tests. %d are caught by the" % (len(rows), caught),
     "quick check of their own property.", "",
     "| property | bug | needs | quick check of that property |", "|---|---|---|---|"]
t += ["| %s | %s | %s | %s |" % tuple(x.replace("|", "\\|") for x in r) for r in rows]
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
i = s.find("## Planted bugs")
s = (s if i < 0 else s[:i]).rstrip() + "\n\n" + "\n".join(t) + "\n"
open(p, "w").write(s)
print(len(rows), caught)
