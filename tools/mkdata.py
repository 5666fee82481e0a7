#!/usr/bin/env python3
"""One-off: derive the specification's mapping data (spec/data/*.json) from the
published tables that /repo keeps in encoding_tables/ (unicode.org single-byte
tables, WHATWG indexes).  The result is committed; no check runs this, so that a
change to /repo cannot move the reference."""
import json, os, sys
R = "/repo/encoding_tables"
SB = {"ibm_866": "ibm-cp866", "koi8_r": "koi8-r", "koi8_u": "koi8-u",
      "mac_roman": "mac-roman", "mac_cyrillic": "mac-cyrillic", "windows_874": "windows-cp874"}
for n in [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 15, 16]:
    SB["iso_8859_%d" % n] = "iso-8859-%d" % n
for n in range(1250, 1259):
    SB["windows_%d" % n] = "windows-cp%d" % n
out = {"ascii": [-1] * 128}
for name, f in sorted(SB.items()):
    t = [-1] * 256
    for l in open("%s/single_byte/ascii_ext/%s.txt" % (R, f)):
        p = l.split()
        if len(p) >= 2 and not p[0].startswith("#") and not p[1].startswith("#"):
            t[int(p[0], 16)] = int(p[1], 16)
    assert t[:128] == list(range(128)), name
    out[name] = t[128:]
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "data")
json.dump(out, open(D + "/single_byte.json", "w"), separators=(",", ":"), sort_keys=True)
for name, f, size in (("big5", "index-big5.txt", 126 * 157), ("sjis", "index-jis0208.txt", 60 * 188)):
    t = [-1] * size
    for l in open("%s/whatwg/%s" % (R, f)):
        p = l.split()
        if len(p) >= 2 and not p[0].startswith("#"):
            t[int(p[0])] = int(p[1], 16)
    json.dump(t, open("%s/%s.json" % (D, name), "w"), separators=(",", ":"))
    print(name, sum(x >= 0 for x in t), max(i for i, x in enumerate(t) if x >= 0))
