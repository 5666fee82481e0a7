#!/usr/bin/env python3
"""The literals of /repo's sources (numbers, characters, strings), by module: hints for the windows to explore
and the buffer sizes to use, as a fuzzer's dictionary is.  What the code does with them is left to the checks.

constants.py SRC OUT   writes {"module": {"numbers": [...], "chars": [...], "strings": [[bytes]...]}}"""
import json, os, re, sys

NUM = r"(?:0x[0-9A-Fa-f_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:(?:u|i)(?:8|16|32|64|128|size))?"
ESC = {"n": 10, "r": 13, "t": 9, "0": 0, "\\": 92, "'": 39, '"': 34}


def num(t):
    t = re.sub(r"(?:u|i)(?:8|16|32|64|128|size)$", "", t).replace("_", "")
    try:
        return int(t, 0) if t[:2].lower() in ("0x", "0b", "0o") else int(t)
    except ValueError:
        return None


def text(s):
    """The code points of a literal's body."""
    v, i = [], 0
    while i < len(s):
        c = s[i]
        if c != "\\" or i + 1 == len(s):
            v.append(ord(c))
            i += 1
            continue
        e = s[i + 1]
        m = re.match(r"\\u\{([0-9A-Fa-f_]+)\}|\\x([0-9A-Fa-f]{2})", s[i:])
        if m:
            v.append(int((m.group(1) or m.group(2)).replace("_", ""), 16))
            i += m.end()
        else:
            if e in ESC:
                v.append(ESC[e])
            i += 2
    return v


def literals(s, numbers, chars, strings):
    s = re.sub(r"(?m)(^|\s)//.*$", "", s)
    s = re.sub(r'\b(?:include|concat|stringify|env|panic|expect|debug_assert|assert)\w*!?\s*\("[^"]*"\)', " ", s)
    for m in re.finditer(r'b?"((?:[^"\\]|\\.)*)"', s):
        t = text(m.group(1))
        if 0 < len(t) <= 64:
            strings.add(tuple(t))
    s = re.sub(r'b?"((?:[^"\\]|\\.)*)"', '""', s)
    for m in re.finditer(r"b?'([^'\\]|\\(?:u\{[0-9A-Fa-f_]+\}|x[0-9A-Fa-f]{2}|.))'", s):
        t = text(m.group(1))
        if len(t) == 1:
            chars.add(t[0])
    s = re.sub(r"b?'([^'\\]|\\(?:u\{[0-9A-Fa-f_]+\}|x[0-9A-Fa-f]{2}|.))'", " ", s)
    for m in re.finditer(r"[\[(]\s*((?:%s\s*,\s*)+%s)\s*,?\s*[\])]" % (NUM, NUM), s):
        t = [num(x) for x in re.findall(NUM, m.group(1))]
        if 2 <= len(t) <= 64 and all(x is not None and x < 0x110000 for x in t):
            strings.add(tuple(t))
    for m in re.finditer(r"\b(%s)\s*(<<|\*|\+|-)\s*(%s)\b" % (NUM, NUM), s):
        a, b = num(m.group(1)), num(m.group(3))
        if a is not None and b is not None:
            x = {"<<": lambda: a << min(b, 40), "*": lambda: a * b, "+": lambda: a + b, "-": lambda: a - b}[m.group(2)]()
            if 0 <= x < 1 << 40:
                numbers.add(x)
    for m in re.finditer(r"(?<![\w.])%s\b" % NUM, s):
        x = num(m.group(0))
        if x is not None:
            numbers.add(x)


def main(src, out):
    by = {}
    for d, _, fs in sorted(os.walk(src)):
        for f in sorted(fs):
            if not f.endswith((".rs", ".inc")):
                continue
            s = open(os.path.join(d, f), encoding="utf-8", errors="replace").read()
            i = s.find("#[cfg(test)]")
            s = s if i < 0 else s[:i]
            if f.endswith(".inc"):  # tables: only what looks like code
                s = "\n".join(l for l in s.splitlines() if re.search(r"\b(if|let|match|while|for|const|return)\b", l) and len(l) < 200)
                s = re.sub(r"\[[^\]]*;\s*\d+\]", "", s)
                mod = "generated/" + f
            else:
                mod = f[:-3]
            q = by.setdefault(mod, (set(), set(), set()))
            literals(s, *q)
    j = {m: {"numbers": sorted(a)[:400], "chars": sorted(b)[:200], "strings": [list(t) for t in sorted(c)[:200]]} for m, (a, b, c) in by.items()}
    json.dump(j, open(out, "w"))
    return j


if __name__ == "__main__":
    for m, q in main(sys.argv[1], sys.argv[2]).items():
        print(m, len(q["numbers"]), q["numbers"][:60], len(q["chars"]), len(q["strings"]), q["strings"][:6])
