#!/usr/bin/env python3
"""Is the verdict sensitive?  For each property: records cases from the real code, falsifies one
observation in each (as a faulty library would have shown it), and counts the falsified cases that
Judge (and Trace) reject.  A kind of falsification that no case of a property can be broken by is
shown as '-'.  Not part of the checks; DESIGN.md quotes its table.

  tools/sensitivity.py [Cxx ...]
"""
import copy, glob, importlib.machinery, importlib.util, json, os, random, re, shutil, subprocess, sys, tempfile
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
l = importlib.machinery.SourceFileLoader("check", os.path.join(V, "bin", "check"))
s = importlib.util.spec_from_loader("check", l)
K = importlib.util.module_from_spec(s)
l.exec_module(K)


def lose_byte(q, r): q["o"] = q["o"][:-1]; q["wr"] -= 1
def change_byte(q, r): i = r.randrange(len(q["o"])); q["o"][i] ^= 1
def less_used(q, r): q["u"] -= 1
def more_used(q, r): q["u"] += 1
def silent(q, r): q.update(k="ok", n=0, ch=0)
def error(q, r): q.update(k="err", n=min(q["u"] + 1, sz(q)), ch=q["w"][-1] if q["d"] == "enc" else 0)
def wider(q, r): q["n"] += 1
def written(q, r): q["wr"] += 1
def panics(q, r): q.update(k="panic", u=0, n=0, o=[], wr=0)
def outside(q, r): q["oob"] = True


def sz(q):
    return len(q["w"]) if q["d"] == "dec" else len("".join(map(chr, q["w"])).encode("utf8", "surrogatepass"))


KINDS = [
    ("loses a byte", lose_byte, lambda q: q["o"] and q["k"] in ("ok", "err")),
    ("changes a byte", change_byte, lambda q: q["o"] and q["k"] in ("ok", "err")),
    ("consumes less", less_used, lambda q: q["k"] == "ok" and q["u"] > 0),
    ("consumes more", more_used, lambda q: q["k"] == "ok" and q["u"] < sz(q)),
    ("hides an error", silent, lambda q: q["k"] == "err"),
    ("makes up an error", error, lambda q: q["k"] == "ok" and q["w"] and q["u"] < sz(q)),
    ("wider range", wider, lambda q: q["k"] == "err" and q["n"] < sz(q)),
    ("wrong count", written, lambda q: q["k"] == "err"),
    ("panics", panics, lambda q: q["k"] in ("ok", "err")),
    ("writes outside", outside, lambda q: q["k"] in ("ok", "err")),
]


def main():
    props = sys.argv[1:] or ["C%02d" % i for i in range(1, 28)]
    run = tempfile.mkdtemp(prefix="sens-", dir=K.BUILD)
    try:
        exe, orc = K.build(), K.oracle(run)
        print("%-4s %s" % ("", "  ".join("%-17s" % k[0] for k in KINDS)))
        for p in props:
            out = os.path.join(run, p)
            K.explore(exe, p, "quick", 1, orc, None, out, 5, 60)
            base = [json.loads(c) for c in open(os.path.join(out, "cases.ndjson"))][:150]
            r = random.Random(7)
            cases, tags = [], []
            for name, f, applies in KINDS:
                n = 0
                for c in base:
                    for field in ("calls", "s1", "s2"):
                        where = [i for i, q in enumerate(c[field]) if applies(q)]
                        if where and n < 60:
                            m = copy.deepcopy(c)
                            f(m[field][r.choice(where)], r)
                            cases.append(json.dumps(m, separators=(",", ":")))
                            tags.append(name)
                            n += 1
            v, res = K.judge(cases, run, "j" + p, timeout=600)
            row = []
            for name, _, _ in KINDS:
                idx = [i for i, t in enumerate(tags) if t == name]
                bad = sum(1 for i in idx if v.get(i) is False)
                und = sum(1 for i in idx if i not in v)
                row.append("%-17s" % (("%d/%d" % (bad, len(idx)) + (" ?%d" % und if und else "")) if idx else "-"))
            print("%-4s %s" % (p, "  ".join(row)), flush=True)
    finally:
        shutil.rmtree(run, ignore_errors=True)


main()
