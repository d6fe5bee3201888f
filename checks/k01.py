"""K01: exact numbers, points, identifiers, lines of files, registries of degrees."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vt, docs

def lst(v):
    return "%d %s" % (len(v), " ".join(map(str, v)))

def check():
    c = vt.Check("K01")
    b = vt.compile_harness("k01_foundations", sources=vt.LIB)
    d = docs.generate(c, docs.standard(2) if vt.QUICK else docs.standard(8))
    f = docs.write(c, d)
    hs, _ = c.generate("FoundationsGen", env={"NRAND": 60 if vt.QUICK else 600, "SEED": vt.SEED})
    n = {}
    L = []
    for h in hs:
        k = h["kind"]
        n[k] = n.get(k, 0) + 1
        if k == "pair":
            L.append("pair %s %s" % (lst(h["a"]), lst(h["b"])))
        elif k == "chain":
            L.append("chain %s %s" % (lst(h["a"]), " ".join("%s %s" % (s["op"], lst(s["b"])) for s in h["steps"])))
        elif k == "points":
            L.append("points %s %s %s" % (lst(h["p"]), lst(h["q"]), lst([h["s"]])))
        elif k == "file":
            L.append("file %s %s" % (lst(h["lens"]), lst([h["tail"]])))
        else:
            L.append("degrees %d %s" % (len(h["ops"]), " ".join("%s %d %d %s" % (o["op"], o["k"], o["i"], lst(o["v"])) for o in h["ops"])))
    if min(n.get(k, 0) for k in ("pair", "chain", "points", "file", "degrees")) < 15:
        raise vt.ToolError("too few cases")
    hf = os.path.join(c.dir, "cases.txt")
    open(hf, "w").write("\n".join(L) + "\n")
    P = 8 if vt.QUICK else 16
    traces = c.run_many(b, [(f, hf, k, P, c.dir) for k in range(P)])
    c.validate("FoundationsTrace", traces, timeout=1500)
    c.extra["cases"] = n
    return c.finish()

vt.main(check)
