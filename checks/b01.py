"""B01: registry of boundary conditions."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vt, docs

def check():
    c = vt.Check("B01")
    b = vt.compile_harness("b01_bc", sources=vt.LIB)
    ps = docs.standard(1) if vt.QUICK else docs.standard(8)
    d = docs.generate(c, ps)
    f = docs.write(c, d)
    hs, _ = c.generate("BoundaryOpsGen", env={"NRAND": 60 if vt.QUICK else 600, "SEED": vt.SEED})
    pairs = [h for h in hs if h["kind"] == "pair"]
    rnd = [h for h in hs if h["kind"] == "random"]
    if len(pairs) < 800 or len(rnd) < 60:
        raise vt.ToolError("too few histories")
    small = [k for k in d if len(k["cells"]) <= 6]
    L, n = [], 0
    def put(h, doc, scalar):
        o = []
        for x in h["ops"]:
            o.append("add %s %d %d %d" % (x["k"], x["type"], x["id"], x["fun"]) if x["op"] == "add" else
                     "all" if x["op"] == "all" else "factor %d" % x["v"])
        L.append("%d %d %d %s" % (doc["n"], scalar, len(o), " ".join(o)))
    for i, h in enumerate(pairs):
        for scalar in (0, 1):
            put(h, small[(i + scalar) % len(small)], scalar)
    for i, h in enumerate(rnd):
        put(h, d[i % len(d)], i % 2)
    hf = os.path.join(c.dir, "hist.txt")
    open(hf, "w").write("\n".join(L) + "\n")
    P = 8 if vt.QUICK else 32
    traces = c.run_many(b, [(f, hf, k, P) for k in range(P)])
    c.validate("BoundaryConditionsTrace", traces, timeout=1500)
    c.extra["histories"] = len(L)
    return c.finish()

vt.main(check)
