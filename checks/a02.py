"""A02: assembled systems of vector unknowns with per-component conditions."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vt, docs

def check():
    c = vt.Check("A02")
    b = vt.compile_harness("a02_vector_assembly", sources=vt.LIB)
    d = docs.generate(c, docs.standard(3) if vt.QUICK else docs.standard(12))
    d = [x for x in d if len(x["cells"]) <= 8 and x["kind"] != "uniform1"]
    d3 = [x for x in d if x["dim"] == 3 and len(x["cells"]) <= 2]
    f = docs.write(c, d)
    cf, _ = c.generate("VectorAssemblyGen", env={"NRAND": 120 if vt.QUICK else 300, "SEED": vt.SEED})
    L = []
    for i, x in enumerate(cf):
        for j in range(2):
            ds = d3 if j == 1 else d
            doc = ds[(i * 7 + j * 3 + x["seed"]) % len(ds)]
            L.append("%d %s %d %d %d %d %s" % (doc["n"], x["asm"], x["fdeg"], x["nl"], x["cycles"], x["seed"] + 1000 * j,
                                               " ".join("".join(s) or "-" for s in x["slots"])))
    hf = os.path.join(c.dir, "cfgs.txt")
    open(hf, "w").write("\n".join(L) + "\n")
    P = 8 if vt.QUICK else 32
    traces = c.run_many(b, [(f, hf, k, P) for k in range(P)])
    c.validate("VectorAssemblyTrace", traces, timeout=1500)
    c.extra["histories"] = len(L)
    return c.finish()

vt.main(check)
