"""L01: material laws at quadrature points, their histories and tangents."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vt, docs

def check():
    c = vt.Check("L01")
    c.design("MaterialDesign", min_distinct=3000)
    b = vt.compile_harness("l01_materials", sources=vt.LIB)
    d = docs.generate(c, docs.standard(1) if vt.QUICK else docs.standard(4))
    d = [x for x in d if x["dim"] > 1 and len(x["cells"]) <= 6]
    f = docs.write(c, d)
    g, _ = c.generate("MaterialsGen", env={"NRAND": 20 if vt.QUICK else 200, "SEED": vt.SEED})
    pf = vt.write_ndjson(os.path.join(c.dir, "programs.txt"), [x["ops"] for x in g])
    P = 8 if vt.QUICK else 48
    traces = c.run_many(b, [(f, pf, k, P) for k in range(P)])
    c.validate("MaterialsTrace", traces, timeout=1500)
    c.extra["programs"] = len(g)
    c.extra["operations"] = sum(len(x["ops"]) for x in g)
    return c.finish()

vt.main(check)
