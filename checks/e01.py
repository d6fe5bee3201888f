"""E01: first order conforming finite elements on triangles."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vt, docs

def check():
    c = vt.Check("E01")
    c.design("FEMDesign", None if vt.QUICK else "FEMDesignBig.cfg", workers=8, min_distinct=4000)
    b = vt.compile_harness("e01_fem", sources=vt.LIB)
    n = 24 if vt.QUICK else 200
    L = [docs.par("tri", bx=1 + s % 4, by=1 + (s // 4) % 3, seed=vt.SEED * 29 + s) for s in range(n)] + [docs.par("tri", pat=1, seed=s) for s in (3, 4, 8)]
    f = docs.write(c, docs.generate(c, L))
    P = 4 if vt.QUICK else 16
    traces = c.run_many(b, [(f, vt.SEED, k, P) for k in range(P)])
    c.validate("FEMTrace", traces, timeout=1500)
    return c.finish()

vt.main(check)
