"""D01: discrete geometric approach on tetrahedral meshes."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vt, docs

def check():
    c = vt.Check("D01")
    c.design("DGADesign", None if vt.QUICK else "DGADesignBig.cfg", workers=8, min_distinct=500)
    b = vt.compile_harness("d01_dga", sources=vt.LIB)
    n = 16 if vt.QUICK else 120
    L = [docs.par("tet", bx=1 + s % 2, by=1 + (s // 2) % 2, nz=1 + (s // 4) % 2, seed=vt.SEED * 31 + s) for s in range(n)] + [docs.par("tet", pat=1, seed=s) for s in (3, 4, 8)]
    f = docs.write(c, docs.generate(c, L))
    P = 8 if vt.QUICK else 24
    traces = c.run_many(b, [(f, vt.SEED, k, P) for k in range(P)])
    c.validate("DGATrace", traces, timeout=1500)
    return c.finish()

vt.main(check)
