"""V01: virtual elements in two dimensions."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vt, docs

def check():
    c = vt.Check("V01")
    c.design("VEMDesign", min_distinct=20000)
    b = vt.compile_harness("v01_vem", sources=vt.LIB)
    d = [x for x in docs.generate(c, docs.standard(8) if vt.QUICK else docs.standard(30, big=True)) if x["dim"] == 2]
    f = docs.write(c, d)
    P = 8 if vt.QUICK else 48
    traces = c.run_many(b, [(f, vt.SEED, k, P, 5) for k in range(P)])
    c.validate("VEMTrace", traces, timeout=1500)
    return c.finish()

vt.main(check)
