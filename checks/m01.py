"""M01: structured meshers tile the unit square/cube; refinement histories."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vt

def check():
    c = vt.Check("M01")
    c.design("MeshGenDesign", workers=4)
    b = vt.compile_harness("m01_meshgen")
    lv = {"tri": 5, "quad": 5, "tet": 3, "hex": 5} if vt.QUICK else {"tri": 6, "quad": 6, "tet": 4, "hex": 6}
    traces = c.run_many(b, [(m, n) for m, n in lv.items()])
    c.validate("MeshGenTrace", traces, heap="6g", timeout=3000)
    return c.finish()

vt.main(check)
