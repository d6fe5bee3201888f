"""M03: mesh hierarchies are nested red refinements; point location."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vt, docs

def check():
    c = vt.Check("M03")
    c.design("MeshGenDesign", workers=4)
    b = vt.compile_harness("m03_hierarchy", sources=["libdiskpp/src/common/mapped_file.cpp"])
    ps = [docs.par("tri", 1 + s % 2, 1 + (s // 2) % 2, seed=s) for s in range(12 if vt.QUICK else 60)]
    d = docs.generate(c, ps)
    f = docs.write(c, d)
    traces = c.run_many(b, [(f, 2 if vt.QUICK else 3, vt.SEED, k, 8) for k in range(8)])
    if vt.QUICK:
        traces += c.run_many(b, [(f, 3, vt.SEED, 1, 12)])
    c.validate("MeshHierarchyTrace", traces, timeout=3000)
    return c.finish()

vt.main(check)
