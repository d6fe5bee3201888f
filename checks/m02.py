"""M02: mesh queries agree with each other and with the mesh, under histories."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vt, docs

def check():
    c = vt.Check("M02")
    b = vt.compile_harness("m02_queries")
    ps = docs.standard(8) if vt.QUICK else docs.standard(40, big=True)
    d = docs.generate(c, ps)
    f = docs.write(c, d)
    P = 8 if vt.QUICK else 24
    traces = c.run_many(b, [(f, vt.SEED, k, P) for k in range(P)])
    c.validate("MeshStateTrace", traces, timeout=1500)
    return c.finish()

vt.main(check)
