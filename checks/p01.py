"""P01: bases span their polynomial spaces; matrices and projections are exact on them."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vt, docs

def check():
    c = vt.Check("P01")
    bins = vt.compile_many([("p01_bases", dict(cxxflags=["-DPDIM=%d" % d], tag="%d" % d, sources=vt.LIB)) for d in (1, 2, 3)])
    d = docs.generate(c, docs.standard(2) if vt.QUICK else docs.standard(20, big=True))
    f = docs.write(c, d)
    traces = []
    for dim, b in zip((1, 2, 3), bins):
        P = {1: 1, 2: 6, 3: 8}[dim] * (1 if vt.QUICK else 6)
        traces += c.run_many(b, [(f, vt.SEED, k, P, (4 if dim < 3 else 3) if vt.QUICK else 4) for k in range(P)])
    c.validate("PolySpacesTrace", traces, timeout=1500)
    return c.finish()

vt.main(check)
