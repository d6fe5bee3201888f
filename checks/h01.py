"""H01: local HHO operators reproduce polynomials; stabilisations vanish on them and nowhere else."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vt, docs

def check():
    c = vt.Check("H01")
    jobs = [(2, 1), (2, 2), (3, 1), (3, 2), (3, 3)]
    bins = vt.compile_many([("h01_hho", dict(cxxflags=["-DPDIM=%d" % d, "-DPKIND=%d" % k], tag="%d%d" % (d, k), sources=vt.LIB)) for d, k in jobs])
    d = docs.generate(c, docs.standard(2) if vt.QUICK else docs.standard(20, big=True))
    f = docs.write(c, d)
    traces = []
    for (dim, kind), b in zip(jobs, bins):
        P = 8 * (1 if vt.QUICK else 6)
        traces += c.run_many(b, [(f, vt.SEED * 10 + kind, k, P, 3 if dim == 2 else 2) for k in range(P)])
    c.validate("HHOTrace", traces, timeout=1500)
    return c.finish()

vt.main(check)
