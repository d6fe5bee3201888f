"""S01: contact with a rigid half space, with and without friction."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vt, docs

KINDS = (20, 21, 22, 30, 31, 32)

def check():
    c = vt.Check("S01")
    c.design("ContactDesign", None if vt.QUICK else "ContactDesignBig.cfg", workers=8, min_distinct=20000)
    bins = dict(zip(KINDS, vt.compile_many([("s01_contact", dict(cxxflags=["-DHAVE_INTEL_MKL", "-DKIND=%d" % k], tag="%d" % k, sources=vt.LIB)) for k in KINDS])))
    L = [d for d in docs.standard(6 if vt.QUICK else 24, big=not vt.QUICK) if d["kind"] != "g1"]
    f = docs.write(c, docs.generate(c, L))
    P, F = (2, 16) if vt.QUICK else (4, 60)
    traces = c.run_jobs([(bins[k], (f, vt.SEED, i, P, F, k)) for k in KINDS for i in range(P)], timeout=1500)
    c.validate("ContactTrace", traces, timeout=1500)
    return c.finish()

vt.main(check)
