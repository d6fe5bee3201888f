"""G02: decompositions in simplices tile the element."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vt, docs

def check():
    c = vt.Check("G02")
    b = vt.compile_harness("g02_split", sources=vt.LIB)
    ps = docs.standard(12) if vt.QUICK else docs.standard(60, big=True)
    d = docs.generate(c, ps)
    f = docs.write(c, d)
    P = 8 if vt.QUICK else 24
    traces = c.run_many(b, [(f, vt.SEED, k, P) for k in range(P)])
    c.validate("SplittingTrace", traces, timeout=1500)
    return c.finish()

vt.main(check)
