"""C01: condensing, solving and expanding a system gives the solution of the whole system."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vt, docs

def check():
    c = vt.Check("C01")
    c.design("CondensationDesign", min_distinct=1000)
    b = vt.compile_harness("c01_condense", sources=vt.LIB)
    d = docs.generate(c, docs.standard(3) if vt.QUICK else docs.standard(20))
    f = docs.write(c, d)
    P = 8 if vt.QUICK else 32
    traces = c.run_many(b, [(f, vt.SEED, k, P, 12 if vt.QUICK else 60) for k in range(P)])
    c.validate("CondensationTrace", traces, timeout=1500)
    return c.finish()

vt.main(check)
