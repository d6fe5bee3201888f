"""Q01: quadratures integrate exactly the polynomials of the degree asked."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vt, docs

def check():
    c = vt.Check("Q01")
    b = vt.compile_harness("q01_quadrature", sources=vt.LIB)
    d = docs.generate(c, docs.standard(5) if vt.QUICK else docs.standard(40, big=True))
    f = docs.write(c, d)
    cf, _ = c.generate("QuadratureGen", env={"NREP": 1 if vt.QUICK else 8, "SEED": vt.SEED})
    L = []
    for x in cf:
        L.append("%s %s %d %d %d %d %d %d %s %s" % (x["rule"], x["shape"], x["deg"], x["q"], x["k"], x["max"], len(x["ps"]), len(x["ps"][0]),
                                                 " ".join(str(v) for p in x["ps"] for v in p), " ".join(map(str, x["form"]))))
    rf = os.path.join(c.dir, "raws.txt")
    open(rf, "w").write("\n".join(L) + "\n")
    P = 8 if vt.QUICK else 48
    traces = c.run_many(b, [(f, rf, vt.SEED, k, P) for k in range(P)])
    c.validate("QuadratureTrace", traces, timeout=1500)
    c.extra["rule_uses"] = len(L)
    return c.finish()

vt.main(check)
