"""A01: assembled global systems are the sum of the local contributions."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vt, docs

def check():
    c = vt.Check("A01")
    b = vt.compile_harness("a01_assembly", sources=vt.LIB)
    d = docs.generate(c, docs.standard(3) if vt.QUICK else docs.standard(12))
    d = [x for x in d if len(x["cells"]) <= 8]
    f = docs.write(c, d)
    cf, _ = c.generate("AssemblyGen", env={"NRAND": 40 if vt.QUICK else 300, "SEED": vt.SEED})
    L = []
    for i, x in enumerate(cf):
        for j in range(2):
            doc = d[(i * 7 + j * 3 + x["seed"]) % len(d)]
            L.append("%d %s %d %d %d %d %s" % (doc["n"], x["asm"], x["fdeg"], x["cdeg"], x["cycles"], x["seed"] + 1000 * j,
                                               " ".join("".join(s) or "-" for s in x["slots"])))
    hf = os.path.join(c.dir, "cfgs.txt")
    open(hf, "w").write("\n".join(L) + "\n")
    P = 8 if vt.QUICK else 32
    traces = c.run_many(b, [(f, hf, k, P) for k in range(P)])
    c.validate("AssemblyTrace", traces, timeout=1500)
    c.extra["histories"] = len(L)
    return c.finish()

vt.main(check)
