"""L02: tensor algebra, kinematics and stress measures of the mechanics library."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vt

def check():
    c = vt.Check("L02")
    b = vt.compile_harness("l02_tensors", sources=vt.LIB)
    g, _ = c.generate("TensorsGen", env={"NRAND": 20 if vt.QUICK else 150, "SEED": vt.SEED})
    P = 8 if vt.QUICK else 32
    jobs = []
    for p in range(P):
        hf = os.path.join(c.dir, "cases%d.txt" % p)
        with open(hf, "w") as o:
            for x in g[p::P]:
                v = [x["op"], x["d"], x["den"], len(x["x"])]
                for a in x["x"] + [x["k"]]:
                    v += [len(a)] + a
                o.write(" ".join(map(str, v)) + "\n")
        jobs.append((b, (hf,)))
    traces = c.run_jobs(jobs)
    c.validate("TensorsTrace", traces, timeout=1500)
    c.extra["operations"] = len(g)
    return c.finish()

vt.main(check)
