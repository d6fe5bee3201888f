"""N01: model problems with polynomial solutions, on whole meshes."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vt, docs

KINDS = (20, 21, 22, 30, 31, 32)

def check():
    c = vt.Check("N01")
    bins = dict(zip(KINDS, vt.compile_many([("n01_problems", dict(cxxflags=["-DHAVE_INTEL_MKL", "-DKIND=%d" % k, "-I" + vt.REPO], tag="%d" % k, sources=vt.LIB)) for k in KINDS])))
    g, _ = c.generate("ModelProblemsGen", env={"NRAND": 2 if vt.QUICK else 12, "SEED": vt.SEED, "KMAX": 2 if vt.QUICK else 3}, workers=4)
    pf = vt.write_ndjson(os.path.join(c.dir, "problems"), sorted(g, key=lambda x: json.dumps(x, sort_keys=True)))
    L = [d for d in docs.standard(8 if vt.QUICK else 24, big=not vt.QUICK) if d["kind"] != "g1"]
    f = docs.write(c, docs.generate(c, L))
    P, cap = (2, 700) if vt.QUICK else (6, 2000)
    traces = c.run_jobs([(bins[k], (f, pf, vt.SEED, i, P, cap, k)) for k in KINDS for i in range(P)], timeout=1500)
    c.validate("ModelProblemsTrace", traces, timeout=1500)
    c.extra["problems"] = len(g)
    return c.finish()

vt.main(check)
