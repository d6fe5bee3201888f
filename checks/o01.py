"""O01: files and post-processing meshes represent the mesh and the fields written."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vt, docs

def check():
    c = vt.Check("O01")
    b = vt.compile_harness("o01_output", sources=vt.LIB, libs=["-lsiloh5"])
    d = docs.generate(c, docs.standard(6) if vt.QUICK else docs.standard(40, big=True))
    f = docs.write(c, d)
    g, _ = c.generate("OutputGen", env={"NRAND": 60 if vt.QUICK else 600, "SEED": vt.SEED})
    pf = os.path.join(c.dir, "programs.txt")
    with open(pf, "w") as o:
        for x in g:
            o.write(json.dumps(x) + "\n")
    P = 8 if vt.QUICK else 32
    jobs = []
    for k in range(P):
        s = os.path.join(c.dir, "scratch%d" % k)
        os.makedirs(s, exist_ok=True)
        jobs.append((b, (f, pf, s, vt.SEED + k, k, P)))
    c.validate("OutputTrace", c.run_jobs(jobs), timeout=1500)
    c.extra["programs"] = len(g)
    return c.finish()

vt.main(check)
