"""M04: loading a mesh file yields the mesh the file describes, or is refused."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vt, docs, formats

def check():
    c = vt.Check("M04")
    b = vt.compile_harness("m04_loaders", sources=["libdiskpp/src/common/mapped_file.cpp"])
    ps = docs.standard(8, kinds=("tri", "cart2", "poly", "cpoly", "tet", "cart3", "prism")) if vt.QUICK \
        else docs.standard(40, big=True, kinds=("tri", "cart2", "poly", "cpoly", "tet", "cart3", "prism"))
    ds = docs.generate(c, ps)
    P = 8
    jobs = [[] for _ in range(P)]
    rng = random.Random(vt.SEED)
    n = 0
    for fmt, (ext, kinds) in formats.FORMATS.items():
        seen = 0
        for d in ds:
            if not formats.admissible(fmt, d):
                continue
            p = d["par"]
            tail = lambda fn, scale, bad, tr, via, what="": "%s %s %s %d %d %d %d %d %d %d %d %d %s" % (
                fmt, fn, p["kind"], p["bx"], p["by"], p["nz"], p["seed"], p["pat"], scale, bad, tr, via, what)
            for rep in range(1 if vt.QUICK else 3):
                scale = rng.choice((1, 2, 4, 8, 16))
                tr = int(fmt == "typ1" and rng.random() < .5)
                txt = formats.write(fmt, d, rng, scale, tr)
                fn = os.path.join(c.dir, "m%d.%s" % (n, ext))
                open(fn, "w").write(txt)
                jobs[n % P].append("F " + tail(fn, scale, 0, tr, n % 2))
                n += 1
            if seen < (2 if vt.QUICK else 6):
                for what, bt in formats.malformed(fmt, formats.write(fmt, d, rng, 1), rng):
                    fn = os.path.join(c.dir, "b%d.%s" % (n, ext))
                    if bt is not None:
                        open(fn, "w").write(bt)
                    jobs[n % P].append("F " + tail(fn, 1, 1, 0, n % 2, what))
                    n += 1
            seen += 1
    for k, (lo, hi, m) in enumerate([(0, 1, 8), (0, 1, 1), (-1, 1, 4), (2, 5, 6), (0, 3, 5), (-4, -2, 16)]):
        jobs[k % P].append("UNIFORM %d %d %d" % (lo, hi, m))
    args = []
    for k, j in enumerate(jobs):
        fn = os.path.join(c.dir, "jobs%d" % k)
        open(fn, "w").write("\n".join(j) + "\n")
        args.append((fn,))
    traces = c.run_many(b, args)
    c.extra["files"] = n
    c.validate("MeshLoadTrace", traces, timeout=1500)
    return c.finish()

vt.main(check)
