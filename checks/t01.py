"""T01: time stepping of the nonlinear mechanics solver."""
import os, sys, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vt, docs

KINDS = {(2, "simplex"): 20, (2, "cart"): 21, (2, "poly"): 22, (3, "simplex"): 30, (3, "cart"): 31, (3, "poly"): 32}
NAMES = {"Epsilon": lambda v: "1e-%d" % v}
QUARTER = {"Beta", "Theta", "Gamma0", "Threshold", "FinalTime"}

def flat(F):
    r = []
    for p in F:
        r.append(len(p))
        for c, e in p:
            r += [c] + list(e)
    return r

def run_line(doc, c):
    p = c["p"]
    m, dy = p["mat"], p["dyn"]
    def acc(e):
        return next((r["a"] for r in c["rows"] if r["e"] == e), 0)
    v = [doc, p["mode"], p["k"], p["cd"], p["gd"], p["stab"], p["pre"], p["adapt"], p["beta"], p["lam"], p["mu"], m["H"], m["K"], m["sy"], p["qs"],
         p["law"][0], p["law"][1], p["ltype"], p["sub"], p["imax"], p["final"], len(p["segs"])] + sum(p["segs"], [])
    v += [len(p["saves"])] + p["saves"] + [p["uden"], dy["b"], dy["g"], dy["d"], dy["v"], p["a0"], dy["rho"], int(p["exact"]), len(p["bnd"])] + p["bnd"]
    v += flat(p["u"]) + flat(p["f"]) + flat(p["sig"]) + [len(c["rows"])]
    for r in c["rows"]:
        v += [r["s"], r["e"], r["o"], r["d"], r["a"], r["h"]["p"], int(r["h"]["plastic"]), r["sg"]]
    keep = {k: p[k] for k in ("mode", "dim", "k", "cd", "gd", "stab", "r", "exact", "law", "segs", "final", "sub", "imax", "fails", "saves", "unit", "amax", "dyn", "mat")}
    return "run " + " ".join(map(str, v)) + "|" + json.dumps(keep)

def param_file(path, c):
    if c["end"] == 4:
        return
    L = ["StartParameters" if c["end"] == 3 else "BeginParameters"]
    for k, v in c["kvs"]:
        if k == "TimeStep":
            L.append("TimeStep %d" % len(v))
            L += ["%g %d" % (t / 4, n) for t, n in v]
        elif k == "TimeSave":
            L.append("TimeSave %d" % len(v))
            L += ["%g" % (t / 4) for t in v]
        else:
            L.append("%s %s" % (k, NAMES[k](v) if k in NAMES else "%g" % (v / 4) if k in QUARTER else v))
    if c["end"] == 2:
        L.append("NoSuchKeyword 1")
    if c["end"] != 1:
        L.append("EndParameters")
    open(path, "w").write("\n".join(L) + "\n")

def check():
    c = vt.Check("T01")
    c.design("TimeSteppingDesign", min_distinct=5000)
    bins = dict(zip(KINDS, vt.compile_many([("t01_timestepping", dict(cxxflags=["-DHAVE_INTEL_MKL", "-DKIND=%d" % k], tag="%d" % k, sources=vt.LIB)) for k in KINDS.values()])))
    d = docs.generate(c, docs.standard(4) if vt.QUICK else docs.standard(20))
    d = [x for x in d if len(x["cells"]) <= (8 if x["dim"] == 2 else 24 if x["kind"] == "simplex" else 4)]
    f = docs.write(c, d)
    g, _ = c.generate("TimeStepGen", env={"NRAND": 500 if vt.QUICK else 4000, "SEED": vt.SEED})
    by = {}
    for x in d:
        by.setdefault((x["dim"], x["kind"] if x["kind"] in ("simplex", "cart") else "poly"), []).append(x)
    lines = {k: [] for k in KINDS}
    for i, x in enumerate(g):
        if x["kind"] == "run":
            ks = [k for k in KINDS if k[0] == x["p"]["dim"] and by.get(k)]
            k = ks[x["n"] % len(ks)]
            ds = [q for q in by[k] if x["p"]["mode"] != 1 or len(q["cells"]) > 1]
            doc = ds[(x["n"] * 5 + i) % len(ds)]
            lines[k].append(run_line(doc["n"], x))
        else:
            k = list(KINDS)[i % len(KINDS)]
            if x["kind"] == "lst":
                v = [x["final"], len(x["segs"])] + sum(x["segs"], []) + [len(x["ops"])] + x["ops"]
                lines[k].append("lst " + " ".join(map(str, v)) + "|")
            elif x["kind"] == "par":
                path = os.path.join(c.dir, "par%d.txt" % x["n"])
                param_file(path, x)
                lines[k].append("par %s %d|%s" % (path, x["end"], json.dumps(x["kvs"])))
            elif by.get(k):
                v = [by[k][x["n"] % len(by[k])]["n"], x["beta"], len(x["ops"])] + sum(x["ops"], [])
                lines[k].append("stb " + " ".join(map(str, v)) + "|")
    traces = []
    P = 3 if vt.QUICK else 12
    jobs = []
    for k in KINDS:
        hf = os.path.join(c.dir, "cfg%d.txt" % KINDS[k])
        open(hf, "w").write("\n".join(lines[k]) + "\n")
        jobs += [(bins[k], (f, hf, j, P)) for j in range(P)]
    traces = c.run_jobs(jobs, timeout=600)
    c.validate("TimeSteppingTrace", traces, timeout=1500)
    c.extra["computations"] = sum(1 for x in g if x["kind"] == "run")
    c.extra["other_histories"] = sum(1 for x in g if x["kind"] != "run")
    return c.finish()

vt.main(check)
