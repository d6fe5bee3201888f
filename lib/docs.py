"""Mesh documents: generated and validated by spec/MeshDocGen, written in the
text form harness/meshbuild.hpp reads."""
import json, os
import vt

KINDS2 = ("tri", "cart2", "poly", "cpoly")
KINDS3 = ("tet", "cart3", "prism")

def par(kind, bx=1, by=1, nz=1, seed=0, pat=-1):
    return dict(kind=kind, bx=bx, by=by, nz=nz, seed=seed, pat=pat)

def single(seed=3):
    """documents with a single cell"""
    return [par("g1", bx=1, seed=seed), par("poly", pat=5, seed=seed), par("cart2", pat=11, seed=seed),
            par("poly", pat=11, seed=seed), par("cart3", pat=11, seed=seed), par("prism", pat=11, seed=seed),
            par("prism", pat=5, seed=seed), par("tri", pat=1, seed=seed), par("tet", pat=1, seed=seed)]

def standard(nseeds=4, big=False, kinds=None, base=None):
    """a list of parameter records covering all kinds"""
    s0 = (vt.SEED * 17 if base is None else base)
    L = []
    for s in [0] + [s0 + k + 1 for k in range(nseeds)]:
        for k in ("g1",) + KINDS2 + KINDS3:
            if kinds and k not in kinds:
                continue
            if k == "g1":
                L.append(par(k, bx=3 + s % 4, seed=s))
            elif k in KINDS2:
                L.append(par(k, bx=1 + (s % 2) + (1 if big else 0), by=1 + ((s // 2) % 2), seed=s))
            else:
                L.append(par(k, bx=1 + (1 if big and s % 2 else 0), by=1, nz=1 + s % 2, seed=s))
    for s in (3,) if nseeds < 4 else (3, 7, 11, 2, 0):
        L += [q for q in single(s) if not kinds or q["kind"] in kinds]
    return L

def generate(check, params, name="docs"):
    pf = vt.write_ndjson(os.path.join(check.dir, name + ".params"), params)
    docs, _ = check.generate("MeshDocGen", env={"PARAMS": pf}, workers=4)
    if len(docs) != len(params):
        raise vt.ToolError("expected %d documents, got %d" % (len(params), len(docs)))
    docs.sort(key=lambda d: d["n"])
    return docs

def lst(v):
    return "%d %s" % (len(v), " ".join(map(str, v)))

def text(d):
    o = ["DOC %d %d %s %d %d %d %d" % (d["n"], d["dim"], d["kind"], d["scale"], len(d["pts"]), len(d["cells"]), len(d["bnd"]))]
    o += [" ".join(map(str, p)) for p in d["pts"]]
    for c, fs, dm in zip(d["cells"], d["cfaces"], d["dom"]):
        o.append("%d %s %d %s" % (dm, lst(c), len(fs), " ".join(lst(f) for f in fs)))
    o += ["%d %s" % (b["id"], lst(b["pts"])) for b in d["bnd"]]
    return "\n".join(o) + "\n"

def write(check, docs, name="docs"):
    fn = os.path.join(check.dir, name + ".txt")
    with open(fn, "w") as f:
        for d in docs:
            f.write(text(d))
    return fn
