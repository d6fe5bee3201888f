"""Writers of the mesh file formats diskpp reads, from mesh documents."""
import random

FORMATS = {   # fmt -> (extension, admissible document kinds)
    "typ1":    ("typ1", ("tri", "cpoly", "poly")),
    "mesh2d":  ("mesh2d", ("tri",)),
    "mesh":    ("mesh", ("tet",)),
    "quad":    ("quad", ("cart2",)),
    "hex":     ("hex", ("cart3",)),
    "msh":     ("msh", ("prism",)),
    "medit2d": ("medit2d", ("tri", "cpoly", "poly")),
    "medit3d": ("medit3d", ("prism",)),
    "poly2d":  ("poly2d", ("tri", "cpoly", "poly")),
    "poly3d":  ("poly3d", ("prism",)),
}

def admissible(fmt, d):
    if d["par"]["kind"] not in FORMATS[fmt][1]:
        return False
    mx = max(len(c) for c in d["cells"])
    if fmt == "typ1":
        return mx <= 8
    if fmt == "medit2d":
        return mx <= 6
    return True

class W:
    def __init__(self, rng, scale):
        self.rng, self.scale = rng, scale
        self.style = rng.randrange(3)
    def num(self, x):
        v = x / self.scale
        return [repr(float(v)), "%.10e" % v, ("%.8f" % v)][self.style]
    def pt(self, p, extra=""):
        sep = ["  ", "\t", " "][self.style]
        return " " + sep.join(self.num(x) for x in p) + extra

def edges_of(c):
    return [tuple(sorted((c[k], c[(k + 1) % len(c)]))) for k in range(len(c))]

def shuffled(rng, xs):
    xs = list(xs)
    rng.shuffle(xs)
    return xs

def flip(rng, e):
    return e if rng.random() < .5 else (e[1], e[0])

def write(fmt, d, rng, scale, transmission=False):
    return globals()["w_" + fmt](d, rng, W(rng, scale), transmission)

def w_typ1(d, rng, w, transmission):
    names = {3: "triangles", 4: "quadrangles", 5: "pentagons", 6: "hexagons", 7: "ennagons", 8: "ettagons"}
    o = ["vertices", str(len(d["pts"]))] + [w.pt(p) for p in d["pts"]]
    order = []
    withdom = any(d["dom"])
    for n in shuffled(rng, names):
        ix = [k for k, c in enumerate(d["cells"]) if len(c) == n]
        if not ix:
            if rng.random() < .3:
                o += [names[n], "0"]
            continue
        o += [names[n], " %d" % len(ix)]
        for k in ix:
            order.append(k)
            o.append(" ".join(str(x + 1) for x in d["cells"][k]) + (" %d" % d["dom"][k] if withdom else ""))
    own = {}
    for num, k in enumerate(order):
        for e in edges_of(d["cells"][k]):
            own.setdefault(e, []).append(num + 1)
    o += ["edges of the boundary", str(len(d["bnd"]))]
    o += ["%d %d" % tuple(x + 1 for x in flip(rng, tuple(b["pts"]))) for b in d["bnd"]]
    if transmission:
        tr = trans_edges(d)
        if tr:
            o += ["edges of transmission", str(len(tr))] + ["%d %d" % (a + 1, b + 1) for a, b in tr]
    es = shuffled(rng, own)
    o += ["all edges", str(len(es))]
    for e in es:
        a, b = flip(rng, e)
        n = shuffled(rng, own[e]) if len(own[e]) == 2 else [own[e][0], 0]
        o.append("%d %d %d %d" % (a + 1, b + 1, n[0], n[1]))
    return "\n".join(o) + "\n"

def trans_edges(d):
    own = {}
    for k, c in enumerate(d["cells"]):
        for e in edges_of(c):
            own.setdefault(e, []).append(k)
    return sorted(e for e, ks in own.items() if len(ks) == 2 and d["dom"][ks[0]] != d["dom"][ks[1]])

def w_mesh2d(d, rng, w, _):
    o = [str(len(d["pts"]))] + [w.pt(p) for p in d["pts"]]
    o += [str(len(d["cells"]))]
    o += ["%d " % dm + " ".join(str(x + 1) for x in shuffled(rng, c)) for c, dm in zip(d["cells"], d["dom"])]
    o += [str(len(d["bnd"]))]
    o += ["%d " % b["id"] + " ".join(str(x + 1) for x in shuffled(rng, b["pts"])) for b in d["bnd"]]
    return "\n".join(o) + "\n"
w_mesh = w_mesh2d

def w_quad(d, rng, w, _):
    o = [str(len(d["pts"]))] + [w.pt(p) for p in d["pts"]]
    o += [str(len(d["cells"]))] + [" ".join(map(str, c)) for c in d["cells"]]
    o += [str(len(d["bnd"]))] + ["%d %d" % tuple(sorted(b["pts"])) for b in d["bnd"]]
    return "\n".join(o) + "\n"

HEXF = ((0, 2, 6, 4), (1, 3, 7, 5), (0, 1, 3, 2), (4, 5, 7, 6), (0, 4, 5, 1), (2, 6, 7, 3))
def w_hex(d, rng, w, _):
    by = {frozenset(c[i] for i in f): [c[i] for i in f] for c in d["cells"] for f in HEXF}
    o = [str(len(d["pts"]))] + [w.pt(p) for p in d["pts"]]
    o += [str(len(d["cells"]))] + [" ".join(map(str, c)) for c in d["cells"]]
    o += [str(len(d["bnd"]))] + [" ".join(map(str, by[frozenset(b["pts"])])) for b in d["bnd"]]
    return "\n".join(o) + "\n"

def topo3(d, rng):
    """numbered edges and faces of a 3D document, in random order"""
    fc = {}
    for cf in d["cfaces"]:
        for f in cf:
            fc.setdefault(frozenset(f), f)
    faces = shuffled(rng, sorted(fc.values()))
    fno = {frozenset(f): k for k, f in enumerate(faces)}
    es = shuffled(rng, sorted({e for f in faces for e in edges_of(f)}))
    eno = {e: k for k, e in enumerate(es)}
    return faces, fno, es, eno

def ln(xs, b=0):
    return "%d  " % len(xs) + " ".join(str(x + b) for x in xs)

def w_msh(d, rng, w, _):
    faces, fno, es, eno = topo3(d, rng)
    o = ["header line %d" % k for k in range(16)]
    o += ["Vertices", " %d" % len(d["pts"])] + [w.pt(p) for p in d["pts"]]
    o += ["Volumes->faces", str(len(d["cells"]))] + [ln([fno[frozenset(f)] for f in cf], 1) for cf in d["cfaces"]]
    o += ["Volumes->Verticess", str(len(d["cells"]))] + [ln(c, 1) for c in d["cells"]]
    o += ["Faces->Edgess", str(len(faces))] + [ln([eno[e] for e in edges_of(f)], 1) for f in faces]
    o += ["Faces->Vertices", str(len(faces))] + [ln(f, 1) for f in faces]
    own = {}
    for k, cf in enumerate(d["cfaces"]):
        for f in cf:
            own.setdefault(fno[frozenset(f)], []).append(k + 1)
    o += ["Faces->Control volumes", str(len(faces))] + ["%d %d" % (own[k][0], own[k][1] if len(own[k]) > 1 else -1) for k in range(len(faces))]
    o += ["Edges", str(len(es))] + ["%d %d" % tuple(x + 1 for x in flip(rng, e)) for e in es]
    return "\n".join(o) + "\n"

def w_medit2d(d, rng, w, _):
    names = {3: "Triangles", 4: "Quadrilaterals", 5: "Pentagons", 6: "Hexagons"}
    o = ["MeshVersionFormatted 2", "Dimension 3", "Vertices", str(len(d["pts"]))] + [w.pt(p, " 0.0 %d" % rng.randrange(4)) for p in d["pts"]]
    for n in shuffled(rng, names):
        ix = [k for k, c in enumerate(d["cells"]) if len(c) == n]
        if ix:
            o += [names[n], str(len(ix))] + [" ".join(str(x + 1) for x in d["cells"][k]) + " %d" % d["dom"][k] for k in ix]
    o += ["Edges", str(len(d["bnd"]))] + ["%d %d " % tuple(x + 1 for x in flip(rng, tuple(b["pts"]))) + str(b["id"]) for b in d["bnd"]]
    return "\n".join(o + ["End"]) + "\n"

def w_medit3d(d, rng, w, _):
    faces, fno, es, eno = topo3(d, rng)
    o = ["MeshVersionFormatted 2", "Dimension 3", "Vertices", str(len(d["pts"]))] + [w.pt(p) for p in d["pts"]]
    o += ["Volumes->Faces", str(len(d["cells"]))] + [ln([fno[frozenset(f)] for f in cf]) for cf in d["cfaces"]]
    o += ["Volumes->Vertices", str(len(d["cells"]))] + [ln(c) for c in d["cells"]]
    o += ["Faces->Edges", str(len(faces))] + [ln([eno[e] for e in edges_of(f)]) for f in faces]
    o += ["Faces->Vertices", str(len(faces))] + [ln(f) for f in faces]
    o += ["Faces->Control volumes", str(len(d["bnd"]))] + ["%d %d" % (fno[frozenset(b["pts"])], b["id"]) for b in d["bnd"]]
    o += ["Edges", str(len(es))] + ["%d %d" % flip(rng, e) for e in es]
    return "\n".join(o) + "\n"

def poly_head(d, w, dim):
    o = ["**BeginMesh", "*Dimension %d" % dim, "*Version 2", "*Nodes %d" % len(d["pts"])]
    return o + ["%d" % k + w.pt(list(p) + [0] * (3 - dim)) for k, p in enumerate(d["pts"])]

def groups(pairs):
    g = {}
    for k, i in pairs:
        g.setdefault(i, []).append(k)
    return ["grp%d %d " % (i, i) + ln(ks) for i, ks in g.items()]

def w_poly2d(d, rng, w, _):
    es = shuffled(rng, sorted({e for c in d["cells"] for e in edges_of(c)}))
    eno = {e: k for k, e in enumerate(es)}
    o = poly_head(d, w, 2)
    o += ["*Edges->Nodes %d" % len(es)] + ["%d 2 %d %d" % ((k,) + flip(rng, e)) for k, e in enumerate(es)]
    fn = ["*Faces->Nodes %d" % len(d["cells"])] + ["%d " % k + ln(c) for k, c in enumerate(d["cells"])]
    fe = ["*Faces->Edges %d" % len(d["cells"])] + ["%d " % k + ln([eno[e] for e in edges_of(c)]) for k, c in enumerate(d["cells"])]
    g = groups([(eno[tuple(sorted(b["pts"]))], b["id"]) for b in d["bnd"]])
    eg = ["*Edges->Groups %d" % len(g)] + g
    for blk in shuffled(rng, [fn, fe, eg]):
        o += blk
    return "\n".join(o + ["**EndMesh"]) + "\n"

def w_poly3d(d, rng, w, _):
    faces, fno, es, eno = topo3(d, rng)
    o = poly_head(d, w, 3)
    o += ["*Edges->Nodes %d" % len(es)] + ["%d 2 %d %d" % ((k,) + flip(rng, e)) for k, e in enumerate(es)]
    blks = [["*Faces->Nodes %d" % len(faces)] + ["%d " % k + ln(f) for k, f in enumerate(faces)],
            ["*Faces->Edges %d" % len(faces)] + ["%d " % k + ln([eno[e] for e in edges_of(f)]) for k, f in enumerate(faces)],
            ["*Volumes->Nodes %d" % len(d["cells"])] + ["%d " % k + ln(c) for k, c in enumerate(d["cells"])],
            ["*Volumes->Edges %d" % len(d["cells"])] + ["%d " % k + ln(sorted({eno[e] for f in cf for e in edges_of(f)})) for k, cf in enumerate(d["cfaces"])],
            ["*Volumes->Faces %d" % len(d["cells"])] + ["%d " % k + ln([fno[frozenset(f)] for f in cf]) for k, cf in enumerate(d["cfaces"])]]
    g = groups([(fno[frozenset(b["pts"])], b["id"]) for b in d["bnd"]])
    blks.append(["*Faces->Groups %d" % len(g)] + g)
    for blk in shuffled(rng, blks):
        o += blk
    return "\n".join(o + ["**EndMesh"]) + "\n"

def malformed(fmt, txt, rng):
    """(what, text): inputs the format's reader must reject"""
    L = txt.split("\n")
    res = []
    if fmt == "typ1":
        res.append(("unknown block", txt.replace("vertices", "verticess", 1)))
        res.append(("short vertex line", "\n".join([L[0], L[1], "0.5"] + L[3:])))
        res.append(("truncated polygons", "\n".join(L[:2 + int(L[1]) + 2]) + "\n1 2\n"))
        k = L.index("all edges")
        e = L[k + 2].split()
        res.append(("degenerate edge", "\n".join(L[:k + 2] + [" ".join([e[0], e[0]] + e[2:])] + L[k + 3:])))
        res.append(("zero index", "\n".join(L[:k + 2] + [" ".join(["0"] + e[1:])] + L[k + 3:])))
        k = L.index("edges of the boundary")
        e = L[k + 2].split()
        res.append(("degenerate boundary edge", "\n".join(L[:k + 2] + [e[0] + " " + e[0]] + L[k + 3:])))
        res.append(("boundary edge not in the mesh", "\n".join(L[:k + 2] + ["1 %d" % (int(L[1]) + 3)] + L[k + 3:])))
    elif fmt == "msh":
        for kw in ("Vertices", "Volumes->faces", "Volumes->Verticess", "Faces->Edgess", "Faces->Vertices", "Faces->Control volumes", "Edges"):
            res.append(("keyword " + kw, "\n".join("Bogus" if l == kw else l for l in L)))
    elif fmt in ("medit2d", "medit3d"):
        res.append(("format", txt.replace("MeshVersionFormatted 2", "MeshVersionFormatted 1", 1)))
        res.append(("header", txt.replace("MeshVersionFormatted", "MeshVersion", 1)))
        res.append(("dimension", txt.replace("Dimension 3", "Dimension 4", 1)))
        for kw in (("Vertices", "Edges") if fmt == "medit2d" else ("Vertices", "Volumes->Faces", "Faces->Edges", "Faces->Control volumes", "Edges")):
            res.append(("keyword " + kw, "\n".join("Bogus" if l == kw else l for l in L)))
        if fmt == "medit2d":
            res.append(("truncated", txt.replace("End\n", "")))
            k = L.index("Edges")
            res.append(("boundary edge not in the mesh", "\n".join(L[:k + 2] + ["1 %d 1" % (len(L) + 3)] + L[k + 3:])))
    elif fmt in ("poly2d", "poly3d"):
        res.append(("header", txt.replace("**BeginMesh", "*BeginMesh", 1)))
        res.append(("dimension", txt.replace("*Dimension %s" % fmt[4], "*Dimension %d" % (5 - int(fmt[4])), 1)))
        res.append(("keyword", txt.replace("*Edges->Nodes", "*Edges->Bogus", 1)))
        res.append(("truncated", txt.replace("**EndMesh\n", "")))
    elif fmt in ("mesh2d", "quad", "hex", "mesh"):
        n = int(L[0]); c = int(L[n + 1]); k = n + c + 3
        if fmt == "mesh2d":
            res.append(("boundary edge not in the mesh", "\n".join(L[:k] + ["1 1 %d" % (n + 2)] + L[k + 1:])))
        if fmt == "mesh":
            res.append(("boundary face not in the mesh", "\n".join(L[:k] + ["1 1 2 %d" % (n + 2)] + L[k + 1:])))
        if fmt == "quad":
            res.append(("boundary edge not in the mesh", "\n".join(L[:k] + ["0 %d" % (n + 2)] + L[k + 1:])))
        if fmt == "hex":
            res.append(("boundary face not in the mesh", "\n".join(L[:k] + ["0 1 2 %d" % (n + 2)] + L[k + 1:])))
    res.append(("missing file", None))
    return res
