------------------------------- MODULE Output --------------------------------
(* Output of meshes and fields.

   1. A silo database as a state machine: which file is open, what each file
      holds.  What is read back from a file (with the silo library itself) is
      exactly what was put in it since it was created.
   2. Meshes for post-processing and their gmsh form: they cover the cells.
   3. Text files: netgen mesh, matlab plot, aspect ratios, sparse matrices. *)
EXTENDS Splitting

(* ------------------------- 1. databases ------------------------- *)
Val(k, c, i) == (((k * 37) + (c * 53) + (i * 11)) % 201) - 100
NoFile == [ok |-> FALSE, ents |-> <<>>]
Fresh == [open |-> 0, f |-> <<NoFile, NoFile>>]
Step(st, op) ==
    CASE op.op = "create" -> [open |-> op.file, f |-> [st.f EXCEPT ![op.file] = [ok |-> TRUE, ents |-> <<>>]]]
      [] op.op = "open" -> [st EXCEPT !.open = IF st.f[op.file].ok THEN op.file ELSE 0]
      [] op.op = "close" -> [st EXCEPT !.open = 0]
      [] OTHER -> IF st.open = 0 THEN st ELSE [st EXCEPT !.f[st.open].ents = Append(@, op)]
Ret(st, op) == CASE op.op = "create" -> TRUE [] op.op = "close" -> TRUE
                 [] op.op = "open" -> st.f[op.file].ok
                 [] OTHER -> st.open # 0

(* what an operation puts in the file *)
Tails(form) == CASE form = "complex" -> <<"_real", "_imag">> [] form = "mat2" -> <<"_x", "_y">>
                    [] form = "mat3" -> <<"_x", "_y", "_z">> [] OTHER -> <<"">>
Values(k, c, n) == [i \in 1..n |-> Val(k, c, i - 1)]
Vars(m, op) == LET s == Tails(op.form)  n == IF op.cent = "zone" THEN NC(m) ELSE NP(m)
               IN {[name |-> op.name \o s[j], mesh |-> op.mesh, cent |-> op.cent, vals |-> Values(op.k, j - 1, n)] : j \in DOMAIN s}
ExprOf(op) == IF op.form = "mat2" THEN "{" \o op.name \o "_x, " \o op.name \o "_y}"
              ELSE "{" \o op.name \o "_x, " \o op.name \o "_y, " \o op.name \o "_z}"
OfOp(ents, o) == {k \in DOMAIN ents : ents[k].op = o}
ExpVars(m, ents) == UNION {Vars(m, ents[k]) : k \in OfOp(ents, "var")}
ExpPtVars(ents) == {[name |-> ents[k].name, mesh |-> ents[k].mesh,
                     vals |-> [j \in 1..ents[k].nv |-> Values(ents[k].k, j - 1, ents[k].n)]] : k \in OfOp(ents, "pvar")}
ExpDefs(ents) == {[name |-> ents[k].name, type |-> "scalar", def |-> ents[k].def] : k \in OfOp(ents, "expr")}
                 \cup {[name |-> ents[k].name, type |-> "vector", def |-> ExprOf(ents[k])] : k \in {j \in OfOp(ents, "var") : ents[j].form \in {"mat2", "mat3"}}}
ExpPtMeshes(ents) == {[name |-> ents[k].name, pts |-> [i \in 1..ents[k].n |-> <<Val(ents[k].k, 0, i - 1), Val(ents[k].k, 1, i - 1)>>]] : k \in OfOp(ents, "pts")}
ExpMeshes(ents) == {ents[k].name : k \in OfOp(ents, "mesh")}

(* a zone of the file is the cell c of the mesh m *)
SameSet(z, q) == NoDup(z) /\ Rng(z) = Rng(q)
AlongAxis(m, a, b) == LET p == Pt(m, a)  q == Pt(m, b) IN Cardinality({k \in 1..3 : p[k] # q[k]}) = 1
(* the eight nodes of a hexahedron: bottom cycle, top cycle; its edges are the edges of the faces of the cell *)
HexEdges(z) == {{z[1], z[2]}, {z[2], z[3]}, {z[3], z[4]}, {z[4], z[1]}, {z[5], z[6]}, {z[6], z[7]}, {z[7], z[8]}, {z[8], z[5]},
                {z[1], z[5]}, {z[2], z[6]}, {z[3], z[7]}, {z[4], z[8]}}
CellEdges(m, c) == UNION {EdgesOfFace(m, m.cf[c][k] + 1) : k \in DOMAIN m.cf[c]}
ZoneIs(m, c, z) ==
    /\ SameSet(z.nodes, m.cells[c])
    /\ IF m.dim = 2 THEN CycEdges(z.nodes) = CycEdges(Cycle(m, c)) ELSE CellEdges(m, c) = (IF Len(z.nodes) = 8 THEN HexEdges(z.nodes) ELSE {{a, b} : a \in Rng(z.nodes), b \in Rng(z.nodes)} \ {{a} : a \in Rng(z.nodes)})
    /\ m.dim = 3 => z.shape = (IF Len(z.nodes) = 4 THEN "tet" ELSE "hex")
(* polyhedral zones: faces by their nodes; a face is listed with the sign of its
   orientation (nodes counterclockwise seen from outside) *)
NewellOf(m, q) == AreaVec(m, q)
CentreSide(m, c, q) == LET nn == NewellOf(m, q)  o == Pt(m, q[1])
                       IN SumSeq([k \in DOMAIN m.cells[c] |-> Sgn(Dot3(nn, Sub3(Pt(m, m.cells[c][k]), o)))])
PolyIs(m, c, fs, z) ==
    /\ Len(z) = Len(m.cf[c])
    /\ {Rng(fs[z[k][1] + 1]) : k \in DOMAIN z} = CellFaceSets(m, c)
    /\ \A k \in DOMAIN z : LET s == CentreSide(m, c, fs[z[k][1] + 1]) IN (z[k][2] = 1) = (s < 0)
PolyFaces(m, fs) == /\ Len(fs) = NF(m)
                    /\ \A f \in DOMAIN fs : \E g \in DOMAIN m.faces : SameSet(fs[f], m.faces[g]) /\ CycEdges(fs[f]) = CycEdges(m.faces[g])
MeshIs(m, u) ==
    /\ u.nd = m.dim /\ u.pts = m.pts /\ u.nz = NC(m)
    /\ IF m.dim = 3 /\ m.kind = "gen"
       THEN u.poly /\ PolyFaces(m, u.faces) /\ Len(u.cells) = NC(m) /\ \A c \in 1..NC(m) : PolyIs(m, c, u.faces, u.cells[c])
       ELSE ~u.poly /\ Len(u.zones) = NC(m) /\ \A c \in 1..NC(m) : ZoneIs(m, c, u.zones[c])
ContentClauses(m, st, e) ==
    LET ents == st.f[e.file].ents IN
    [ exists |-> e.ok = st.f[e.file].ok,
      meshNames |-> {u.name : u \in Rng(e.ucd)} = ExpMeshes(ents) /\ Len(e.ucd) = Cardinality(ExpMeshes(ents)),
      meshes |-> \A u \in Rng(e.ucd) : MeshIs(m, u),
      pointMeshes |-> Rng(e.ptm) = ExpPtMeshes(ents),
      variables |-> Rng(e.vars) = ExpVars(m, ents) /\ Len(e.vars) = Cardinality(ExpVars(m, ents)),
      pointVariables |-> Rng(e.pvars) = ExpPtVars(ents),
      expressions |-> Rng(e.defs) = ExpDefs(ents) ]

(* ------------------------- 2. post-processing meshes ------------------------- *)
Coeffs(A, B) == \A s \in Rng(A) \cup Rng(B) : Coeff(A, s) = Coeff(B, s)
TriPts(p, t) == [k \in 1..3 |-> p[t[k] + 1]]
(* triangles of point numbers cover the cells, and each is inside one cell *)
Cover2(m, pts, tris) ==
    LET V == TLCEval(Rng(m.pts))
        A == TLCEval(FlattenSeq([k \in DOMAIN tris |-> IF Tri2(TriPts(pts, tris[k])) = 0 THEN <<>> ELSE CycCut(V, Orient(TriPts(pts, tris[k])))]))
        B == TLCEval(FlattenSeq([c \in 1..NC(m) |-> CycCut(V, Poly2(m, c, 1))]))
    IN Coeffs(A, B) /\ \A t \in Rng(tris) : \E c \in 1..NC(m) : Rng(t) \subseteq Rng(m.cells[c])
(* x.face[f] (x.cell[c]): number of the point put in the middle of a face (cell), -1 if none *)
TetsOf(m, x, c) ==
    IF Len(m.cells[c]) = 4 THEN {Rng(m.cells[c])}
    ELSE UNION {LET f == m.cf[c][k] + 1 IN
                IF Len(m.faces[f]) = 3 THEN {Rng(m.faces[f]) \cup {x.cell[c]}}
                ELSE {d \cup {x.face[f], x.cell[c]} : d \in EdgesOfFace(m, f)} : k \in DOMAIN m.cf[c]}
PointsOf(m, x, c) ==
    Rng(m.cells[c]) \cup (IF m.dim < 3 \/ Len(m.cells[c]) = 4 THEN {}
                          ELSE {x.cell[c]} \cup {x.face[m.cf[c][k] + 1] : k \in {j \in DOMAIN m.cf[c] : Len(m.faces[m.cf[c][j] + 1]) > 3}})
Extra(m, x) ==
    IF m.dim < 3 THEN x.np = NP(m)
    ELSE /\ \A f \in 1..NF(m) : (x.face[f] >= NP(m)) = (Len(m.faces[f]) > 3)
         /\ \A c \in 1..NC(m) : (x.cell[c] >= NP(m)) = (Len(m.cells[c]) > 4)
         /\ x.np = NP(m) + Cardinality({f \in 1..NF(m) : Len(m.faces[f]) > 3}) + Cardinality({c \in 1..NC(m) : Len(m.cells[c]) > 4})
PostClauses(m, x) ==
    [ points |-> x.same /\ Extra(m, x),
      pieces |-> CASE m.dim = 1 -> [k \in DOMAIN x.el |-> Rng(x.el[k])] = [c \in 1..NC(m) |-> Rng(m.cells[c])]
                   [] m.dim = 2 -> Cover2(m, m.pts, x.el)
                   [] m.dim = 3 -> LET all == UNION {TetsOf(m, x, c) : c \in 1..NC(m)} IN
                                   {Rng(t) : t \in Rng(x.el)} = all /\ Len(x.el) = Cardinality(all) /\ \A t \in Rng(x.el) : NoDup(t),
      cellNodes |-> Len(x.nodes) = NC(m) /\ \A c \in 1..NC(m) : SameSet(x.nodes[c], SetToSeq(PointsOf(m, x, c))),
      edges |-> x.edges = m.edges ]

(* gmsh form of a post-processing mesh *)
Elements(g) == g.vert \o g.edge \o g.tri \o g.quad \o g.tet \o g.hex
GmshCommon(m, g, np) ==
    [ nodes |-> g.nn = np /\ g.same /\ [k \in DOMAIN g.vert |-> g.vert[k].n] = [k \in 1..np |-> <<k - 1>>],
      numbering |-> {x.i : x \in Rng(Elements(g))} = 1..Len(Elements(g)),
      edges |-> {Rng(m.edges[k]) : k \in DOMAIN m.edges} \subseteq {Rng(x.n) : x \in Rng(g.edge)} ]
GmshPostClauses(m, x, g) ==
    GmshCommon(m, g, x.np) @@
    [ pieces |-> CASE m.dim = 1 -> TRUE
                   [] m.dim = 2 -> [k \in DOMAIN g.tri |-> Rng(g.tri[k].n)] = [k \in DOMAIN x.el |-> Rng(x.el[k])]
                   [] m.dim = 3 -> [k \in DOMAIN g.tet |-> Rng(g.tet[k].n)] = [k \in DOMAIN x.el |-> Rng(x.el[k])],
      oriented |-> g.pos,
      only |-> Len(g.quad) = 0 /\ Len(g.hex) = 0 /\ (m.dim # 2 => Len(g.tri) = 0) /\ (m.dim # 3 => Len(g.tet) = 0) ]
(* gmsh form of a mesh: cells that gmsh has (triangles, quadrangles, tetrahedra, hexahedra), polygons in triangles *)
CellHex(m, c) == Len(m.cells[c]) = 8 /\ Len(m.cf[c]) = 6 /\ \A k \in 1..6 : Len(m.faces[m.cf[c][k] + 1]) = 4
CycChain(m, q) == CycCut(Rng(m.pts), [k \in DOMAIN q |-> Pt(m, q[k])])
GmshMeshClauses(m, g) ==
    GmshCommon(m, g, NP(m)) @@
    [ pieces |-> CASE m.dim = 1 -> {Rng(x.n) : x \in Rng(g.edge)} = {Rng(m.cells[c]) : c \in 1..NC(m)} /\ Len(g.edge) = NC(m)
                   [] m.dim = 2 ->
                        LET A == TLCEval(FlattenSeq([k \in DOMAIN g.tri |-> LET t == TriPts(m.pts, g.tri[k].n) IN IF Tri2(t) = 0 THEN <<>> ELSE CycCut(Rng(m.pts), Orient(t))]))
                            Q == TLCEval(FlattenSeq([k \in DOMAIN g.quad |-> CycChain(m, IF CycArea2(m, g.quad[k].n) >= 0 THEN g.quad[k].n ELSE Reverse(g.quad[k].n))]))
                            B == TLCEval(FlattenSeq([c \in 1..NC(m) |-> CycCut(Rng(m.pts), Poly2(m, c, 1))]))
                        IN Coeffs(A \o Q, B) /\ \A x \in Rng(g.tri) \cup Rng(g.quad) : \E c \in 1..NC(m) : Rng(x.n) \subseteq Rng(m.cells[c])
                   [] m.dim = 3 ->
                        LET tets == {Rng(m.cells[c]) : c \in {j \in 1..NC(m) : Len(m.cells[j]) = 4}}
                            hexs == {c \in 1..NC(m) : CellHex(m, c)}
                        IN /\ {Rng(x.n) : x \in Rng(g.tet)} = tets /\ Len(g.tet) = Cardinality(tets)
                           /\ Len(g.hex) = Cardinality(hexs)
                           /\ \A c \in hexs : \E x \in Rng(g.hex) : Rng(x.n) = Rng(m.cells[c]) /\ HexEdges(x.n) = CellEdges(m, c),
      oriented |-> g.pos ]

(* ------------------------- 3. text files ------------------------- *)
AspectClauses(m, e) ==
    [ rows |-> Len(e.rows) = NC(m),
      values |-> \A c \in DOMAIN e.rows : e.rows[c] = e.want[c] ]
MatlabClauses(m, e) ==
    LET lines == FlattenSeq([c \in 1..NC(m) |-> [k \in DOMAIN m.cf[c] |-> LET f == m.cf[c][k] + 1 IN
                    [p |-> {Pt(m, i) : i \in FaceSet(m, f)}, col |-> IF m.isb[f] THEN "r" ELSE "g"]]])
        texts == FlattenSeq([c \in 1..NC(m) |-> FlattenSeq([k \in DOMAIN m.cf[c] |-> LET f == m.cf[c][k] + 1 IN
                    [j \in 1..2 |-> <<Pt(m, m.faces[f][j]), m.faces[f][j]>>]])])
    IN [ lines |-> [k \in DOMAIN e.lines |-> [p |-> {e.lines[k][1], e.lines[k][2]}, col |-> e.lines[k][3]]] = lines,
         texts |-> Rng(e.texts) = Rng(texts),
         cells |-> e.cells = [c \in 1..NC(m) |-> c - 1] ]
SameLoaded(m, n) ==
    [ points |-> n.exact /\ m.pts = n.pts,
      cells |-> {Rng(c) : c \in Rng(m.cells)} = {Rng(c) : c \in Rng(n.cells)} /\ NC(m) = NC(n),
      faces |-> {FaceSet(m, f) : f \in 1..NF(m)} = {FaceSet(n, f) : f \in 1..NF(n)},
      boundary |-> {<<FaceSet(m, f), m.bid[f]>> : f \in {j \in 1..NF(m) : m.isb[j] /\ ~m.bint[j]}}
                   = {<<FaceSet(n, f), n.bid[f]>> : f \in {j \in 1..NF(n) : n.isb[j]}} ]
(* conversions of single elements and of values to gmsh *)
ConvClauses(e) ==
    [ edge |-> e.edge = [n |-> e.edgeIn, i |-> 11], triangle |-> e.tri = [n |-> e.triIn, i |-> 12],
      quadrangle |-> e.quad = <<>> \/ CycEdges(e.quad) = CycEdges(<<e.quadIn[1], e.quadIn[2], e.quadIn[4], e.quadIn[3]>>),
      hexahedron |-> e.hex = <<>> \/ e.hex = <<e.hexIn[1], e.hexIn[2], e.hexIn[4], e.hexIn[3], e.hexIn[5], e.hexIn[6], e.hexIn[8], e.hexIn[7]>>,
      tetra |-> Rng(e.tet) = Rng(e.tetIn) /\ NoDup(e.tet),
      scalar |-> e.scalar = <<e.v[1], 0, 0>>,
      vector |-> e.vec2 = <<e.v[1], e.v[2], 0>> /\ e.vec3 = <<e.v[1], e.v[2], e.v[3]>>,
      (* by rows or by columns, the same in both dimensions *)
      tensor |-> \/ e.mat3 = [k \in 1..9 |-> e.v[((k - 1) % 3) * 3 + ((k - 1) \div 3) + 1]] /\ e.mat2 = <<e.v[1], e.v[4], 0, e.v[2], e.v[5], 0, 0, 0, 0>>
                 \/ e.mat3 = [k \in 1..9 |-> e.v[k]] /\ e.mat2 = <<e.v[1], e.v[2], 0, e.v[4], e.v[5], 0, 0, 0, 0>> ]
SparseClauses(e) ==
    LET want == {<<t[1], t[2], t[3]>> : t \in Rng(e.in)} IN
    [ file |-> Rng(e.file) = want /\ Len(e.file) = Cardinality(want),
      header |-> e.header = <<e.rows, e.cols, Cardinality(want)>> /\ Rng(e.hfile) = want,
      raw |-> e.n = e.rows /\ e.nnz = Cardinality(want) /\ Len(e.ia) = e.cols + 1
              /\ {<<e.ja[k] - e.base, CHOOSE j \in 0..(e.cols - 1) : e.ia[j + 1] - e.base <= k - 1 /\ k - 1 < e.ia[j + 2] - e.base, e.data[k]>> : k \in 1..e.nnz} = want,
      restored |-> Rng(e.after) = want ]
=============================================================================
