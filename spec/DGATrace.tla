-------------------------------- MODULE DGATrace -------------------------------
(* The complex, metric and local matrices of the discrete geometric approach
   against DGA.tla, on the tetrahedra of a mesh.
   Edges   edges of the mesh, their offsets, edges of faces and cells; edges that
           are not there are refused
   Cell    vectors, integrals, normals and matrices of a cell
   Patch   a problem on the whole mesh with an affine solution *)
EXTENDS MeshState, TraceLib, DGA
VARIABLES l, m
Init == l = 1 /\ m = [dim |-> 0]
e == Trace[l]
Is(ev) == l <= Len(Trace) /\ e.ev = ev /\ l' = l + 1
Mesh == /\ Is("Mesh") /\ IF WellFormed(e) THEN m' = e ELSE Reject(l, "malformed")
EdgesOf(c) == {{m.cells[c][EdgesT[x][1]], m.cells[c][EdgesT[x][2]]} : x \in 1..6}
AllEdges == UNION {EdgesOf(c) : c \in 1..NC(m)}
Sorted2(s) == Len(s) = 2 /\ s[1] < s[2]
Pairs(s, L) == [i \in DOMAIN L |-> <<s[L[i][1]], s[L[i][2]]>>]
Edges == /\ Is("Edges") /\ UNCHANGED m /\ m.dim = 3
         /\ Holds(l, [listed |-> /\ \A i \in DOMAIN e.list : Sorted2(e.list[i])
                                 /\ NoDup(e.list)
                                 /\ {Rng(x) : x \in Rng(e.list)} = AllEdges,
                      size |-> e.size = Len(e.list),
                      offsets |-> e.offsets = Iota(Len(e.list)),
                      cells |-> Len(e.cells) = NC(m) /\ \A c \in 1..NC(m) : e.cells[c] = Pairs(m.cells[c], EdgesT),
                      faces |-> Len(e.faces) = NF(m) /\ \A f \in 1..NF(m) : e.faces[f] = Pairs(m.faces[f], EdgesF),
                      cellids |-> Len(e.cellids) = NC(m) /\ \A c \in 1..NC(m) : Len(e.cellids[c]) = 6 /\ \A i \in 1..6 : e.list[e.cellids[c][i] + 1] = Pairs(m.cells[c], EdgesT)[i],
                      faceids |-> Len(e.faceids) = NF(m) /\ \A f \in 1..NF(m) : Len(e.faceids[f]) = 3 /\ \A i \in 1..3 : e.list[e.faceids[f][i] + 1] = Pairs(m.faces[f], EdgesF)[i],
                      refused |-> \A i \in DOMAIN e.absent : e.refused[i] <=> (Rng(e.absent[i]) \notin AllEdges)])
(* the local face i of a cell is the one without its i-th vertex *)
LocalFace(c, i) == m.faces[m.cf[c][i] + 1] = [j \in 1..3 |-> m.cells[c][FacesT[i][j]]]
Dot3s(E, vs) == [i \in DOMAIN vs |-> E[1] * vs[i][1] + E[2] * vs[i][2] + E[3] * vs[i][3]]
Scaled(k, M) == [a \in DOMAIN M |-> [b \in DOMAIN M[a] |-> k * M[a][b]]]
Ident == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Cell == /\ Is("Cell") /\ UNCHANGED m /\ m.dim = 3
        /\ LET c == e.i + 1
               P == TLCEval([v \in 1..4 |-> Pt(m, m.cells[c][v])])
               pev == TLCEval([x \in 1..6 |-> Pev(P, x)])   pav == TLCEval([x \in 1..4 |-> Pav2(P, x)])
               dev == TLCEval([x \in 1..4 |-> Dev12(P, x)]) dav == TLCEval([x \in 1..6 |-> Dav24(P, x)])
               out == [f \in 1..4 |-> Sgn(Dot3(Out12(P, f), pav[f]))]
           IN Holds(l, [
                faces |-> \A i \in 1..4 : LocalFace(c, i),
                volume |-> e.svol = Det(P) /\ e.uvol = Abs(Det(P)),
                primalEdges |-> e.pev = pev,
                edgesOfCells |-> e.pev1 = pev,
                edgesOfFaces |-> \A f \in 1..4 : e.pevf[f] = [x \in 1..3 |-> PevF(Face(P, f), x)],
                primalFaces |-> e.pav = pav,
                dualFaces |-> e.dav = dav,
                dualEdges |-> e.dev = dev,
                dualEdgesOfFaces |-> \A f \in 1..4 : e.devf[f] = [x \in 1..3 |-> DevF6(P, f, x)],
                foreignFace |-> e.foreign,
                integrals |-> /\ e.onpe = Dot3s(e.E, pev) /\ e.onpf = Dot3s(e.E, pav) /\ e.onde = Dot3s(e.E, dev) /\ e.ondf = Dot3s(e.E, dav)
                              /\ \A f \in 1..4 : e.onpef[f] = [x \in 1..3 |-> Dot3(e.E, PevF(Face(P, f), x))],
                normals |-> e.normals = [f \in 1..4 |-> [k \in 1..3 |-> out[f] * pav[f][k]]],
                faceNormals |-> \A f \in 1..4 : LET Q == Face(P, f) IN \A x \in 1..3 :
                    LET n == Cross3(PevF(Q, x), Normal2(Q))  s == IF Dot3(n, In6(Q, x)) < 0 THEN 1 ELSE -1 IN e.fnormals[f][x] = [k \in 1..3 |-> s * n[k]],
                grad |-> e.grad = GradM,
                curl |-> e.curl = CurlM,
                edgeMatrix |-> e.me = Scaled(e.c, EdgeMatrix(P, Ident)),
                edgeMatrixTensor |-> e.met = EdgeMatrix(P, e.K),
                faceMatrix |-> e.mf = Scaled(e.c, FaceMatrix(P, Ident)),
                faceMatrixTensor |-> e.mft = FaceMatrix(P, e.K)])
Patch == /\ Is("Patch") /\ UNCHANGED m /\ m.dim = 3
         /\ Holds(l, [values |-> Len(e.val) = NP(m) /\ \A i \in 1..NP(m) : e.val[i] = Dot3(e.form, m.pts[i])])
End == Is("End") /\ UNCHANGED m
Next == Mesh \/ Edges \/ Cell \/ Patch \/ End
Spec == Init /\ [][Next]_<<l, m>>
View == l
=============================================================================
