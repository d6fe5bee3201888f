---------------------------------- MODULE DGA ---------------------------------
(* The discrete geometric approach on a tetrahedron with integer vertices
   P[1..4] (the order of the numbers of its points). Primal edges go from the
   lower to the higher vertex, primal faces are oriented by the right hand rule on
   their increasing vertices. The dual of an edge is the part of the barycentric
   boundary around it, oriented as the edge; the dual of a face goes from or to
   the barycentre, oriented as the face. All lengths are cleared of denominators
   (2 for areas, 12 for dual edges, 24 for dual areas). *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
LOCAL S3(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
LOCAL X3(u, v) == << u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1] >>
LOCAL D3(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
LOCAL C3(k, u) == <<k * u[1], k * u[2], k * u[3]>>
LOCAL A3(u, v) == <<u[1] + v[1], u[2] + v[2], u[3] + v[3]>>
LOCAL Sg(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
LOCAL Plus(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
LOCAL VPlus(s) == FoldLeft(LAMBDA a, x : A3(a, x), <<0, 0, 0>>, s)
MulM(M, u) == <<D3(M[1], u), D3(M[2], u), D3(M[3], u)>>
EdgesT == <<<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 3>>, <<2, 4>>, <<3, 4>>>>
FacesT == <<<<2, 3, 4>>, <<1, 3, 4>>, <<1, 2, 4>>, <<1, 2, 3>>>>      \* the i-th does not have vertex i
EdgesF == <<<<1, 2>>, <<1, 3>>, <<2, 3>>>>
Det(P) == D3(S3(P[2], P[1]), X3(S3(P[3], P[1]), S3(P[4], P[1])))     \* 6 volumes
(* ---- primal ---- *)
Pev(P, e) == S3(P[EdgesT[e][2]], P[EdgesT[e][1]])
Normal2(Q) == X3(S3(Q[2], Q[1]), S3(Q[3], Q[1]))
Face(P, f) == [j \in 1..3 |-> P[FacesT[f][j]]]
Pav2(P, f) == Normal2(Face(P, f))
(* ---- dual ---- *)
Sum4(P) == VPlus(P)
Out12(P, f) == S3(C3(4, VPlus(Face(P, f))), C3(3, Sum4(P)))          \* barycentre of the cell to that of the face
Dev12(P, f) == C3(Sg(D3(Out12(P, f), Pav2(P, f))), Out12(P, f))
Others(e) == SetToSortSeq(1..4 \ {EdgesT[e][1], EdgesT[e][2]}, LAMBDA a, b : a < b)
Quad24(P, e) == X3(S3(Sum4(P), C3(2, A3(P[EdgesT[e][1]], P[EdgesT[e][2]]))), S3(VPlus(Face(P, Others(e)[1])), VPlus(Face(P, Others(e)[2]))))
Dav24(P, e) == C3(Sg(D3(Quad24(P, e), Pev(P, e))), Quad24(P, e))
(* the dual of an edge of a face, seen in the face: from the edge to the
   barycentre of the face or back; edge x dual edge points out of the cell *)
In6(Q, e) == S3(C3(2, VPlus(Q)), C3(3, A3(Q[EdgesF[e][1]], Q[EdgesF[e][2]])))
PevF(Q, e) == S3(Q[EdgesF[e][2]], Q[EdgesF[e][1]])
DevF6(P, f, e) == LET Q == Face(P, f) IN C3(Sg(D3(X3(PevF(Q, e), In6(Q, e)), Out12(P, f))), In6(Q, e))
(* ---- incidences ---- *)
GradM == [e \in 1..6 |-> [v \in 1..4 |-> IF v = EdgesT[e][2] THEN 1 ELSE IF v = EdgesT[e][1] THEN -1 ELSE 0]]
CurlM == [f \in 1..4 |-> [e \in 1..6 |-> LET q == FacesT[f]  x == EdgesT[e] IN
    IF x = <<q[1], q[2]>> \/ x = <<q[2], q[3]>> THEN 1 ELSE IF x = <<q[1], q[3]>> THEN -1 ELSE 0]]
(* ---- local matrices: each vertex has a quarter of the volume, and there the
   field given by the unknowns of the edges (faces) that meet in the vertex ---- *)
Inw2(P, w) == LET n == Pav2(P, w) IN C3(Sg(D3(n, S3(P[w], Face(P, w)[1]))), n)   \* 6 volumes times the gradient at w
Orient(P, w) == Sg(D3(Pav2(P, w), S3(P[w], Face(P, w)[1])))
(* unit circulation on edge e: the field at its vertex v, times 6 volumes *)
EdgeField(P, e, v) == IF v = EdgesT[e][1] THEN Inw2(P, EdgesT[e][2]) ELSE IF v = EdgesT[e][2] THEN C3(-1, Inw2(P, EdgesT[e][1])) ELSE <<0, 0, 0>>
(* 24 |det| times the edge matrix *)
EdgeMatrix(P, K) == [a \in 1..6 |-> [b \in 1..6 |-> Plus([v \in 1..4 |-> D3(EdgeField(P, a, v), MulM(K, EdgeField(P, b, v)))])]]
(* unit flux through face f: the field at its vertex v, times 3 volumes *)
FaceField(P, f, v) == IF v = f THEN <<0, 0, 0>> ELSE C3(Orient(P, f), S3(P[f], P[v]))
(* 6 |det| times the face matrix *)
FaceMatrix(P, K) == [a \in 1..4 |-> [b \in 1..4 |-> Plus([v \in 1..4 |-> D3(FaceField(P, a, v), MulM(K, FaceField(P, b, v)))])]]
(* ---- geometric identities ---- *)
LOCAL Out(u, v) == [i \in 1..3 |-> [j \in 1..3 |-> u[i] * v[j]]]
LOCAL MSum(s) == [i \in 1..3 |-> [j \in 1..3 |-> Plus([k \in DOMAIN s |-> s[k][i][j]])]]
Diagonal(x) == [i \in 1..3 |-> [j \in 1..3 |-> IF i = j THEN x ELSE 0]]
DualityOfEdges(P) == MSum([e \in 1..6 |-> Out(Dav24(P, e), Pev(P, e))]) = Diagonal(4 * (IF Det(P) < 0 THEN -Det(P) ELSE Det(P)))
DualityOfFaces(P) == MSum([f \in 1..4 |-> Out(Dev12(P, f), Pav2(P, f))]) = Diagonal(4 * (IF Det(P) < 0 THEN -Det(P) ELSE Det(P)))
(* constant fields give the fluxes and circulations on the dual *)
ExactEdges(P, K, E) == LET M == EdgeMatrix(P, K)  d == IF Det(P) < 0 THEN -Det(P) ELSE Det(P) IN
    \A a \in 1..6 : Plus([b \in 1..6 |-> M[a][b] * D3(E, Pev(P, b))]) = d * D3(Dav24(P, a), MulM(K, E))
ExactFaces(P, K, B) == LET M == FaceMatrix(P, K)  d == IF Det(P) < 0 THEN -Det(P) ELSE Det(P) IN
    \A a \in 1..4 : Plus([b \in 1..4 |-> M[a][b] * D3(B, Pav2(P, b))]) = d * D3(Dev12(P, a), MulM(K, B))
CurlOfGrad == \A f \in 1..4 : \A v \in 1..4 : Plus([e \in 1..6 |-> CurlM[f][e] * GradM[e][v]]) = 0
(* twice the circulation of x -> R x (R any matrix) around a face is its curl
   through twice the area vector *)
Stokes(P, R) == LET circ2 == [e \in 1..6 |-> D3(MulM(R, A3(P[EdgesT[e][1]], P[EdgesT[e][2]])), Pev(P, e))]
                    curl == <<R[3][2] - R[2][3], R[1][3] - R[3][1], R[2][1] - R[1][2]>> IN
    \A f \in 1..4 : Plus([e \in 1..6 |-> CurlM[f][e] * circ2[e]]) = D3(curl, Pav2(P, f))
=============================================================================
