---------------------------------- MODULE VEM ---------------------------------
(* The virtual element method of degree k in two dimensions.

   Unknowns of the mesh: one per point (the number of the point), then k - 1 per
   face. The unknowns of a cell are listed along its boundary: a vertex, the
   unknowns inside the edge that leaves it, the next vertex, ... The unknowns of
   an edge are the values at its k + 1 Gauss-Lobatto nodes; those inside a cell
   are k(k-1)/2 moments.

   A function v of the local space is a polynomial of degree k on the edges and
   has a laplacian of degree k - 2; for a polynomial p
        Int grad p . grad v = Int_boundary v dp/dn - Int v laplacian(p)
   is a sum of unknowns of v, with the Gauss-Lobatto rule on the edges. *)
EXTENDS MeshState
NInner(k) == (k * (k - 1)) \div 2
NUnknowns(nf, k) == nf * k + NInner(k)
PolyDim(k) == ((k + 1) * (k + 2)) \div 2
(* nodes in the interior of [0, 100000] and weights whose sum is 180 (degrees up
   to 4); the rule of degree 5 has irrational weights *)
Nodes(k) == CASE k = 1 -> <<>> [] k = 2 -> <<50000>> [] k = 3 -> <<27639, 72361>>
              [] k = 4 -> <<17267, 50000, 82733>> [] k = 5 -> <<11747, 35738, 64262, 88253>>
Weights(k) == CASE k = 1 -> <<>> [] k = 2 -> <<120>> [] k = 3 -> <<75, 75>> [] k = 4 -> <<49, 64, 49>>
EndWeight(k) == 180 \div (k * (k + 1))
(* ---- numbering: D = [k, cells, faces, bnd], all numbers from 0 ---- *)
Total(m, k) == NP(m) + NF(m) * (k - 1)
FaceNumbered(m, D, f) == LET s == D.faces[f] IN Len(s) = D.k + 1 /\ s[1] = m.faces[f][1] /\ s[D.k + 1] = m.faces[f][2]
InFace(D, f) == SubSeq(D.faces[f], 2, D.k)
Corner(D, c, i) == LET n == Len(D.cells[c]) \div D.k IN D.cells[c][((i - 1) % n) * D.k + 1]
CellNumbered(m, D, c) ==
    LET n == Len(m.cf[c]) IN
    /\ Len(D.cells[c]) = n * D.k
    /\ {Corner(D, c, i) : i \in 1..n} = Rng(m.cells[c])
    /\ \A i \in 1..n : LET a == Corner(D, c, i)  b == Corner(D, c, i + 1)
                           F == {f \in {g + 1 : g \in Rng(m.cf[c])} : FaceSet(m, f) = {a, b}} IN
        Cardinality(F) = 1 /\ \A f \in F :
            SubSeq(D.cells[c], (i - 1) * D.k + 1, i * D.k) = SubSeq(IF m.faces[f][1] = a THEN D.faces[f] ELSE Reverse(D.faces[f]), 1, D.k)
OuterFace(m, f) == m.isb[f] /\ ~m.bint[f]
Shaped(m, D) == Len(D.faces) = NF(m) /\ \A f \in 1..NF(m) : Len(D.faces[f]) = D.k + 1
Numbering(m, D) ==
    [ cells    |-> Shaped(m, D) /\ Len(D.cells) = NC(m) /\ \A c \in 1..NC(m) : CellNumbered(m, D, c),
      faces    |-> Shaped(m, D) /\ \A f \in 1..NF(m) : FaceNumbered(m, D, f),
      distinct |-> Shaped(m, D) /\ LET all == FlattenSeq([f \in 1..NF(m) |-> InFace(D, f)]) IN NoDup(all) /\ Rng(all) = NP(m)..(Total(m, D.k) - 1),
      boundary |-> Len(D.bnd) = NF(m) /\ \A f \in 1..NF(m) :
                       IF OuterFace(m, f) THEN D.bnd[f] \in {D.faces[f], Reverse(D.faces[f])} ELSE D.bnd[f] = <<>> ]
(* ---- where the unknowns on the boundary of a cell are: along the cycle of its
   corners, in units of 1/100000 ---- *)
Near(x, a, b, t) == Abs(x - (a * 100000 + (b - a) * t)) <= 3 + Abs(b - a)
Placed(m, D, c, xs, ys) ==
    LET n == Len(m.cf[c])  N == Nodes(D.k) IN
    /\ Len(xs) = n * D.k /\ Len(ys) = n * D.k
    /\ \A i \in 1..n : LET a == Pt(m, Corner(D, c, i))  b == Pt(m, Corner(D, c, i + 1)) IN
        \A j \in 0..(D.k - 1) : LET t == IF j = 0 THEN 0 ELSE N[j]  r == (i - 1) * D.k + j + 1 IN
            Near(xs[r], a[1], b[1], t) /\ Near(ys[r], a[2], b[2], t)
(* ---- rows of the stiffness applied to L^a, L an affine form ---- *)
Aff(form, p) == form[1] * p[1] + form[2] * p[2] + form[3]
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
Rot(a, b) == <<b[2] - a[2], a[1] - b[1]>>                       \* outward, when the corners are counterclockwise
Flux(form, a, b) == form[1] * Rot(a, b)[1] + form[2] * Rot(a, b)[2]
Turn(m, D, c) == LET n == Len(m.cf[c])  P == [i \in 1..n |-> Pt(m, Corner(D, c, i))] IN
                 IF SumSeq([i \in 1..n |-> Cross2(P[i], P[(i % n) + 1])]) > 0 THEN 1 ELSE -1
CornerRows(m, D, c, form, a) ==
    LET n == Len(m.cf[c])  P == [i \in 1..n |-> Pt(m, Corner(D, c, i))]  s == Turn(m, D, c) IN
    [i \in 1..n |-> s * a * Pow(Aff(form, P[i]), a - 1) * (Flux(form, P[((i + n - 2) % n) + 1], P[i]) + Flux(form, P[i], P[(i % n) + 1]))]
EdgeRows1(m, D, c, form) ==
    LET n == Len(m.cf[c])  s == Turn(m, D, c)  W == Weights(D.k) IN
    FlattenSeq([i \in 1..n |-> [j \in 1..(D.k - 1) |-> s * W[j] * Flux(form, Pt(m, Corner(D, c, i)), Pt(m, Corner(D, c, i + 1)))]])
(* midpoints, a = 2: six times 2/3 of 2 L(mid) flux *)
EdgeRows2(m, D, c, form) ==
    LET n == Len(m.cf[c])  s == Turn(m, D, c) IN
    [i \in 1..n |-> LET p == Pt(m, Corner(D, c, i))  q == Pt(m, Corner(D, c, i + 1)) IN s * 4 * (Aff(form, p) + Aff(form, q)) * Flux(form, p, q)]
InnerRows(m, D, c, form, a) ==
    [j \in 1..NInner(D.k) |-> IF a = 2 /\ j = 1 THEN -(Area2(m, c) * (form[1] * form[1] + form[2] * form[2])) ELSE 0]
=============================================================================
