------------------------------ MODULE Splitting ------------------------------
(* A decomposition of a cell (or face) in simplices tiles it: every point of the
   cell is in exactly one piece (up to a set of measure zero).

   Two dimensions: the boundaries of the pieces, oriented counterclockwise and
   cut at all the points involved, add up to the boundary of the polygon (this is
   equivalent to tiling, also for non-convex polygons).
   Three dimensions: pieces are inside the convex cell, pairwise separated by a
   plane, and their volumes add up to the one of the cell. *)
EXTENDS MeshLib

Scale(K, p) == [k \in DOMAIN p |-> K * p[k]]
Tri2(t) == Cross2(Sub2(t[2], t[1]), Sub2(t[3], t[1]))
Orient(t) == IF Tri2(t) >= 0 THEN t ELSE <<t[1], t[3], t[2]>>

(* points of V on the segment a-b, in order *)
Between(a, b, v) == Cross2(Sub2(b, a), Sub2(v, a)) = 0
                    /\ (v[1] - a[1]) * (v[1] - b[1]) <= 0 /\ (v[2] - a[2]) * (v[2] - b[2]) <= 0
Param(a, b, v) == (v[1] - a[1]) * (b[1] - a[1]) + (v[2] - a[2]) * (b[2] - a[2])
Cut(V, a, b) == LET on == {v \in V : Between(a, b, v)}
                    s == SetToSortSeq(on, LAMBDA u, v : Param(a, b, u) < Param(a, b, v))
                IN [k \in 1..(Len(s) - 1) |-> <<s[k], s[k + 1]>>]
CycCut(V, q) == FlattenSeq([k \in DOMAIN q |-> IF q[k] = q[(k % Len(q)) + 1] THEN <<>> ELSE Cut(V, q[k], q[(k % Len(q)) + 1])])
Coeff(segs, s) == Cardinality({k \in DOMAIN segs : segs[k] = s}) - Cardinality({k \in DOMAIN segs : segs[k] = <<s[2], s[1]>>})

(* tris: sequence of triangles, poly: counterclockwise polygon *)
Tiles2(tris, poly) ==
    LET V == TLCEval(UNION {Rng(t) : t \in Rng(tris)} \cup Rng(poly))
        A == TLCEval(FlattenSeq([k \in DOMAIN tris |-> IF Tri2(tris[k]) = 0 THEN <<>> ELSE CycCut(V, Orient(tris[k]))]))
        B == TLCEval(CycCut(V, poly))
    IN \A s \in Rng(A) \cup Rng(B) : Coeff(A, s) = Coeff(B, s)

Poly2(m, c, K) == LET q == CCW(m, c) IN [k \in DOMAIN q |-> Scale(K, Pt(m, q[k]))]

(* three-dimensional faces: drop the coordinate where the normal is largest *)
DropAxis(n) == CHOOSE k \in 1..3 : \A j \in 1..3 : Abs(n[k]) >= Abs(n[j])
Drop(p, k) == CASE k = 1 -> <<p[2], p[3]>> [] k = 2 -> <<p[3], p[1]>> [] k = 3 -> <<p[1], p[2]>>
FacePoly(m, f, K) ==
    LET n == FaceNormalAt(m, f)  ax == DropAxis(n)
        q == IF n[ax] > 0 THEN m.faces[f] ELSE Reverse(m.faces[f])
    IN [k \in DOMAIN q |-> Drop(Scale(K, Pt(m, q[k])), ax)]
TilesFace(m, f, K, tris) ==
    LET n == FaceNormalAt(m, f)  ax == DropAxis(n)  o == Scale(K, Pt(m, m.faces[f][1])) IN
    /\ \A t \in Rng(tris) : \A p \in Rng(t) : Dot3(n, Sub3(p, o)) = 0
    /\ Tiles2([k \in DOMAIN tris |-> [j \in 1..3 |-> Drop(tris[k][j], ax)]], FacePoly(m, f, K))

(* ---- tetrahedra ---- *)
Vol(t) == Abs(Det3(Sub3(t[2], t[1]), Sub3(t[3], t[1]), Sub3(t[4], t[1])))
Axes(t, u) ==
    LET fn(x, i) == LET y == [k \in 1..3 |-> x[((i + k - 1) % 4) + 1]] IN Cross3(Sub3(y[2], y[1]), Sub3(y[3], y[1]))
        ed(x) == <<Sub3(x[2], x[1]), Sub3(x[3], x[1]), Sub3(x[4], x[1]), Sub3(x[3], x[2]), Sub3(x[4], x[2]), Sub3(x[4], x[3])>>
    IN << [i \in 1..4 |-> fn(t, i)] \o [i \in 1..4 |-> fn(u, i)], ed(t), ed(u) >>
SepBy(n, t, u) == /\ n # <<0, 0, 0>>
                  /\ LET a == {Dot3(n, p) : p \in Rng(t)}  b == {Dot3(n, p) : p \in Rng(u)}
                     IN Max(a) <= Min(b) \/ Max(b) <= Min(a)
Separated(t, u) == LET ax == Axes(t, u) IN
    \/ \E i \in 1..8 : SepBy(ax[1][i], t, u)
    \/ \E i \in 1..6 : \E j \in 1..6 : SepBy(Cross3(ax[2][i], ax[3][j]), t, u)
Tiles3(m, c, K, tets) ==
    LET hs == TLCEval(HalfSpaces(m, c))
        pos == TLCEval({k \in DOMAIN tets : Vol(tets[k]) > 0})
    IN /\ \A t \in Rng(tets) : \A p \in Rng(t) : \A k \in DOMAIN hs : Dot3(hs[k][1], p) >= K * hs[k][2]
       /\ SumSeq([k \in DOMAIN tets |-> Vol(tets[k])]) = (K * K * K) * Meas(m, c)
       /\ \A i \in pos : \A j \in pos : i < j => Separated(tets[i], tets[j])

SplitClauses(m) ==
    [ cells |-> IF m.dim = 2 THEN \A c \in 1..NC(m) : Tiles2(m.cp[c], Poly2(m, c, m.cK[c]))
                ELSE \A c \in 1..NC(m) : Tiles3(m, c, m.cK[c], m.cp[c]),
      cellMeas |-> \A c \in 1..NC(m) : m.cm[c] = [k \in DOMAIN m.cp[c] |-> IF m.dim = 2 THEN Abs(Tri2(m.cp[c][k])) ELSE Vol(m.cp[c][k])],
      indices |-> m.dim = 2 => \A c \in 1..NC(m) :
                     Tiles2([k \in DOMAIN m.ip[c] |-> [j \in 1..3 |-> Scale(m.cK[c], Pt(m, m.ip[c][k][j][1]))]], Poly2(m, c, m.cK[c])),
      polygons |-> m.dim = 2 => \A c \in DOMAIN m.tp : Tiles2(m.tp[c], Poly2(m, c, m.cK[c])) /\ m.tm[c] = [k \in DOMAIN m.tp[c] |-> Abs(Tri2(m.tp[c][k]))],
      nonconvex |-> m.dim = 2 => \A c \in DOMAIN m.fp : Tiles2(m.fp[c], Poly2(m, c, m.cK[c])) /\ m.fm[c] = [k \in DOMAIN m.fp[c] |-> Abs(Tri2(m.fp[c][k]))],
      faces |-> m.dim = 3 => \A f \in 1..NF(m) : TilesFace(m, f, m.fK[f], m.fp[f]) ]
=============================================================================
