------------------------------ MODULE Geometry -------------------------------
(* Geometric quantities of the cells and faces of a mesh, in exact integers.
   Units: lengths are multiples of 1/scale; areas and volumes are multiplied by
   2 scale^2 and 6 scale^3; normals are multiplied by (twice) the measure. *)
EXTENDS MeshLib

Dist2(a, b) == SumSeq([k \in DOMAIN a |-> (a[k] - b[k]) * (a[k] - b[k])])
PtsOf(m, s) == [k \in DOMAIN s |-> Pt(m, s[k])]
Diam2(ps) == Max({Dist2(ps[i], ps[j]) : i, j \in DOMAIN ps})
Lo(ps, k) == Min({p[k] : p \in Rng(ps)})
Hi(ps, k) == Max({p[k] : p \in Rng(ps)})
Widths(ps) == [k \in DOMAIN ps[1] |-> Hi(ps, k) - Lo(ps, k)]
MidBox2(ps) == [k \in DOMAIN ps[1] |-> Hi(ps, k) + Lo(ps, k)]
SumPts(ps) == [k \in DOMAIN ps[1] |-> SumSeq([i \in DOMAIN ps |-> ps[i][k]])]
Norm2(v) == SumSeq([k \in DOMAIN v |-> v[k] * v[k]])
Neg(v) == [k \in DOMAIN v |-> -v[k]]

(* 6 area centroid of a polygon *)
Centroid6(m, q) ==
    LET sgn == Sgn(CycArea2(m, q))
        r == Pt(m, q[1])
        a2 == Abs(CycArea2(m, q))
        nx(k) == q[(k % Len(q)) + 1]
        loc(k) == SumSeq([j \in 1..Len(q) |->
             LET p == Sub2(Pt(m, q[j]), r)  s == Sub2(Pt(m, nx(j)), r) IN (p[k] + s[k]) * Cross2(p, s)])
    IN [k \in 1..2 |-> sgn * loc(k) + (3 * a2 * r[k])]

(* outward normal times the length of the edge a-b of cell c *)
Normal2(m, c, f) == LET a == m.faces[f][1]  b == m.faces[f][2]
                        e == IF <<a, b>> \in DirEdges(m, c) THEN Sub2(Pt(m, b), Pt(m, a)) ELSE Sub2(Pt(m, a), Pt(m, b))
                    IN <<e[2], -e[1]>>
Normal3(m, c, f) == LET n == FaceNormalAt(m, f)
                        pos == \E i \in Rng(m.cells[c]) : Side3(m, f, Pt(m, i)) > 0
                    IN IF pos THEN Neg(n) ELSE n
Normal1(m, c, f) == LET x == Pt(m, m.faces[f][1])[1]
                        y == Pt(m, CHOOSE i \in Rng(m.cells[c]) : i # m.faces[f][1])[1]
                    IN <<Sgn(x - y)>>
OutNormal(m, c, f) == CASE m.dim = 1 -> Normal1(m, c, f) [] m.dim = 2 -> Normal2(m, c, f) [] m.dim = 3 -> Normal3(m, c, f)

ConvexCCW(m, c) == LET q == Cycle(m, c)  n == Len(q) IN
    \A k \in 1..n : Cross2(Sub2(Pt(m, q[(k % n) + 1]), Pt(m, q[k])),
                           Sub2(Pt(m, q[((k + 1) % n) + 1]), Pt(m, q[(k % n) + 1]))) >= 0
Convex2(m, c) == LET q == CCW(m, c)  n == Len(q) IN
    \A k \in 1..n : Cross2(Sub2(Pt(m, q[(k % n) + 1]), Pt(m, q[k])),
                           Sub2(Pt(m, q[((k + 1) % n) + 1]), Pt(m, q[(k % n) + 1]))) >= 0

SignedMeas(m, c) == LET s == m.cells[c] IN
    IF m.dim = 2 THEN CycArea2(m, s)
    ELSE Det3(Sub3(Pt(m, s[2]), Pt(m, s[1])), Sub3(Pt(m, s[3]), Pt(m, s[1])), Sub3(Pt(m, s[4]), Pt(m, s[1])))

(* position of x (in half units) with respect to the convex cell c *)
HalfPos(m, c, x) ==
    LET hs == TLCEval(HalfSpaces(m, c))
    IN IF \A k \in DOMAIN hs : DotN(hs[k][1], x) > 2 * hs[k][2] THEN "in"
       ELSE IF \E k \in DOMAIN hs : DotN(hs[k][1], x) < 2 * hs[k][2] THEN "out" ELSE "on"

Ident(d) == [k \in 1..(d * d) |-> IF (k - 1) \div d = (k - 1) % d THEN 1000 ELSE 0]

GeomClauses(m, own) ==
    LET cp == TLCEval([c \in 1..NC(m) |-> PtsOf(m, m.cells[c])])
        fp == TLCEval([f \in 1..NF(m) |-> PtsOf(m, m.faces[f])])
        simp == m.kind = "simplex"
    IN
    [ measure    |-> \A c \in 1..NC(m) : m.cmeas[c] = Meas(m, c),
      signed     |-> simp => \A c \in 1..NC(m) : m.smeas[c] = SignedMeas(m, c),
      barycenter |-> \A c \in 1..NC(m) : m.cbar[c] = IF m.kind = "gen" /\ m.dim = 2 THEN Centroid6(m, m.cells[c]) ELSE SumPts(cp[c]),
      diameter   |-> \A c \in 1..NC(m) : m.cdiam[c] = Diam2(cp[c]),
      diameters  |-> \A c \in 1..NC(m) : m.cdiams[c] = Widths(cp[c]),
      boxCenter  |-> \A c \in 1..NC(m) : m.bbbar[c] = MidBox2(cp[c]),
      boxSize    |-> m.dim > 1 => \A c \in 1..NC(m) : m.dbb[c] = Widths(cp[c]),
      axes       |-> m.dim > 1 => \A c \in 1..NC(m) : m.axes[c] = Ident(m.dim) /\ m.saxes[c] = Ident(m.dim) /\ (m.kind # "gen" => m.laxes[c] = Ident(m.dim)),
      average    |-> m.avgd = 1000,
      faceMeas   |-> \A f \in 1..NF(m) : m.fmeas[f] = CASE m.dim = 1 -> 1 [] m.dim = 2 -> Dist2(fp[f][1], fp[f][2])
                                                        [] m.dim = 3 -> Norm2(FaceNormalAt(m, f)),
      faceBary   |-> \A f \in 1..NF(m) : m.fbar[f] = SumPts(fp[f]),
      faceDiam   |-> m.dim > 1 => \A f \in 1..NF(m) : m.fdiam[f] = Diam2(fp[f]) /\ m.fdiams[f] = Widths(fp[f]),
      faceNormal |-> m.dim > 1 => \A f \in 1..NF(m) :
                        LET n == IF m.dim = 2 THEN LET e == Sub2(fp[f][2], fp[f][1]) IN <<e[2], -e[1]>> ELSE FaceNormalAt(m, f)
                        IN m.fnrm[f] \in {n, Neg(n)},
      outward    |-> \A c \in 1..NC(m) : \A k \in DOMAIN m.cf[c] : m.nrm[c][k] = OutNormal(m, c, m.cf[c][k] + 1),
      balance    |-> \A c \in 1..NC(m) : SumPts(m.nrm[c]) = [k \in 1..m.dim |-> 0],
      convex     |-> (m.kind = "gen" /\ m.dim = 2) => \A c \in 1..NC(m) :
                        IF CycArea2(m, m.cells[c]) > 0 THEN m.convex[c] = Convex2(m, c) ELSE m.convex[c] => Convex2(m, c),
      inside     |-> \A c \in DOMAIN m.qpt :
                        (m.dim = 2 => Convex2(m, c)) =>
                          \A k \in DOMAIN m.qpt[c] : LET w == HalfPos(m, c, m.qpt[c][k]) IN
                              IF w = "in" THEN m.qin[c][k] ELSE IF w = "out" THEN ~m.qin[c][k] ELSE TRUE ]
=============================================================================
