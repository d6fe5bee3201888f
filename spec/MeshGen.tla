------------------------------- MODULE MeshGen -------------------------------
(* Structured meshes of the unit interval/square/cube: what Build, Refine and
   Level have to produce.  A mesh value is a snapshot record (MeshLib). *)
EXTENDS MeshLib

(* boundary numbers of the unit square / cube, per axis: low plane, high plane *)
PlaneIds(mesher) ==
    CASE mesher \in {"tri", "quad", "hex"} -> << [lo |-> 3, hi |-> 1], [lo |-> 0, hi |-> 2] >>
      [] mesher = "tet" -> << [lo |-> 2, hi |-> 5], [lo |-> 1, hi |-> 4], [lo |-> 0, hi |-> 3] >>

BoundaryIds(m, own) ==
    \A f \in 1..NF(m) :
        IF Cardinality(own[f]) = 1
        THEN \E k \in 1..m.dim :
               \/ OnPlane(m, f, k, 0) /\ m.bid[f] = PlaneIds(m.mesher)[k].lo
               \/ OnPlane(m, f, k, m.scale) /\ m.bid[f] = PlaneIds(m.mesher)[k].hi
        ELSE TRUE

UnitClauses(m, own) ==
    TilingClauses(m, own, MeasUnit(m)) @@
    [ inBox        |-> InUnitBox(m),
      boundary     |-> BoundaryIsOneSided(m, own),
      notInternal  |-> \A f \in 1..NF(m) : ~m.bint[f],
      boundaryIds  |-> BoundaryIds(m, own) ]

(* Refine(m, n): every cell of m is divided into 2^dim cells of equal measure *)
ParentTable(m, n) ==
    LET hs == TLCEval([p \in 1..NC(m) |-> TLCEval(HalfSpaces(m, p))])
    IN TLCEval([c \in 1..NC(n) |->
          TLCEval({p \in 1..NC(m) : \A k \in 1..Len(n.cells[c]) : Inside(hs[p], Pt(n, n.cells[c][k]))})])
RefineClauses(m, n) ==
    LET par == ParentTable(m, n)
        kids == IF m.dim = 2 THEN 4 ELSE 8
    IN [ nested     |-> \A c \in 1..NC(n) : Cardinality(par[c]) = 1,
         fanout     |-> /\ NC(n) = kids * NC(m)
                      /\ LET cnt == FoldLeft(LAMBDA a, s : IF Cardinality(s) = 1 THEN [a EXCEPT ![CHOOSE x \in s : TRUE] = @ + 1] ELSE a,
                                             [p \in 1..NC(m) |-> 0], par)
                         IN \A p \in 1..NC(m) : cnt[p] = kids,
         equalParts |-> \A c \in 1..NC(n) : \A p \in par[c] : kids * Meas(n, c) = Meas(m, p),
         keepsPoints|-> Rng(m.pts) \subseteq Rng(n.pts) ]

(* hexagonal tiling of level l: w = 2^l tiles per side, each with one hexagon,
   plus the cells filling the gaps *)
LevelClauses(m) ==
    LET w == 2 ^ m.level IN
    [ counts |-> NC(m) = 4 * w * w + 3 * w,
      sides  |-> \A c \in 1..NC(m) : Len(m.cells[c]) \in 3..6 ]

InitialCount(mesher) == CASE mesher = "tri" -> 4 [] mesher = "quad" -> 4 [] mesher = "tet" -> 6
=============================================================================
