------------------------------- MODULE MeshLib -------------------------------
(* Exact (integer) geometry and topology of polytopal meshes.

   A mesh snapshot m is a record:
     dim, kind ("simplex" | "cart" | "gen"), scale (points are multiples of 1/scale)
     pts    seq of integer coordinate tuples
     cells  seq of seqs of point numbers (0-based) -- the points of each cell
     faces  seq of seqs of point numbers            -- the points of each face
     cf     seq of seqs of face numbers (0-based)   -- the faces of each cell
     isb, bid, bint   per face: boundary flag, boundary number (-1: none), internal flag
   All numbers in the snapshot are what the public queries of the mesh returned. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

Rng(s) == {s[k] : k \in DOMAIN s}
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
NoDup(s) == Cardinality(Rng(s)) = Len(s)
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Failed(clauses) == {k \in DOMAIN clauses : ~clauses[k]}

NC(m) == Len(m.cells)
NF(m) == Len(m.faces)
NP(m) == Len(m.pts)
Pt(m, i) == m.pts[i + 1]
Sentinel == 999999999

(* ---- linear algebra ---- *)
Sub2(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Cross2(u, v) == u[1] * v[2] - u[2] * v[1]
Sub3(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Cross3(u, v) == << u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1] >>
Dot3(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Det3(u, v, w) == Dot3(u, Cross3(v, w))

(* ---- well-formedness of the snapshot itself ---- *)
WellFormed(m) ==
    /\ NC(m) > 0 /\ NF(m) > 0 /\ NP(m) > 0
    /\ \A p \in Rng(m.pts) : Len(p) = m.dim /\ \A k \in 1..m.dim : p[k] # Sentinel
    /\ \A c \in Rng(m.cells) : NoDup(c) /\ Len(c) > m.dim /\ \A i \in Rng(c) : i \in 0..(NP(m) - 1)
    /\ \A f \in Rng(m.faces) : NoDup(f) /\ Len(f) >= m.dim /\ \A i \in Rng(f) : i \in 0..(NP(m) - 1)
    /\ Len(m.cf) = NC(m)
    /\ \A s \in Rng(m.cf) : NoDup(s) /\ \A i \in Rng(s) : i \in 0..(NF(m) - 1)
    /\ Len(m.isb) = NF(m) /\ Len(m.bid) = NF(m) /\ Len(m.bint) = NF(m)

DistinctPoints(m) == NoDup(m.pts)

(* ---- ownership: face number -> set of cell numbers (1-based) ---- *)
Owners(m) ==
    LET pairs == FlattenSeq([c \in 1..NC(m) |-> [k \in 1..Len(m.cf[c]) |-> <<m.cf[c][k] + 1, c>>]])
    IN  FoldLeft(LAMBDA own, pr : [own EXCEPT ![pr[1]] = @ \cup {pr[2]}],
                 [f \in 1..NF(m) |-> {}], pairs)

FaceSet(m, f) == Rng(m.faces[f])
CellFaceSets(m, c) == {FaceSet(m, m.cf[c][k] + 1) : k \in DOMAIN m.cf[c]}

(* ---- two dimensions ---- *)
Cycle(m, c) == IF m.kind = "cart" THEN LET q == m.cells[c] IN <<q[1], q[2], q[4], q[3]>> ELSE m.cells[c]
CycArea2(m, cyc) ==
    LET r == Pt(m, cyc[1])
    IN SumSeq([k \in 1..Len(cyc) |->
               Cross2(Sub2(Pt(m, cyc[k]), r), Sub2(Pt(m, cyc[(k % Len(cyc)) + 1]), r))])
CycEdges(cyc) == {{cyc[k], cyc[(k % Len(cyc)) + 1]} : k \in DOMAIN cyc}
Area2(m, c) == Abs(CycArea2(m, Cycle(m, c)))
CCW(m, c) == LET q == Cycle(m, c) IN IF CycArea2(m, q) >= 0 THEN q ELSE Reverse(q)
DirEdges(m, c) == LET q == CCW(m, c) IN {<<q[k], q[(k % Len(q)) + 1]>> : k \in DOMAIN q}

(* ---- three dimensions (convex cells) ---- *)
AreaVec(m, q) == LET a == Pt(m, q[1]) IN
    FoldLeft(LAMBDA v, k : LET c == Cross3(Sub3(Pt(m, q[k]), a), Sub3(Pt(m, q[k + 1]), a)) IN <<v[1] + c[1], v[2] + c[2], v[3] + c[3]>>,
             <<0, 0, 0>>, [k \in 1..(Len(q) - 2) |-> k + 1])
FaceNormalAt(m, f) == AreaVec(m, m.faces[f])
Side3(m, f, p) == Sgn(Dot3(FaceNormalAt(m, f), Sub3(p, Pt(m, m.faces[f][1]))))
FanVol6(m, f, r) == LET q == m.faces[f] IN
    SumSeq([k \in 1..(Len(q) - 2) |->
        Abs(Det3(Sub3(Pt(m, q[1]), r), Sub3(Pt(m, q[k + 1]), r), Sub3(Pt(m, q[k + 2]), r)))])
Vol6(m, c) == LET r == Pt(m, m.cells[c][1]) IN
    SumSeq([k \in DOMAIN m.cf[c] |-> FanVol6(m, m.cf[c][k] + 1, r)])

(* scaled measure: 2*area*scale^2 or 6*volume*scale^3 *)
Meas(m, c) == CASE m.dim = 1 -> Abs(Pt(m, m.cells[c][1])[1] - Pt(m, m.cells[c][2])[1])
                [] m.dim = 2 -> Area2(m, c) [] m.dim = 3 -> Vol6(m, c)
MeasUnit(m) == CASE m.dim = 1 -> m.scale [] m.dim = 2 -> 2 * m.scale * m.scale
                 [] m.dim = 3 -> 6 * m.scale * m.scale * m.scale

(* ---- the faces of a cell are its geometric boundary ---- *)
EdgesOfFace(m, f) == CycEdges(m.faces[f])
CellClosed(m, c) ==
    CASE m.dim = 1 -> CellFaceSets(m, c) = {{m.cells[c][1]}, {m.cells[c][2]}}
      [] m.dim = 2 -> CellFaceSets(m, c) = CycEdges(Cycle(m, c))
      [] m.dim = 3 ->
           LET fs == {m.cf[c][k] + 1 : k \in DOMAIN m.cf[c]}
               es == UNION {EdgesOfFace(m, f) : f \in fs}
           IN /\ UNION {FaceSet(m, f) : f \in fs} = Rng(m.cells[c])
              /\ \A e \in es : Cardinality({f \in fs : e \in EdgesOfFace(m, f)}) = 2
              /\ Cardinality(Rng(m.cells[c])) - Cardinality(es) + Cardinality(fs) = 2

(* two owners lie on opposite sides of the face *)
Opposite(m, f, c1, c2) ==
    CASE m.dim = 1 -> LET x == Pt(m, m.faces[f][1])[1]
                          oth(c) == CHOOSE i \in Rng(m.cells[c]) : i # m.faces[f][1]
                      IN Sgn(Pt(m, oth(c1))[1] - x) * Sgn(Pt(m, oth(c2))[1] - x) = -1
      [] m.dim = 2 -> LET a == m.faces[f][1]  b == m.faces[f][2]
                      IN (<<a, b>> \in DirEdges(m, c1)) = (<<b, a>> \in DirEdges(m, c2))
      [] m.dim = 3 -> LET s(c) == {Side3(m, f, Pt(m, i)) : i \in Rng(m.cells[c])}
                      IN \/ s(c1) = {0, 1} /\ s(c2) = {0, -1}
                         \/ s(c1) = {0, -1} /\ s(c2) = {0, 1}

(* every mesh face belongs to one or two cells, on opposite sides *)
FaceOwnership(m, own) ==
    \A f \in 1..NF(m) : /\ Cardinality(own[f]) \in {1, 2}
                        /\ Cardinality(own[f]) = 2 =>
                              LET c1 == CHOOSE c \in own[f] : TRUE
                                  c2 == CHOOSE c \in own[f] : c # c1
                              IN Opposite(m, f, c1, c2)
FacesDistinct(m) == Cardinality({FaceSet(m, f) : f \in 1..NF(m)}) = NF(m)
CellsDistinct(m) == Cardinality({Rng(m.cells[c]) : c \in 1..NC(m)}) = NC(m)

TotalMeas(m) == SumSeq([c \in 1..NC(m) |-> Meas(m, c)])

(* the boundary flag of a face is set exactly on the faces with one owner *)
BoundaryIsOneSided(m, own) == \A f \in 1..NF(m) : m.isb[f] <=> (Cardinality(own[f]) = 1)

(* all points of face f have coordinate k equal to v *)
OnPlane(m, f, k, v) == \A i \in Rng(m.faces[f]) : Pt(m, i)[k] = v
InUnitBox(m) == \A p \in Rng(m.pts) : \A k \in 1..m.dim : p[k] \in 0..m.scale

(* x is in the closed convex cell c *)
InCell(m, c, x) ==
    IF m.dim = 2
    THEN \A e \in DirEdges(m, c) : Cross2(Sub2(Pt(m, e[2]), Pt(m, e[1])), Sub2(x, Pt(m, e[1]))) >= 0
    ELSE \A k \in DOMAIN m.cf[c] :
            LET f == m.cf[c][k] + 1
                in == {Side3(m, f, Pt(m, i)) : i \in Rng(m.cells[c])} \ {0}
            IN Side3(m, f, x) \in in \cup {0}

(* closed half planes/spaces <<normal, d>> (normal . x >= d) bounding a convex cell *)
HalfSpaces(m, c) ==
    IF m.dim = 2
    THEN LET q == CCW(m, c) IN
         [k \in 1..Len(q) |-> LET a == Pt(m, q[k])  b == Pt(m, q[(k % Len(q)) + 1])
                                  nn == <<a[2] - b[2], b[1] - a[1]>>
                              IN <<nn, nn[1] * a[1] + nn[2] * a[2]>>]
    ELSE [k \in 1..Len(m.cf[c]) |->
            LET f == m.cf[c][k] + 1
                nn == FaceNormalAt(m, f)
                a == Pt(m, m.faces[f][1])
                pos == \E i \in Rng(m.cells[c]) : Side3(m, f, Pt(m, i)) > 0
                n2 == IF pos THEN nn ELSE <<-nn[1], -nn[2], -nn[3]>>
            IN <<n2, Dot3(n2, a)>>]
DotN(u, v) == IF Len(u) = 2 THEN u[1] * v[1] + u[2] * v[2] ELSE Dot3(u, v)
Inside(hs, x) == \A k \in DOMAIN hs : DotN(hs[k][1], x) >= hs[k][2]

(* the tiling clauses: with total measure = measure of the domain and one-sided
   faces only on the domain's boundary, the cells cover the domain exactly once *)
TilingClauses(m, own, domainMeas) ==
    [ distinctPoints |-> DistinctPoints(m),
      positive       |-> \A c \in 1..NC(m) : Meas(m, c) > 0,
      closedCells    |-> \A c \in 1..NC(m) : CellClosed(m, c),
      facesDistinct  |-> FacesDistinct(m),
      cellsDistinct  |-> CellsDistinct(m),
      ownership      |-> FaceOwnership(m, own),
      covers         |-> TotalMeas(m) = domainMeas ]
=============================================================================
