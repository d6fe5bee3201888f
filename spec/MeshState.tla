------------------------------ MODULE MeshState ------------------------------
(* The mesh as a state machine: Build, Transform (move the points), Mark
   (declare interfaces).  Queries are functions of the state. *)
EXTENDS MeshLib

Coord(m, s) == {Pt(m, i) : i \in Rng(s)}

(* the answers of every query, as clauses over a query event q whose snapshot
   part must be the state m itself *)
SameMesh(m, q) == \A k \in {"dim", "kind", "scale", "pts", "cells", "faces", "cf", "isb", "bid", "bint"} : m[k] = q[k]

BndFaces(m) == {f \in 1..NF(m) : m.isb[f]}
SortedFrom0(S) == SetToSortSeq({f - 1 : f \in S}, LAMBDA a, b : a < b)
Iota(n) == [i \in 1..n |-> i - 1]
FlatPts(m, s) == FlattenSeq([k \in DOMAIN s |-> Pt(m, s[k])])
NeighOf(m, own, c) == [k \in DOMAIN m.cf[c] |->
    LET others == own[m.cf[c][k] + 1] \ {c} IN IF others = {} THEN -1 ELSE (CHOOSE x \in others : TRUE) - 1]

QueryClauses(m, dom, own, q) ==
    [ state      |-> SameMesh(m, q),
      sizes      |-> q.ncells = NC(m) /\ q.nfaces = NF(m) /\ q.npoints = NP(m),
      lookupCell |-> q.clk = Iota(NC(m)) /\ q.cof = Iota(NC(m)) /\ q.cix = Iota(NC(m)),
      lookupFace |-> q.flk = Iota(NF(m)) /\ q.fof = Iota(NF(m)),
      domains    |-> q.dom = dom,
      facesOf    |-> /\ q.nfc = [c \in 1..NC(m) |-> Len(m.cf[c])]
                     /\ \A c \in 1..NC(m) : q.cfid[c] = m.cf[c],
      pointsOf   |-> /\ \A c \in 1..NC(m) : q.cpts[c] = FlatPts(m, m.cells[c])
                     /\ \A f \in 1..NF(m) : q.fpts[f] = FlatPts(m, m.faces[f]),
      neighbours |-> \A c \in 1..NC(m) : q.neigh[c] = NeighOf(m, own, c),
      onBoundary |-> \A c \in 1..NC(m) : q.hasb[c] <=> \E f \in Rng(m.cf[c]) : m.isb[f + 1],
      boundary   |-> q.isbId = m.isb /\ q.isbFc = m.isb,
      numbers    |-> LET b == [f \in 1..NF(m) |-> IF m.isb[f] THEN m.bid[f] ELSE -1] IN q.bidf = b /\ q.bidi = b,
      numberList |-> q.bidlist = SetToSortSeq({m.bid[f] : f \in BndFaces(m)}, LAMBDA a, b : a < b),
      counts     |-> /\ q.nbnd = Cardinality(BndFaces(m)) /\ q.nint = NF(m) - q.nbnd
                     /\ \A id \in 0..14 : q.bcnt[id + 1] = Cardinality({f \in BndFaces(m) : m.bid[f] = id}),
      iterators  |-> LET b == SortedFrom0(BndFaces(m)) IN
                     /\ q.biter = b /\ q.bitercst = b /\ q.biterpx = b
                     /\ q.inter = SortedFrom0((1..NF(m)) \ BndFaces(m))
                     /\ \A id \in 0..14 : q.bper[id + 1] = SortedFrom0({f \in BndFaces(m) : m.bid[f] = id}),
      box        |-> /\ \A k \in 1..m.dim : q.bbmin[k] = Min({p[k] : p \in Rng(m.pts)})
                     /\ \A k \in 1..m.dim : q.bbmax[k] = Max({p[k] : p \in Rng(m.pts)}) ]

(* n is the document's mesh (cells in some order) *)
DomOf(m, b) == [c \in 1..NC(m) |-> b.ddom[CHOOSE k \in DOMAIN b.dcells : Rng(b.dcells[k]) = Rng(m.cells[c])]]
BuildClauses(m, own) ==
    [ cells   |-> {Rng(m.cells[c]) : c \in 1..NC(m)} = {Rng(m.dcells[k]) : k \in DOMAIN m.dcells} /\ NC(m) = Len(m.dcells),
      closed  |-> \A c \in 1..NC(m) : CellClosed(m, c),
      distinct|-> FacesDistinct(m),
      owners  |-> FaceOwnership(m, own),
      onesided|-> BoundaryIsOneSided(m, own),
      numbers |-> \A f \in BndFaces(m) : \E k \in DOMAIN m.dbnd : Rng(m.dbnd[k]) = FaceSet(m, f) /\ m.dbid[k] = m.bid[f],
      internal|-> \A f \in 1..NF(m) : ~m.bint[f] ]

Moved(m, A, t) == [m EXCEPT !.pts = [i \in 1..NP(m) |->
    [r \in 1..m.dim |-> SumSeq([c \in 1..m.dim |-> A[r][c] * Pt(m, i - 1)[c]]) + t[r] * m.scale]]]
Marked(m, own, set, ids) ==
    LET pos(f) == CHOOSE k \in DOMAIN set : set[k] + 1 = f
        in(f) == \E k \in DOMAIN set : set[k] + 1 = f
        isb2 == TLCEval([f \in 1..NF(m) |-> m.isb[f] \/ in(f)])
    IN [m EXCEPT !.isb = isb2,
                 !.bid = [f \in 1..NF(m) |-> IF in(f) THEN ids[pos(f)] ELSE m.bid[f]],
                 !.bint = [f \in 1..NF(m) |-> isb2[f] /\ Cardinality(own[f]) = 2]]
=============================================================================
