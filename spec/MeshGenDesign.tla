---------------------------- MODULE MeshGenDesign ----------------------------
(* Abstract state machine of two-dimensional mesh generation: start from any
   triangulation of the 2x2 grid (every choice of diagonals) or from the
   rectangular grid, then refine uniformly.  The invariants are the clauses the
   trace specification demands of the real generators. *)
EXTENDS MeshGen
CONSTANT MaxLevel
VARIABLES m, prev, level

(* assemble a snapshot out of a cell list; numbering is by sorted point order *)
Assemble(kind, mesher, scale, pts, cells) ==
    LET cyc(c) == IF kind = "cart" THEN <<c[1], c[2], c[4], c[3]>> ELSE c
        edgesets == UNION {CycEdges(cyc(cells[k])) : k \in DOMAIN cells}
        key(e) == LET a == Min(e)  b == Max(e) IN a * 10000 + b
        es == SetToSortSeq(edgesets, LAMBDA e, f : key(e) < key(f))
        idx == TLCEval([e \in edgesets |-> CHOOSE k \in DOMAIN es : es[k] = e])
        cf == TLCEval([k \in DOMAIN cells |-> SetToSeq({idx[e] - 1 : e \in CycEdges(cyc(cells[k]))})])
        cnt == TLCEval([f \in DOMAIN es |-> Cardinality({k \in DOMAIN cells : es[f] \in CycEdges(cyc(cells[k]))})])
        P(i) == pts[i + 1]
        side(f) == CHOOSE n \in 0..3 : \E k \in 1..2 :
                      \/ n = PlaneIds("tri")[k].lo /\ \A i \in es[f] : P(i)[k] = 0
                      \/ n = PlaneIds("tri")[k].hi /\ \A i \in es[f] : P(i)[k] = scale
    IN [dim |-> 2, kind |-> kind, mesher |-> mesher, scale |-> scale, pts |-> pts, cells |-> cells,
        faces |-> [f \in DOMAIN es |-> <<Min(es[f]), Max(es[f])>>], cf |-> cf,
        isb |-> [f \in DOMAIN es |-> cnt[f] = 1],
        bid |-> [f \in DOMAIN es |-> IF cnt[f] = 1 THEN side(f) ELSE -1],
        bint |-> [f \in DOMAIN es |-> FALSE]]

GridPts == <<<<0,0>>,<<1,0>>,<<2,0>>,<<0,1>>,<<1,1>>,<<2,1>>,<<0,2>>,<<1,2>>,<<2,2>>>>
Squares == <<<<0,1,3,4>>, <<1,2,4,5>>, <<3,4,6,7>>, <<4,5,7,8>>>>
TriMesh(d) == Assemble("simplex", "tri", 2, GridPts,
    FlattenSeq([k \in 1..4 |-> LET q == Squares[k] IN
        IF d[k] = 0 THEN << <<q[1], q[2], q[4]>>, <<q[1], q[3], q[4]>> >>
        ELSE << <<q[1], q[2], q[3]>>, <<q[2], q[3], q[4]>> >>]))
QuadMesh == Assemble("cart", "quad", 2, GridPts, Squares)

(* red refinement: halve every edge; scale doubles so that points stay integer *)
Refine2(a) ==
    LET old == [i \in DOMAIN a.pts |-> <<2 * a.pts[i][1], 2 * a.pts[i][2]>>]
        mid(i, j) == <<a.pts[i + 1][1] + a.pts[j + 1][1], a.pts[i + 1][2] + a.pts[j + 1][2]>>
        centre(q) == <<(a.pts[q[1]+1][1] + a.pts[q[4]+1][1]), (a.pts[q[1]+1][2] + a.pts[q[4]+1][2])>>
        mids == {mid(a.faces[f][1], a.faces[f][2]) : f \in DOMAIN a.faces}
        cens == IF a.kind = "cart" THEN {centre(q) : q \in Rng(a.cells)} ELSE {}
        all == Rng(old) \cup mids \cup cens
        ord == SetToSortSeq(all, LAMBDA p, q : p[2] < q[2] \/ (p[2] = q[2] /\ p[1] < q[1]))
        num == TLCEval([p \in all |-> (CHOOSE k \in DOMAIN ord : ord[k] = p) - 1])
        o(i) == num[old[i + 1]]
        e(i, j) == num[mid(i, j)]
        split(c) == IF a.kind = "cart"
             THEN LET z == num[centre(c)] IN
                  << <<o(c[1]), e(c[1], c[2]), e(c[1], c[3]), z>>, <<e(c[1], c[2]), o(c[2]), z, e(c[2], c[4])>>,
                     <<e(c[1], c[3]), z, o(c[3]), e(c[3], c[4])>>, <<z, e(c[2], c[4]), e(c[3], c[4]), o(c[4])>> >>
             ELSE << <<o(c[1]), e(c[1], c[2]), e(c[1], c[3])>>, <<o(c[2]), e(c[1], c[2]), e(c[2], c[3])>>,
                     <<o(c[3]), e(c[1], c[3]), e(c[2], c[3])>>, <<e(c[1], c[2]), e(c[1], c[3]), e(c[2], c[3])>> >>
    IN Assemble(a.kind, a.mesher, 2 * a.scale, ord, FlattenSeq([k \in DOMAIN a.cells |-> split(a.cells[k])]))

(* prev rescaled to the scale of the refined mesh *)
Rescale(a) == [a EXCEPT !.scale = 2 * a.scale, !.pts = [i \in DOMAIN a.pts |-> <<2 * a.pts[i][1], 2 * a.pts[i][2]>>]]

Init == /\ level = 0
        /\ m \in {TriMesh(d) : d \in [1..4 -> {0, 1}]} \cup {QuadMesh}
        /\ prev = [dim |-> 0]
Refine == /\ level < MaxLevel
          /\ prev' = Rescale(m)
          /\ m' = Refine2(m)
          /\ level' = level + 1
Spec == Init /\ [][Refine]_<<m, prev, level>>

Tiling == WellFormed(m) /\ LET own == TLCEval(Owners(m)) cl == UnitClauses(m, own) IN \A k \in DOMAIN cl : cl[k]
Nested == prev.dim = 0 \/ LET cl == RefineClauses(prev, m) IN \A k \in DOMAIN cl : cl[k]
Euler == NP(m) - NF(m) + NC(m) = 1
=============================================================================
