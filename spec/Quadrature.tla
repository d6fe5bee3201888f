------------------------------ MODULE Quadrature -----------------------------
(* Exact integrals of powers of linear forms over polytopes with integer
   vertices. For a simplex with vertices s_0..s_d and an affine form L,

     Int L^q = |det| * q! / (q+d)! * h_q(L(s_0), ..., L(s_d)),

   h_q the complete homogeneous symmetric polynomial (the powers of the affine
   forms span all polynomials of degree q). Here d!/(...) is cleared: moments
   are Int L^q * (q+1)...(q+d) = |det| h_q, an integer; the harness multiplies
   the value of the code by the same product. A polytope is a signed sum of
   simplices <<sign*det, <<values of L at the vertices>>>>. Values of L are
   natural numbers. *)
EXTENDS MeshLib, BigNat
LVal(form, p) == SumSeq([k \in DOMAIN p |-> form[k] * p[k]]) + form[Len(form)]
(* h_0..h_Q of a sequence of values *)
HRow(prev, x, Q) == FoldLeft(LAMBDA r, q : Append(r, BAdd(prev[q + 1], BMul(r[q], x))), <<prev[1]>>, [q \in 1..Q |-> q])
HTab(vals, Q, w) == FoldLeft(LAMBDA t, x : HRow(t, x, Q), [q \in 1..(Q + 1) |-> IF q = 1 THEN BNat(1, w) ELSE BZero(w)], vals)
(* moments 0..Q of a signed sum of simplices; entries <<positive part, negative part>> *)
Moments(sim, Q, w) ==
    FoldLeft(LAMBDA acc, s :
        IF s[1] = 0 THEN acc
        ELSE LET h == TLCEval(HTab(s[2], Q, w)) IN
             TLCEval([q \in 1..(Q + 1) |-> IF s[1] > 0 THEN <<BAdd(acc[q][1], BMul(h[q], s[1])), acc[q][2]>>
                                                      ELSE <<acc[q][1], BAdd(acc[q][2], BMul(h[q], -s[1]))>>]),
        [q \in 1..(Q + 1) |-> <<BZero(w), BZero(w)>>], sim)
(* ---- polytopes as sums of simplices ---- *)
Sim1(a, b, form) == << <<Abs(b[1] - a[1]), <<LVal(form, a), LVal(form, b)>> >> >>
(* edge in any dimension, measured along coordinate k *)
SimEdge(a, b, k, form) == << <<Abs(b[k] - a[k]), <<LVal(form, a), LVal(form, b)>> >> >>
(* planar polygon, measured in the projection that drops coordinate k (0: already planar) *)
Drop(p, k) == IF k = 0 THEN p ELSE IF k = 1 THEN <<p[2], p[3]>> ELSE IF k = 2 THEN <<p[1], p[3]>> ELSE <<p[1], p[2]>>
SimPoly(ps, k, form) ==
    LET n == Len(ps)
        raw == [j \in 1..(n - 2) |-> <<Cross2(Sub2(Drop(ps[j + 1], k), Drop(ps[1], k)), Sub2(Drop(ps[j + 2], k), Drop(ps[1], k))),
                                       <<LVal(form, ps[1]), LVal(form, ps[j + 1]), LVal(form, ps[j + 2])>> >>]
    IN IF SumSeq([j \in DOMAIN raw |-> raw[j][1]]) >= 0 THEN raw ELSE [j \in DOMAIN raw |-> << -raw[j][1], raw[j][2] >>]
SimTet(a, b, c, d, form) == << <<Abs(Det3(Sub3(b, a), Sub3(c, a), Sub3(d, a))), <<LVal(form, a), LVal(form, b), LVal(form, c), LVal(form, d)>> >> >>
(* convex polyhedron: cones of its first vertex over the faces *)
SimCell3(m, c, form) ==
    LET r == Pt(m, m.cells[c][1]) IN
    FlattenSeq([k \in DOMAIN m.cf[c] |->
        LET q == m.faces[m.cf[c][k] + 1] IN
        FlattenSeq([j \in 1..(Len(q) - 2) |-> SimTet(r, Pt(m, q[1]), Pt(m, q[j + 1]), Pt(m, q[j + 2]), form)])])
SimCell(m, c, form) == CASE m.dim = 1 -> Sim1(Pt(m, m.cells[c][1]), Pt(m, m.cells[c][2]), form)
                         [] m.dim = 2 -> LET q == Cycle(m, c) IN SimPoly([k \in DOMAIN q |-> Pt(m, q[k])], 0, form)
                         [] m.dim = 3 -> SimCell3(m, c, form)
SimFace(m, f, k, form) == LET q == m.faces[f] IN
                          IF m.dim = 2 THEN SimEdge(Pt(m, q[1]), Pt(m, q[2]), k, form)
                          ELSE SimPoly([j \in DOMAIN q |-> Pt(m, q[j])], k, form)
(* |value - moment * 10^8| <= tol * moment, value given by its limbs; the
   negative simplices are bounded by the positive ones *)
MomentOk(v, mom, w, tol) ==
    LET p == BShift(mom[1], 2)  n == BShift(mom[2], 2)  x == BPad(v, w)
    IN Len(v) <= w /\ BLeq(BDiff(BAdd(x, n), p), BMul(BAdd(mom[1], BNat(1, w)), tol))
=============================================================================
