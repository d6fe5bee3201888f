--------------------------- MODULE QuadratureTrace ---------------------------
(* Values computed by the quadratures of the code against the exact moments.
   An event gives the values of Int L^q, q = 0..Q, each computed twice: with the
   rule asked for degree q (v) and with the rule asked for degree q+1 (w). *)
EXTENDS Quadrature, TraceLib
VARIABLES l, m
Init == l = 1 /\ m = [dim |-> 0]
e == Trace[l]
Is(ev) == l <= Len(Trace) /\ e.ev = ev /\ l' = l + 1
Width(Q) == 10 + ((Q * 3) \div 4)
RECURSIVE Powers(_, _)
Powers(x, n) == IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<1>> ELSE LET r == Powers(x, n - 1) IN Append(r, x * r[n - 1])
Check(sim, v, w, tol) ==
    LET Q == Len(v) - 1  W == Width(Q)  mo == TLCEval(Moments(sim, Q, W)) IN
    [asked   |-> \A q \in DOMAIN v : MomentOk(v[q], mo[q], W, tol),
     onemore |-> \A q \in DOMAIN w : MomentOk(w[q], mo[q], W, tol)]
Mesh == /\ Is("Mesh") /\ IF WellFormed(e) THEN m' = e ELSE Reject(l, "malformed")
Cell == /\ Is("Cell") /\ m.dim # 0 /\ UNCHANGED m
        /\ Holds(l, Check(SimCell(m, e.i + 1, e.form), e.v, e.w, e.tol))
Face == /\ Is("Face") /\ m.dim # 0 /\ UNCHANGED m
        /\ Holds(l, IF m.dim = 1 THEN [dirac |-> e.v = Powers(LVal(e.form, Pt(m, m.faces[e.i + 1][1])), Len(e.v))]
                    ELSE Check(SimFace(m, e.i + 1, e.k, e.form), e.v, e.w, e.tol))
(* a rule on a simplex, a planar quadrilateral or a hexahedron given by vertices *)
RawSim == CASE e.shape = "seg" -> SimEdge(e.ps[1], e.ps[2], e.k, e.form)
            [] e.shape = "poly" -> SimPoly(e.ps, e.k, e.form)
            [] e.shape = "tet" -> SimTet(e.ps[1], e.ps[2], e.ps[3], e.ps[4], e.form)
            [] e.shape = "box" ->   \* parallelepiped with edges e.ps[2..4] - e.ps[1]: six tetrahedra
                 LET a == e.ps[1]
                     g(i) == Sub3(e.ps[i + 1], a)
                     ad(p, q) == <<p[1] + q[1], p[2] + q[2], p[3] + q[3]>>
                     pr == << <<1,2,3>>, <<1,3,2>>, <<2,1,3>>, <<2,3,1>>, <<3,1,2>>, <<3,2,1>> >>
                 IN FlattenSeq([t \in DOMAIN pr |-> LET p1 == ad(a, g(pr[t][1]))  p2 == ad(p1, g(pr[t][2]))
                                                    IN SimTet(a, p1, p2, ad(p2, g(pr[t][3])), e.form)])
Raw == /\ Is("Raw") /\ UNCHANGED m
       /\ IF e.threw THEN Holds(l, [supported |-> e.deg > e.max])
          ELSE LET W == Width(e.q)  mo == TLCEval(Moments(RawSim, e.q, W)) IN
               Holds(l, [exact |-> MomentOk(e.v, mo[e.q + 1], W, e.tol)])
End == Is("End") /\ UNCHANGED m
Next == Mesh \/ Cell \/ Face \/ Raw \/ End
Spec == Init /\ [][Next]_<<l, m>>
View == l
=============================================================================
