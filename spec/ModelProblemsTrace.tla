--------------------------- MODULE ModelProblemsTrace ---------------------------
(* Problems solved by the code against ModelProblems.tla.
   Problem  the data handed to the code
   Found    the solution on a cell: the unknown and its image (gradient) on a lattice
            that determines polynomials of the degree of the solution, the differences
            of the pressure
   Errors   what a solver of the applications reports: no error against the solution,
            and the exact one against the solution plus a constant
   Solved   all cells were given; the mean of the pressure *)
EXTENDS ModelProblems, TraceLib
VARIABLES l, b, seen
Init == l = 1 /\ b = [kind |-> "none"] /\ seen = 0
e == Trace[l]
Is(ev) == l <= Len(Trace) /\ e.ev = ev /\ l' = l + 1
Clean(pb) == Posed(pb) /\ pb.f = Source(pb) /\ pb.flux = CollectM(Flux(pb))
Problem == /\ Is("Problem") /\ b.kind = "none" /\ seen' = 0
           /\ LET pb == e.b IN IF Clean(pb) THEN b' = [cells |-> e.cells] @@ pb ELSE Reject(l, "not a problem")
Points == LET id == Lattice(Len(e.dirs), e.n) \o e.ex IN [i \in DOMAIN id |-> At(e.p0, e.dirs, id[i])]
Vals(F, P) == FlattenSeq([i \in DOMAIN P |-> FVal(F, P[i])])
Image(op) == IF op = "grad" THEN Grad(b.u[1], b.d) ELSE Jac(b.u, b.d)
Found == /\ Is("Found") /\ UNCHANGED b /\ b.kind \notin {"none", "elasticity", "vector"} /\ seen' = seen + 1
         /\ LET P == TLCEval(Points) IN
            Holds(l, [order |-> e.i = seen,
                      lattice |-> e.n >= Exactness(b.kind, b.k, b.l) /\ Len(e.dirs) = b.d /\ \A j \in 1..b.d : e.dirs[j] = Unit(b.d, j),
                      asked |-> e.oper = IF Scalar(b.kind) THEN "grad" ELSE "jac",
                      unknown |-> IF b.l = 1 THEN e.val = Vals(b.u, P) ELSE e.val = <<>>,
                      image |-> e.img = Vals(Image(e.oper), P),
                      pressure |-> IF Scalar(b.kind) THEN e.pres = <<>> ELSE e.pres = [i \in DOMAIN P |-> PVal(b.p, P[i]) - PVal(b.p, P[1])]])
Errors == /\ Is("Errors") /\ UNCHANGED b /\ b.kind \in {"elasticity", "vector"} /\ seen = 0 /\ seen' = b.cells
          /\ Holds(l, [displacement |-> e.exact = 0 /\ e.shift = 1, image |-> e.image = 0 /\ e.ishift = 1])
Solved == /\ Is("Solved") /\ Holds(l, [every |-> seen = b.cells, mean |-> e.mean = 0]) /\ b' = [kind |-> "none"] /\ seen' = 0
End == Is("End") /\ UNCHANGED <<b, seen>> /\ b.kind = "none"
Next == Problem \/ Found \/ Errors \/ Solved \/ End
Spec == Init /\ [][Next]_<<l, b, seen>>
View == l
=============================================================================
