----------------------------- MODULE TensorsTrace ------------------------------
(* Recorded results of the tensor operations against module Tensors. *)
EXTENDS Tensors, TraceLib
VARIABLE l
e == Trace[l]
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF e.ev = "End" THEN TRUE
           ELSE IF Trace[l].ev # "Op" THEN FALSE
           ELSE IF Refused(e) THEN Holds(l, [refused |-> e.err # ""])
           ELSE Holds(l, [done |-> e.err = "", size |-> IF e.err = "" THEN Len(e.out) = Len(TLCEval(Op(e))) ELSE TRUE,
                          value |-> IF e.err = "" THEN Trace[l].out = Op(e) ELSE TRUE, den |-> e.den = Den(e)])
Spec == Init /\ [][Next]_l
View == l
=============================================================================
