--------------------------- MODULE SplittingTrace ----------------------------
EXTENDS Splitting, TraceLib
VARIABLE l
Init == l = 1
e == Trace[l]
Split == /\ l <= Len(Trace) /\ e.ev = "Split" /\ l' = l + 1
         /\ IF ~WellFormed(e) THEN Reject(l, "malformed") ELSE Holds(l, SplitClauses(e))
End == l <= Len(Trace) /\ e.ev = "End" /\ l' = l + 1
Next == Split \/ End
Spec == Init /\ [][Next]_l
View == l
=============================================================================
