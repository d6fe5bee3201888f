---------------------------- MODULE MeshLoadTrace ----------------------------
EXTENDS MeshLoad, TraceLib
VARIABLE l
Init == l = 1
Is(ev) == l <= Len(Trace) /\ Trace[l].ev = ev /\ l' = l + 1
e == Trace[l]
Next == \/ Is("Load") /\ Holds(l, LoadClauses(e))
        \/ Is("Uniform") /\ Holds(l, UniformClauses(e))
        \/ Is("LoadBad") /\ Holds(l, BadClauses(e))
Spec == Init /\ [][Next]_l
View == l
=============================================================================
