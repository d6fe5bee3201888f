----------------------- MODULE BoundaryConditionsTrace -----------------------
EXTENDS BoundaryConditions, TraceLib
VARIABLES l, m, s, scalar
vars == <<l, m, s, scalar>>
Init == l = 1 /\ m = [dim |-> 0] /\ s = <<>> /\ scalar = TRUE
Is(ev) == l <= Len(Trace) /\ Trace[l].ev = ev /\ l' = l + 1
e == Trace[l]
Mesh == /\ Is("Mesh") /\ IF WellFormed(e) THEN TRUE ELSE Reject(l, "malformed")
        /\ m' = e /\ s' = <<>> /\ UNCHANGED scalar
Registry == Is("Registry") /\ m.dim # 0 /\ s' = Empty(m) /\ scalar' = e.scalar /\ UNCHANGED m
Op == Is("Op") /\ s' = Apply(m, s, e) /\ UNCHANGED <<m, scalar>>
Query == Is("Query") /\ Holds(l, RegistryClauses(m, s, scalar, e)) /\ UNCHANGED <<m, s, scalar>>
End == Is("End") /\ UNCHANGED <<m, s, scalar>>
Next == Mesh \/ Registry \/ Op \/ Query \/ End
Spec == Init /\ [][Next]_vars
View == l
=============================================================================
