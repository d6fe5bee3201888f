---------------------------- MODULE GeometryTrace ----------------------------
EXTENDS Geometry, TraceLib
VARIABLE l
Init == l = 1
e == Trace[l]
Geom == /\ l <= Len(Trace) /\ e.ev = "Geom" /\ l' = l + 1
        /\ IF ~WellFormed(e) THEN Reject(l, "malformed")
           ELSE Holds(l, GeomClauses(e, <<>>))
Next == Geom
Spec == Init /\ [][Next]_l
View == l
=============================================================================
