--------------------------- MODULE MeshStateTrace ---------------------------
EXTENDS MeshState, TraceLib
VARIABLES l, m, own, dom
vars == <<l, m, own, dom>>
Init == l = 1 /\ m = [dim |-> 0] /\ own = <<>> /\ dom = <<>>
Is(ev) == l <= Len(Trace) /\ Trace[l].ev = ev /\ l' = l + 1
e == Trace[l]
Build == /\ Is("Build")
         /\ IF ~WellFormed(e) THEN Reject(l, "malformed")
            ELSE LET o == TLCEval(Owners(e)) IN
                 /\ Holds(l, BuildClauses(e, o))
                 /\ m' = e /\ own' = o /\ dom' = DomOf(e, e)
Query == Is("Query") /\ m.dim # 0 /\ Holds(l, QueryClauses(m, dom, own, e)) /\ UNCHANGED <<m, own, dom>>
Absent == Is("Absent") /\ Holds(l, [cell |-> e.cell, face |-> e.face, bnd |-> e.bnd]) /\ UNCHANGED <<m, own, dom>>
Transform == /\ Is("Transform")
             /\ LET n == Moved(m, e.A, e.t) IN
                /\ Holds(l, [moved |-> SameMesh(n, e)])
                /\ m' = n
             /\ UNCHANGED <<own, dom>>
Mark == /\ Is("Mark")
        /\ LET n == Marked(m, own, e.set, e.ids) IN
           /\ Holds(l, [marked |-> SameMesh(n, e)])
           /\ m' = n
        /\ UNCHANGED <<own, dom>>
Next == Build \/ Query \/ Absent \/ Transform \/ Mark
Spec == Init /\ [][Next]_vars
View == l
=============================================================================
