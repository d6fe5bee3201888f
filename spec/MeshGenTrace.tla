---------------------------- MODULE MeshGenTrace ----------------------------
(* Accepts a recorded history of a mesh generator iff every step is a Build,
   Refine or Level step of MeshGen. *)
EXTENDS MeshGen, TraceLib
VARIABLES l, mesh

NoMesh == [dim |-> 0]
Ok(n, m) ==
    IF ~WellFormed(m) THEN Reject(n, "malformed")
    ELSE LET own == TLCEval(Owners(m)) IN
         /\ Holds(n, UnitClauses(m, own))
         /\ CASE m.ev = "Build"  -> Holds(n, [count |-> NC(m) = InitialCount(m.mesher)])
              [] m.ev = "Level"  -> Holds(n, LevelClauses(m))
              [] m.ev = "Refine" -> Holds(n, RefineClauses(mesh, m))

Init == l = 1 /\ mesh = NoMesh
Step(ev, guard) == /\ l <= Len(Trace)
                   /\ Trace[l].ev = ev
                   /\ guard
                   /\ Ok(l, Trace[l])
                   /\ mesh' = Trace[l]
                   /\ l' = l + 1
Build  == Step("Build", TRUE)
Refine == Step("Refine", mesh.dim # 0)
Level  == Step("Level", TRUE)
Next == Build \/ Refine \/ Level
Spec == Init /\ [][Next]_<<l, mesh>>
View == l
=============================================================================
