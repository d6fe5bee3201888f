------------------------- MODULE TimeSteppingDesign --------------------------
(* Every outcome of every attempt, for a few requests: the steps stay contiguous,
   sublevels stay bounded, and every computation ends, either at the requested
   time or after a failure on the deepest sublevel. *)
EXTENDS TimeStepping, TLC
Requests == {[segs |-> g, final |-> f, sub |-> s, imax |-> 20, fails |-> <<>>, saves |-> sv, mode |-> 2, unit |-> 8, amax |-> 12, mat |-> <<>>, dyn |-> [seed |-> 3, b |-> 1, g |-> 2, d |-> 5, v |-> 1]] :
             g \in {<< <<24, 1>> >>, << <<48, 2>> >>, << <<24, 1>>, <<72, 1>> >>}, f \in {-1, 24, 48}, s \in 0..2, sv \in {<<>>, <<24>>, <<20, 48>>}}
VARIABLES p, x
vars == <<p, x>>
Init == p \in Requests /\ x = Start(p)
Try == \E o \in {0, 1, 3} : /\ Active(x) /\ x' = Attempt([p EXCEPT !.fails = [i \in 1..(x.natt + 1) |-> o]], x) /\ UNCHANGED p
Done == ~Active(x) /\ UNCHANGED vars
Next == Try \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Try)
Inv == Sane(p, x)
Ends == <>(~Active(x))
Remaining(L) == FoldLeft(LAMBDA a, b : a + b.e - b.s, 0, L.steps)
Covers == Active(x) => x.last + Remaining(x.list) = LET s == InitialSteps(p.segs, p.final) IN s[Len(s)].e
=============================================================================
