------------------------- MODULE TimeSteppingTrace ---------------------------
(* Recorded computations of the nonlinear mechanics solver against module
   TimeStepping: which steps are attempted, what is saved and when, with which
   values, how the computation ends; the list of steps, the files of parameters
   and the stabilization coefficients. *)
EXTENDS TimeStepping, TraceLib
P == INSTANCE Poly
VARIABLES l, p, x, L, S, todo
vars == <<l, p, x, L, S, todo>>
None == [none |-> TRUE]
Init == l = 1 /\ p = None /\ x = None /\ L = None /\ S = None /\ todo = <<>>
Is(ev) == l <= Len(Trace) /\ Trace[l].ev = ev /\ l' = l + 1
e == Trace[l]
ViewNames == <<"depl_disc", "depl_cont", "CauchyStress_GP", "CauchyStress_GP_def", "deformed_disc", "plastic_GP", "stabCoeff", "equivalentPlasticStrain_GP">>

Run == /\ Is("Run") /\ p' = e.p /\ x' = Start(e.p) /\ todo' = <<>> /\ UNCHANGED <<L, S>>
(* unknowns of the faces; the cells are eliminated *)
Dofs == /\ Is("Dofs")
        /\ Holds(l, [dofs |-> e.n = Trace[l - 1].faces * p.dim * P!DimP(p.k, p.dim - 1)])
        /\ UNCHANGED <<p, x, L, S, todo>>
Try == /\ Is("Attempt")
       /\ Holds(l, [views |-> todo = <<>>, active |-> Active(x), time |-> IF Active(x) THEN e.e = Current(x).e ELSE FALSE])
       /\ LET y == Attempt(p, x) IN x' = y /\ todo' = (IF y.pend >= 0 /\ y.conv THEN ViewNames ELSE <<>>)
       /\ UNCHANGED <<p, L, S>>
View_ == /\ Is("View")
         /\ Holds(l, [expected |-> todo # <<>> , name |-> IF todo = <<>> THEN FALSE ELSE e.view = Head(todo), time |-> e.t = x.last,
                       count |-> e.n = e.want /\ e.n > 0, values |-> e.err = 0])
         /\ todo' = Tail(todo) /\ UNCHANGED <<p, x, L, S>>
Finished == /\ Is("Finished")
            /\ Holds(l, [views |-> todo = <<>>, ended |-> ~Active(x), conv |-> e.conv = x.conv,
                          nstep |-> e.nstep = Len(x.list.steps) + x.list.done,
                          iters |-> IF p.mode \in {0, 2} THEN e.iters >= x.iters /\ e.iters <= x.iters + x.list.done ELSE e.iters >= x.list.done,
                          l2 |-> e.l2 = 25, h1 |-> e.h1 = (IF p.law[1] = 0 THEN 3 ELSE 5), printed |-> e.printed])
            /\ UNCHANGED <<p, x, L, S, todo>>

(* ---- the list of steps ---- *)
SameList(M) == LET n == Len(M.steps) IN
    [empty |-> e.empty = (n = 0), total |-> e.total = n + M.done, left |-> e.left = n, done |-> e.done = M.done, index |-> e.index = M.done + 1,
     cur |-> e.cur = (IF n = 0 THEN <<>> ELSE LET c == Head(M.steps) IN <<c.s, c.e, c.lev, c.e - c.s>>)]
LNew == /\ Is("LNew") /\ LET M == NewList(e.segs, e.final) IN Holds(l, SameList(M)) /\ L' = M
        /\ UNCHANGED <<p, x, S, todo>>
LOp == /\ Is("LOp") /\ LET M == IF e.op = 0 THEN RemoveCurrent(L) ELSE SplitCurrent(L) IN Holds(l, SameList(M)) /\ L' = M
       /\ UNCHANGED <<p, x, S, todo>>

(* ---- parameters: what was read before a defect of the file is kept ---- *)
Params == /\ Is("Params")
          /\ LET want == ParamsOf(IF e.end \in {3, 4} THEN <<>> ELSE e.kvs) IN
             Holds(l, [k \in DOMAIN want \cup {"ok"} |-> IF k = "ok" THEN e.ok = (e.end = 0) ELSE e.got[k] = want[k]])
          /\ UNCHANGED <<p, x, L, S, todo>>
SetAll == Is("Set") /\ Holds(l, [set |-> e.got = <<3, 4, 5, 5, 1, 1, 1, 1, 2, 7, 1>>]) /\ UNCHANGED <<p, x, L, S, todo>>

(* ---- stabilization coefficients ---- *)
SNew == Is("SNew") /\ LET T == NewStab(Len(e.vals), e.v) IN Holds(l, [vals |-> e.vals = T.cur]) /\ S' = T /\ UNCHANGED <<p, x, L, todo>>
SOp == Is("SOp") /\ LET T == StabOp(S, e.op) IN Holds(l, [vals |-> e.vals = T.cur]) /\ S' = T /\ UNCHANGED <<p, x, L, todo>>
End == Is("End") /\ UNCHANGED <<p, x, L, S, todo>>
Next == Run \/ Dofs \/ Try \/ View_ \/ Finished \/ LNew \/ LOp \/ Params \/ SetAll \/ SNew \/ SOp \/ End
Spec == Init /\ [][Next]_vars
View == l
=============================================================================
