---------------------------- MODULE BoundaryOpsGen ----------------------------
(* Histories of boundary condition declarations: all histories of two operations
   and pseudo-random histories of eight operations. Printed as "@@ json". *)
EXTENDS MeshDoc, Json, IOUtils
NRAND == atoi(IOEnv.NRAND)
SEED == atoi(IOEnv.SEED)
Ids == {0, 1, 7}
VTypes == 0..8
Adds == {[op |-> "add", k |-> "D", type |-> t, id |-> i, fun |-> 1] : t \in {0, 1, 2, 4, 8}, i \in Ids}
        \cup {[op |-> "add", k |-> "N", type |-> t, id |-> i, fun |-> 1] : t \in {9, 10}, i \in {0, 1}}
        \cup {[op |-> "add", k |-> "R", type |-> t, id |-> i, fun |-> 1] : t \in {11}, i \in {0, 1}}
        \cup {[op |-> "add", k |-> "C", type |-> t, id |-> i, fun |-> f] : t \in {13, 15}, i \in {0, 1}, f \in {0, 1}}
Ops == Adds \cup {[op |-> "all"], [op |-> "factor", v |-> 3]}
KindOf == <<"D", "N", "R", "C", "D", "C">>
TypesOf == [D |-> <<0, 1, 2, 3, 4, 5, 6, 7, 8, 0>>, N |-> <<9, 10>>, R |-> <<11, 12>>, C |-> <<13, 14, 15, 16>>]
RandOp(seed, n) ==
    LET r(t, k) == Rand(seed, 50 * n + t, k)
        kind == KindOf[r(1, 6) + 1]
    IN IF r(2, 9) = 0 THEN [op |-> "all"]
       ELSE IF r(3, 6) = 0 THEN [op |-> "factor", v |-> r(4, 7) - 3]
       ELSE [op |-> "add", k |-> kind, type |-> TypesOf[kind][r(5, Len(TypesOf[kind])) + 1], id |-> r(6, 14),
             fun |-> IF kind = "C" THEN r(7, 2) ELSE 1]
VARIABLE hist
Init == \/ \E a \in Ops : \E b \in Ops : hist = [kind |-> "pair", ops |-> <<a, b>>]
        \/ \E n \in 1..NRAND : hist = [kind |-> "random", ops |-> [j \in 1..8 |-> RandOp(SEED * 1000 + n, j)]]
Next == FALSE /\ hist' = hist
Spec == Init /\ [][Next]_hist
Emit == PrintT("@@ " \o ToJson(hist))
=============================================================================
