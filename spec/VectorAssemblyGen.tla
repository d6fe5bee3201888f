-------------------------- MODULE VectorAssemblyGen --------------------------
(* Configurations of the histories of the assemblers of vector unknowns. A slot
   is the list of declarations on the k-th boundary number of the mesh: a
   Dirichlet type (all the components, clamped, one or two components), a
   Neumann condition, a contact condition with face or cell unknowns. *)
EXTENDS MeshDoc, Json, IOUtils
NRAND == atoi(IOEnv.NRAND)
SEED == atoi(IOEnv.SEED)
Asms == {"mech", "primal", "primalM", "nlmech", "nlmechM"}
Dir == <<"D", "c", "x", "y", "z", "p", "q", "r">>
Slots(n) ==
    LET r(t, k) == Rand(SEED * 769 + n, 20 * t + 3, k)
        d(s) == IF r(s, 2) = 0 THEN << Dir[1 + ((r(s + 10, 8) + n + 3 * s) % 8)] >> ELSE <<>>
        nm(s) == IF d(s) = <<>> THEN r(s + 20, 3) = 0
                 ELSE IF d(s)[1] \in {"D", "c"} THEN r(s + 20, 14) = 0 ELSE r(s + 20, 2) = 0
        ct(s) == IF d(s) = <<>> THEN (IF r(s + 30, 4) = 0 THEN <<"F">> ELSE IF r(s + 30, 25) = 1 THEN <<"G">> ELSE <<>>) ELSE <<>>
        one(s) == IF r(s + 40, 2) = 0 THEN d(s) \o (IF nm(s) THEN <<"N">> ELSE <<>>) \o ct(s)
                  ELSE (IF nm(s) THEN <<"N">> ELSE <<>>) \o ct(s) \o d(s)
    IN [s \in 1..6 |-> one(s)]
VARIABLE cfg
Init == \E a \in Asms : \E n \in 1..NRAND :
            cfg = [asm |-> a, fdeg |-> (IF Rand(SEED + n, 9, 8) = 0 THEN 2 ELSE n % 2), nl |-> Rand(SEED + n, 7, 2), slots |-> Slots(n),
                   cycles |-> 1 + (Rand(SEED + n, 5, 3) \div 2), seed |-> n]
Next == FALSE /\ cfg' = cfg
Spec == Init /\ [][Next]_cfg
Emit == PrintT("@@ " \o ToJson(cfg))
=============================================================================
