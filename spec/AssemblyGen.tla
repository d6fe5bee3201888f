----------------------------- MODULE AssemblyGen -----------------------------
(* Configurations of the assembly histories: assembler, degrees, declarations of
   boundary conditions (slot k is the k-th boundary number of the mesh). *)
EXTENDS MeshDoc, Json, IOUtils
NRAND == atoi(IOEnv.NRAND)
SEED == atoi(IOEnv.SEED)
Asms == {"diff0", "diff", "primal", "basic0", "basicD", "stokes", "stokesalg", "dg", "dgeig"}
Slots(a, n) ==
    LET r(t, k) == Rand(SEED * 977 + n, 20 * t + 3, k)
        one(s) == LET x == r(s, 9) IN
                  IF x <= 3 THEN <<"D">> ELSE IF x = 4 THEN <<"N">> ELSE IF x = 5 THEN <<"R">>
                  ELSE IF x = 6 /\ r(s + 50, 3) = 0 THEN <<"D", "N">> ELSE IF x = 7 /\ r(s + 50, 3) = 0 THEN <<"N", "R">>
                  ELSE IF x = 8 /\ r(s + 50, 3) = 0 THEN <<"R", "D">> ELSE <<>>
    IN [s \in 1..6 |-> IF r(9, 12) = 0 THEN <<"D">> ELSE IF r(9, 12) = 1 THEN <<>> ELSE one(s)]
VARIABLE cfg
Init == \E a \in Asms : \E n \in 1..NRAND :
            cfg = [asm |-> a, fdeg |-> n % 2, cdeg |-> (n \div 2) % 2, slots |-> Slots(a, n), cycles |-> 1 + (Rand(SEED + n, 5, 3) \div 2), seed |-> n]
Next == FALSE /\ cfg' = cfg
Spec == Init /\ [][Next]_cfg
Emit == PrintT("@@ " \o ToJson(cfg))
=============================================================================
