------------------------------ MODULE TensorsGen -------------------------------
(* Operands of the tensor operations: every pair of unit operands (which decides
   the bilinear operations), every position, and random operands. *)
EXTENDS Tensors, TLC, Json, IOUtils
NRAND == atoi(IOEnv.NRAND)
SEED == atoi(IOEnv.SEED)
R(n, t, m) == (LET a == (((n * 7919) + (t * 104729) + (SEED * 31)) % 46337)
                   b == ((a * a) + (n * 13) + t) % 46337
                   c == ((b * 4099) + t) % 46337
               IN (c * c) % 46337) % m
Rnd(n, t, len, w) == [i \in 1..len |-> R(n, t + i * 3, 2 * w + 1) - w]
Unit(len, i) == [j \in 1..len |-> IF i = j THEN 1 ELSE 0]
SymM(a, d) == LET f(i, j) == IF i <= j THEN At(a, d, i, j) ELSE At(a, d, j, i) IN Mat(d, f)
SymT(t, d) == LET f(i, j, k, l) == IF <<i, j>> = <<k, l>> \/ i < k \/ (i = k /\ j < l) THEN C4(t, d, i, j, k, l) ELSE C4(t, d, k, l, i, j) IN Ten(d, f)
C(op, d, x, k) == LET c == [op |-> op, d |-> d, x |-> x, k |-> k] IN [op |-> op, d |-> d, x |-> x, k |-> k, den |-> IF Refused(c) THEN 1 ELSE Den(c)]
D2 == {2, 3}
Bil == {"Kron", "Sup", "Inf", "Odot", "Inner"}
Tm == {"TM", "CTM", "MT", "CMT"}
One == {"Lin", "GtoF", "FtoG", "FtoC", "GtoC", "FtoB", "GtoB", "CtoE", "FtoE", "GtoE", "Dev", "Sph", "Mises", "DNorm", "J1", "J2", "To3", "To3One"}
Conv == {"PK1toPK2", "PK2toPK1", "PK1toCauchy", "CauchytoPK1", "CauchytoPK2", "PK2toCauchy"}
Sizes == {3, 4, 5, 6, 7, 9}
VARIABLE c
Init ==
    \/ \E op \in Bil, d \in D2 : \E i, j \in 1..(d * d) : c = C(op, d, <<Unit(d * d, i), Unit(d * d, j)>>, <<>>)
    \/ \E op \in {"KronV", "InnerV"}, d \in D2 : \E i, j \in 1..d : c = C(op, d, <<Unit(d, i), Unit(d, j)>>, <<>>)
    \/ \E op \in Tm : \E i \in 1..16, j \in 1..4 : c = C(op, 2, <<Unit(16, i), Unit(4, j)>>, <<>>)
    \/ \E op \in {"TM", "MT"} : \E i \in 1..81, j \in 1..9 : c = C(op, 3, <<Unit(81, i), Unit(9, j)>>, <<>>)
    \/ \E i, j \in 1..16 : c = C("TT", 2, <<Unit(16, i), Unit(16, j)>>, <<>>)
    \/ \E op \in {"I4", "IS4", "IxI"}, d \in D2 : c = C(op, d, <<>>, <<>>)
    \/ \E n \in 1..NRAND, d \in D2 :
        \/ \E op \in Bil : c = C(op, d, <<Rnd(n, 1, d * d, 5), Rnd(n, 40, d * d, 5)>>, <<>>)
        \/ \E op \in {"KronV", "InnerV"} : c = C(op, d, <<Rnd(n, 2, d, 9), Rnd(n, 41, d, 9)>>, <<>>)
        \/ \E op \in Tm : c = C(op, d, <<Rnd(n, 3, d * d * d * d, 5), Rnd(n, 300, d * d, 5)>>, <<>>)
        \/ c = C("TT", d, <<Rnd(n, 4, d * d * d * d, 5), Rnd(n, 300, d * d * d * d, 5)>>, <<>>)
        \/ \E i, j \in 1..d : n <= 3 /\ c = C("TMone", d, <<Rnd(n, 5, d * d * d * d, 9), Rnd(n, 300, d * d, 9)>>, <<i, j>>)
        \/ c = C("Transp", d, <<Rnd(n, 6, d * d * d * d, 9)>>, <<>>)
        \/ \E i, j, k, l \in 0..(d + 1) : (n = 1 \/ (n = 2 /\ {i, j, k, l} \subseteq 1..d))
                                       /\ c = C(IF n = 1 THEN "Get" ELSE "Set", d, <<Rnd(n, 7, d * d * d * d, 9)>>, <<i, j, k, l, 77>>)
        \/ \E i \in 1..4, b \in {0, d + 1} : n = 3 /\ c = C("Set", d, <<Rnd(n, 7, d * d * d * d, 9)>>, [q \in 1..5 |-> IF q = i THEN b ELSE 1])
        \/ \E op \in One : LET a == Rnd(n, 8, d * d, 6) IN c = C(op, d, <<IF op = "DNorm" /\ Den([op |-> op, d |-> d, x |-> <<a>>, k |-> <<>>]) = 0 THEN Unit(d * d, 2) ELSE a>>, <<>>)
        \/ \E op \in Conv : LET f == Rnd(n, 9, d * d, 4) IN c = C(op, d, <<Rnd(n, 50, d * d, 9), IF Det(f, d) = 0 THEN Times(2, Id(d)) ELSE f>>, <<>>)
        \/ c = C("To2", d, <<Rnd(n, 10, 9, 9)>>, <<>>)
        \/ c = C("Ten2", d, <<Rnd(n, 11, 81, 9)>>, <<>>)
        \/ c = C("Mandel", d, <<Rnd(n, 12, d * d * d * d, 9)>>, <<>>)
        \/ d = 3 /\ c = C("CtoA", 3, <<SymT(Rnd(n, 13, 81, 5), 3), SymM(Rnd(n, 400, 9, 5), 3), Rnd(n, 500, 9, 3)>>, <<>>)
        \/ \E s \in Sizes : d = 3 /\ (\/ c = C("ToMgis", 3, <<SymM(Rnd(n, 14, 9, 9), 3)>>, <<s>>)
                                      \/ s \in {5, 9} /\ c = C("ToMgis", 3, <<Rnd(n, 15, 9, 9)>>, <<s>>)
                                      \/ c = C("FromMgis", 3, <<Rnd(n, 16, s, 9)>>, <<s>>)
                                      \/ c = C("TenFromMgis", 3, <<Rnd(n, 17, s * s, 9)>>, <<s>>))
Next == FALSE /\ c' = c
Spec == Init /\ [][Next]_c
Emit == PrintT("@@ " \o ToJson(c))
=============================================================================
