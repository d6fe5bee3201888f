---------------------------- MODULE FoundationsGen ----------------------------
(* Inputs: all pairs of small rationals, chains of operations, histories of the
   registry of degrees, points, files. Printed as "@@ json".  Checks on all
   generated numbers that the arithmetic of the specification is a field and
   that every chain stays in the range of 32 bits. *)
EXTENDS Foundations, MeshDoc, Json, IOUtils
NRAND == atoi(IOEnv.NRAND)
SEED == atoi(IOEnv.SEED)
Nums == -4..4
Dens == {1, 2, 3, 4, 6, -3}
OpN == <<"add", "sub", "mul", "div", "muli", "divi", "neg", "abs", "inv">>
Chain(n) ==
    LET r(t, k) == Rand(SEED * 1000 + n, t, k)
        st(j) == LET op == OpN[r(10 * j, 9) + 1] nn == r(10 * j + 1, 13) - 6 IN
            [op |-> op, b |-> <<IF op \in {"div", "divi"} /\ nn = 0 THEN 5 ELSE nn,
                                IF op \in {"muli", "divi"} THEN 1 ELSE r(10 * j + 2, 5) + 1>>]
    IN [kind |-> "chain", a |-> <<r(1, 13) - 6, r(2, 5) + 1>>, steps |-> [j \in 1..4 |-> st(j)]]
RegOps == <<"celldeg", "facedeg", "cellhas", "facehas", "cellinfo", "faceinfo", "copy", "swap", "new">>
History(n) ==
    LET r(t, k) == Rand(SEED * 1000 + n + 500000, t, k)
        v(j) == <<r(20 * j + 3, 4), r(20 * j + 4, 4), r(20 * j + 5, 4)>>
    IN [kind |-> "degrees", ops |-> <<[op |-> "new", k |-> n % 4, i |-> 0, v |-> v(0)]>> \o
        [j \in 1..8 |-> [op |-> RegOps[IF j < 8 THEN r(20 * j, 8) + 1 ELSE r(20 * j, 9) + 1], k |-> r(20 * j + 1, 4), i |-> r(20 * j + 2, 60), v |-> v(j)]]]
Pts(n) == LET r(t) == Rand(SEED * 1000 + n + 900000, t, 19) - 9 IN
          [kind |-> "points", p |-> <<r(1), r(2), r(3)>>, q |-> <<r(4), r(5), r(6)>>, s |-> IF r(7) = 0 THEN 2 ELSE r(7)]
File(n) == LET r(t, k) == Rand(SEED * 1000 + n + 700000, t, k) IN
           [kind |-> "file", lens |-> [i \in 1..r(1, 6) |-> r(10 + i, 7) * r(30 + i, 3)], tail |-> IF r(3, 2) = 0 /\ r(1, 6) > 0 THEN 0 ELSE r(2, 5) + 1]
VARIABLE h
Init == \/ \E a \in Nums : \E d \in Dens : \E b \in Nums : \E f \in Dens : h = [kind |-> "pair", a |-> <<a, d>>, b |-> <<b, f>>]
        \/ \E n \in 1..(10 * NRAND) : h = Chain(n)
        \/ \E n \in 1..NRAND : h = History(n)
        \/ \E n \in 1..NRAND : h = Pts(n)
        \/ \E n \in 1..NRAND : h = File(n)
Next == FALSE /\ h' = h
Spec == Init /\ [][Next]_h
Field == h.kind = "pair" =>
    LET a == Norm(h.a[1], h.a[2]) b == Norm(h.b[1], h.b[2]) IN
    /\ a[2] > 0 /\ Gcd(a[1], a[2]) = 1
    /\ Sub(Add(a, b), b) = a /\ (b[1] # 0 => Div(Mul(a, b), b) = a)
    /\ Add(a, b) = Add(b, a) /\ Mul(a, Add(a, b)) = Add(Mul(a, a), Mul(a, b))
    /\ Cardinality({x \in {1, 2, 3} : CASE x = 1 -> Less(a, b) [] x = 2 -> Less(b, a) [] x = 3 -> a = b}) = 1
    /\ (Less(a, b) => Less(Neg(b), Neg(a)))
Emit == PrintT("@@ " \o ToJson(h))
=============================================================================
