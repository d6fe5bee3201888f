---------------------------- MODULE ModelProblemsGen ----------------------------
(* Problems of every kind, dimension and pair of degrees, with random solutions of
   the largest degree that has to be found exactly. *)
EXTENDS ModelProblems, TLC, Json, IOUtils
NRAND == atoi(IOEnv.NRAND)
SEED == atoi(IOEnv.SEED)
KMAX == atoi(IOEnv.KMAX)
R(n, t, m) == (LET a == (((n * 7919) + (t * 104729) + (SEED * 31)) % 46337)
                   b == ((a * a) + (n * 13) + t) % 46337
                   c == ((b * 4099) + t) % 46337
               IN (c * c) % 46337) % m
Rnd(n, t, lo, hi) == lo + R(n, t, hi - lo + 1)
RPoly(n, t, d, deg) == LET E == SetToSortSeq(ExpsLe(d, deg), LAMBDA x, y : Key(x) < Key(y))
                           c(i) == LET v == Rnd(n, t + 5 * i, -2, 2) IN IF PSum(E[i]) = deg /\ v = 0 THEN 1 ELSE v
                       IN Collect([i \in DOMAIN E |-> <<c(i), E[i]>>])
Curl(d, A) == IF d = 2 THEN << Collect(PD(A[1], 2)), Collect(PNeg(PD(A[1], 1))) >> ELSE LET C == Curl3(A) IN [i \in 1..3 |-> Collect(C[i])]
U(kind, d, deg, n) == IF kind \in {"stokes", "stokessym"} THEN Curl(d, [i \in 1..(2 * d - 3) |-> RPoly(n, 100 * i, d, deg + 1)])
                      ELSE [i \in 1..NComps(kind, d) |-> RPoly(n, 100 * i, d, deg)]
RK(n, d) == [i \in 1..d |-> [j \in 1..d |-> IF i = j THEN Rnd(n, 11 * i, 3, 5) ELSE Rnd(n, 13 * (i + j), -1, 1)]]
Problem(kind, d, k, l, n) ==
    LET s == n * 641 + d * 97 + k * 31 + l * 7 IN
    [kind |-> kind, d |-> d, k |-> k, l |-> l, u |-> U(kind, d, Exactness(kind, k, l), s),
     p |-> IF kind \in {"stokes", "stokessym"} THEN RPoly(s, 7, d, k) ELSE <<>>,
     K |-> IF kind = "slapl" THEN [i \in 1..d |-> [j \in 1..d |-> IF i = j THEN 1 ELSE 0]] ELSE RK(s, d), la |-> Rnd(s, 3, 1, 4), mu |-> Rnd(s, 5, 1, 3), sides |-> Rnd(s, 17, 0, 63)]
VARIABLE b
Init == \E kind \in Kinds, d \in {2, 3}, n \in 1..NRAND : \E k \in 0..(IF d = 3 /\ KMAX > 2 THEN 2 ELSE KMAX), l \in {-1, 0, 1} :
            Allowed(kind, k, l) /\ b = Problem(kind, d, k, l, n)
Next == FALSE /\ UNCHANGED b
Spec == Init /\ [][Next]_b
Valid == IF Posed(b) THEN TRUE ELSE PrintT(<<"INVALID", b>>) /\ FALSE
(* conservation: 60^d times the integral of f over the unit cube is minus 60^d times the
   flux out of its sides (60 \div (a + 1) is exact for a <= 5) *)
Mom(ex, S) == FoldLeft(LAMBDA a, k : a * (IF k \in S THEN 60 \div (ex[k] + 1) ELSE 60), 1, [k \in DOMAIN ex |-> k])
Volume(p) == PSum([t \in DOMAIN p |-> p[t][1] * Mom(p[t][2], DOMAIN p[t][2])])
Through(p, k) == PSum([t \in DOMAIN p |-> IF p[t][2][k] = 0 THEN 0 ELSE p[t][1] * Mom(p[t][2], DOMAIN p[t][2] \ {k})])
Conserved == LET F == Flux(b)  f == Source(b) IN
    IF \A i \in DOMAIN f : Volume(f[i]) + PSum([k \in 1..b.d |-> Through(F[i][k], k)]) = 0 THEN TRUE ELSE PrintT(<<"NOT CONSERVED", b>>) /\ FALSE
(* angular momentum *)
Turning == b.kind \in {"elasticity", "stokessym"} => LET F == CollectM(Flux(b)) IN \A i, j \in 1..b.d : F[i][j] = F[j][i]
Emit == PrintT("@@ " \o ToJson(b @@ [f |-> Source(b), flux |-> CollectM(Flux(b))]))
=============================================================================
