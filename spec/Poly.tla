--------------------------------- MODULE Poly --------------------------------
(* Exact calculus of polynomials in d variables with integer coefficients.
   A polynomial is a sequence of terms <<coefficient, exponents>>; a field is a
   sequence of polynomials (its components; a matrix field row by row). *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions
PSum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Pw(x, e) == IF e = 0 THEN 1 ELSE x ^ e
MonoVal(e, x) == CASE Len(e) = 1 -> Pw(x[1], e[1]) [] Len(e) = 2 -> Pw(x[1], e[1]) * Pw(x[2], e[2])
                   [] Len(e) = 3 -> Pw(x[1], e[1]) * Pw(x[2], e[2]) * Pw(x[3], e[3])
PVal(p, x) == FoldLeft(LAMBDA a, t : a + t[1] * MonoVal(t[2], x), 0, p)
PZero == <<>>
PMono(e) == << <<1, e>> >>
Unit(d, k) == [j \in 1..d |-> IF j = k THEN 1 ELSE 0]
PVar(d, k) == PMono(Unit(d, k))
PAdd(p, q) == p \o q
PScale(c, p) == [t \in DOMAIN p |-> <<c * p[t][1], p[t][2]>>]
PMul(p, q) == FlattenSeq([t \in DOMAIN p |-> [u \in DOMAIN q |-> <<p[t][1] * q[u][1], [k \in DOMAIN p[t][2] |-> p[t][2][k] + q[u][2][k]]>>]])
(* derivative in the direction k *)
PD(p, k) == LET keep == SelectSeq(p, LAMBDA t : t[2][k] > 0) IN
            [t \in DOMAIN keep |-> <<keep[t][1] * keep[t][2][k], [keep[t][2] EXCEPT ![k] = @ - 1]>>]
FVal(F, x) == [i \in DOMAIN F |-> PVal(F[i], x)]
Grad(p, d) == [k \in 1..d |-> PD(p, k)]
Jac(F, d) == FlattenSeq([i \in DOMAIN F |-> Grad(F[i], d)])
SymGrad2(F, d) == FlattenSeq([i \in 1..d |-> [j \in 1..d |-> PAdd(PD(F[i], j), PD(F[j], i))]])
Div(F, d) == << FlattenSeq([k \in 1..d |-> PD(F[k], k)]) >>
PNeg(p) == PScale(-1, p)
Curl2(F) == << PAdd(PD(F[2], 1), PNeg(PD(F[1], 2))) >>
Curl3(F) == << PAdd(PD(F[3], 2), PNeg(PD(F[2], 3))), PAdd(PD(F[1], 3), PNeg(PD(F[3], 1))), PAdd(PD(F[2], 1), PNeg(PD(F[1], 2))) >>
Lapl(p, d) == FlattenSeq([k \in 1..d |-> PD(PD(p, k), k)])
(* exponents of total degree n / at most n, in d variables *)
ExpsEq(d, n) == {e \in [1..d -> 0..n] : PSum(e) = n}
ExpsLe(d, n) == {e \in [1..d -> 0..n] : PSum(e) <= n}
(* dimension of the polynomials of degree at most k in d variables *)
DimP(k, d) == CASE d = 0 -> 1 [] d = 1 -> k + 1 [] d = 2 -> ((k + 1) * (k + 2)) \div 2 [] d = 3 -> ((k + 1) * (k + 2) * (k + 3)) \div 6
(* index tuples of the simplicial lattice of order n with r directions *)
Lattice(r, n) ==
    CASE r = 0 -> << <<>> >>
      [] r = 1 -> [i \in 1..(n + 1) |-> <<i - 1>>]
      [] r = 2 -> FlattenSeq([i \in 1..(n + 1) |-> [j \in 1..(n + 2 - i) |-> <<i - 1, j - 1>>]])
      [] r = 3 -> FlattenSeq([i \in 1..(n + 1) |-> FlattenSeq([j \in 1..(n + 2 - i) |-> [k \in 1..(n + 3 - i - j) |-> <<i - 1, j - 1, k - 1>>]])])
(* point p0 + sum of idx_r * dirs_r *)
At(p0, dirs, idx) == [k \in DOMAIN p0 |-> p0[k] + PSum([r \in DOMAIN dirs |-> idx[r] * dirs[r][k]])]
=============================================================================
