-------------------------------- MODULE Tensors --------------------------------
(* Exact algebra of matrices and of fourth order tensors in two and three
   dimensions, as continuum mechanics needs them. A matrix is the sequence of its
   entries, row by row. The fourth order tensor A_ijkl is the d^2 x d^2 matrix whose
   block (i, j) has the entries (k, l). Want(c) is the value of operation c.op on the
   operands c.x, numerators over c.den; operations that involve square roots give
   the signed squares of the entries. *)
EXTENDS Integers, Sequences
At(a, d, i, j) == a[(i - 1) * d + j]
C4(a, d, i, j, k, l) == a[((i - 1) * d + k - 1) * d * d + (j - 1) * d + l]
Mat(d, f(_, _)) == [n \in 1..(d * d) |-> f(((n - 1) \div d) + 1, ((n - 1) % d) + 1)]
Ten(d, f(_, _, _, _)) == [n \in 1..(d * d * d * d) |-> LET r == (n - 1) \div (d * d)
                                                            c == (n - 1) % (d * d)
                                                        IN f((r \div d) + 1, (c \div d) + 1, (r % d) + 1, (c % d) + 1)]
Sum(d, g(_)) == IF d = 2 THEN g(1) + g(2) ELSE g(1) + g(2) + g(3)
Sum2(d, g(_, _)) == LET h(i) == LET q(j) == g(i, j) IN Sum(d, q) IN Sum(d, h)
Delta(i, j) == IF i = j THEN 1 ELSE 0
Sq(v) == IF v < 0 THEN -(v * v) ELSE v * v

Tr(a, d) == LET g(i) == At(a, d, i, i) IN Sum(d, g)
Mul(a, b, d) == LET f(i, j) == LET g(k) == At(a, d, i, k) * At(b, d, k, j) IN Sum(d, g) IN Mat(d, f)
Transp(a, d) == LET f(i, j) == At(a, d, j, i) IN Mat(d, f)
Plus(a, b) == [n \in DOMAIN a |-> a[n] + b[n]]
Minus(a, b) == [n \in DOMAIN a |-> a[n] - b[n]]
Times(s, a) == [n \in DOMAIN a |-> s * a[n]]
Id(d) == Mat(d, Delta)
Inner(a, b, d) == LET g(i, j) == At(a, d, i, j) * At(b, d, i, j) IN Sum2(d, g)
(* others of an index, in increasing order; cofactors and determinant *)
Lo(i) == IF i = 1 THEN 2 ELSE 1
Hi(i) == IF i = 3 THEN 2 ELSE 3
Cof(a, d) == LET f2(i, j) == (IF i = j THEN 1 ELSE -1) * At(a, 2, 3 - i, 3 - j)
                 f3(i, j) == (IF (i + j) % 2 = 0 THEN 1 ELSE -1) *
                             (At(a, 3, Lo(i), Lo(j)) * At(a, 3, Hi(i), Hi(j)) - At(a, 3, Lo(i), Hi(j)) * At(a, 3, Hi(i), Lo(j)))
             IN IF d = 2 THEN Mat(2, f2) ELSE Mat(3, f3)
Det(a, d) == LET c == Cof(a, d) g(j) == At(a, d, 1, j) * At(c, d, 1, j) IN Sum(d, g)
Adj(a, d) == Transp(Cof(a, d), d)
(* sign of the permutation (i, k, m), and the missing index *)
Eps(i, k) == IF i = k THEN 0 ELSE IF k - i \in {1, -2} THEN 1 ELSE -1
Third(i, k) == 6 - i - k

Kron(a, b, d) == LET f(i, j, k, l) == At(a, d, i, j) * At(b, d, k, l) IN Ten(d, f)
Sup(a, b, d) == LET f(i, j, k, l) == At(a, d, i, k) * At(b, d, j, l) IN Ten(d, f)
Inf(a, b, d) == LET f(i, j, k, l) == At(a, d, i, l) * At(b, d, j, k) IN Ten(d, f)
TM(t, a, d) == LET f(i, j) == LET g(k, l) == C4(t, d, i, j, k, l) * At(a, d, k, l) IN Sum2(d, g) IN Mat(d, f)
MT(a, t, d) == LET f(i, j) == LET g(k, l) == C4(t, d, k, l, i, j) * At(a, d, k, l) IN Sum2(d, g) IN Mat(d, f)
TT(s, t, d) == LET f(i, j, k, l) == LET g(p, q) == C4(s, d, i, j, p, q) * C4(t, d, p, q, k, l) IN Sum2(d, g) IN Ten(d, f)
TTransp(t, d) == LET f(i, j, k, l) == C4(t, d, k, l, i, j) IN Ten(d, f)
I4(d) == Sup(Id(d), Id(d), d)
Dev(a, d) == Minus(Times(d, a), Times(Tr(a, d), Id(d)))   \* over d

(* orders of the components of symmetric and other tensors of order two *)
SymOrd == << <<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<1, 3>>, <<2, 3>> >>
GenOrd == << <<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<1, 3>>, <<3, 1>>, <<2, 3>>, <<3, 2>> >>
Ord(n) == IF n \in {4, 6} THEN SubSeq(SymOrd, 1, n) ELSE SubSeq(GenOrd, 1, n)
IsSym(n) == n \in {4, 6}
(* the component at which <<i, j>> is stored, 0 if it is not *)
PosOf(n, i, j) == LET o == Ord(n)
                      m == {k \in 1..n : o[k] = <<i, j>> \/ (IsSym(n) /\ o[k] = <<j, i>>)}
                  IN IF m = {} THEN 0 ELSE CHOOSE k \in m : TRUE
Shear(n, k) == IF IsSym(n) /\ k > 3 THEN 2 ELSE 1

Op(c) ==
    LET d == c.d
        A == c.x[1]
        B == c.x[2]
        k == c.k
        F == c.x[2]
    IN
    CASE c.op = "Kron" -> Kron(A, B, d)
      [] c.op = "Sup" -> Sup(A, B, d)
      [] c.op = "Inf" -> Inf(A, B, d)
      [] c.op = "Odot" -> Plus(Sup(A, B, d), Inf(A, B, d))
      [] c.op = "Inner" -> <<Inner(A, B, d)>>
      [] c.op = "InnerV" -> <<LET g(i) == A[i] * B[i] IN Sum(d, g)>>
      [] c.op = "KronV" -> LET f(i, j) == A[i] * B[j] IN Mat(d, f)
      [] c.op \in {"TM", "CTM"} -> TM(A, B, d)
      [] c.op \in {"MT", "CMT"} -> MT(B, A, d)
      [] c.op = "TMone" -> LET f(i, j) == C4(A, d, i, j, k[1], k[2]) * At(B, d, k[1], k[2]) IN Mat(d, f)
      [] c.op = "TT" -> TT(A, B, d)
      [] c.op = "Transp" -> TTransp(A, d)
      [] c.op = "Get" -> <<C4(A, d, k[1], k[2], k[3], k[4])>>
      [] c.op = "Set" -> LET f(i, j, p, q) == IF <<i, j, p, q>> = <<k[1], k[2], k[3], k[4]>> THEN k[5] ELSE C4(A, d, i, j, p, q) IN Ten(d, f)
      [] c.op = "I4" -> I4(d)
      [] c.op = "IS4" -> Plus(I4(d), Inf(Id(d), Id(d), d))
      [] c.op = "IxI" -> Kron(Id(d), Id(d), d)
      [] c.op \in {"To3", "To3One"} -> LET f(i, j) == IF i <= d /\ j <= d THEN At(A, d, i, j) ELSE IF c.op = "To3One" THEN Delta(i, j) ELSE 0 IN Mat(3, f)
      [] c.op = "To2" -> LET f(i, j) == At(A, 3, i, j) IN Mat(d, f)
      [] c.op = "Ten2" -> LET f(i, j, p, q) == C4(A, 3, i, j, p, q) IN Ten(d, f)
      [] c.op = "Mandel" -> [n \in 1..36 |-> LET a == SymOrd[((n - 1) \div 6) + 1]
                                                 b == SymOrd[((n - 1) % 6) + 1]
                                             IN IF {a[1], a[2], b[1], b[2]} \subseteq 1..d
                                                THEN Sq(C4(A, d, a[1], a[2], b[1], b[2])) * Shear(6, ((n - 1) \div 6) + 1) * Shear(6, ((n - 1) % 6) + 1) ELSE 0]
      [] c.op = "CtoA" -> LET f(i, J, kk, L) == (LET g(m, n) == C4(A, 3, m, J, n, L) * At(c.x[3], 3, kk, n) * At(c.x[3], 3, i, m) IN Sum2(3, g))
                                                + Delta(i, kk) * At(B, 3, J, L) IN Ten(3, f)
      [] c.op = "ToMgis" -> [n \in 1..k[1] |-> Sq(At(A, 3, Ord(k[1])[n][1], Ord(k[1])[n][2])) * Shear(k[1], n)]
      [] c.op = "FromMgis" -> LET f(i, j) == LET q == PosOf(k[1], i, j) IN IF q = 0 THEN 0 ELSE Sq(A[q]) * (2 \div Shear(k[1], q)) IN Mat(3, f)
      [] c.op = "TenFromMgis" -> LET n == k[1]
                                     f(i, j, p, r) == LET a == PosOf(n, i, j) b == PosOf(n, p, r)
                                                      IN IF a = 0 \/ b = 0 THEN 0 ELSE Sq(A[(a - 1) * n + b]) * (2 \div Shear(n, a)) * (2 \div Shear(n, b))
                                 IN Ten(3, f)
      [] c.op = "Lin" -> Plus(A, Transp(A, d))
      [] c.op = "GtoF" -> Plus(A, Id(d))
      [] c.op = "FtoG" -> Minus(A, Id(d))
      [] c.op = "FtoC" -> Mul(Transp(A, d), A, d)
      [] c.op = "GtoC" -> LET G == Plus(A, Id(d)) IN Mul(Transp(G, d), G, d)
      [] c.op = "FtoB" -> Mul(A, Transp(A, d), d)
      [] c.op = "GtoB" -> LET G == Plus(A, Id(d)) IN Mul(G, Transp(G, d), d)
      [] c.op = "CtoE" -> Minus(A, Id(d))
      [] c.op = "FtoE" -> Minus(Mul(Transp(A, d), A, d), Id(d))
      [] c.op = "GtoE" -> LET G == Plus(A, Id(d)) IN Minus(Mul(Transp(G, d), G, d), Id(d))
      [] c.op = "PK1toPK2" -> Mul(Adj(F, d), A, d)
      [] c.op = "PK2toPK1" -> Mul(F, A, d)
      [] c.op = "PK1toCauchy" -> Mul(A, Transp(F, d), d)
      [] c.op = "CauchytoPK1" -> Mul(A, Cof(F, d), d)
      [] c.op = "CauchytoPK2" -> Mul(Mul(Adj(F, d), A, d), Cof(F, d), d)
      [] c.op = "PK2toCauchy" -> Mul(Mul(F, A, d), Transp(F, d), d)
      [] c.op = "Dev" -> Dev(A, d)
      [] c.op = "Sph" -> Times(Tr(A, d), Id(d))
      [] c.op = "Mises" -> <<3 * (d * Inner(A, A, d) - Tr(A, d) * Tr(A, d))>>
      [] c.op = "DNorm" -> LET D == Dev(A, d) IN [n \in DOMAIN D |-> Sq(D[n])]
      [] c.op = "J1" -> Cof(A, d)
      [] c.op = "J2" -> LET f2(i, j, p, q) == Eps(i, p) * Eps(j, q)
                            f3(i, j, p, q) == IF i = p \/ j = q THEN 0 ELSE Eps(i, p) * Eps(j, q) * At(A, 3, Third(i, p), Third(j, q))
                        IN IF d = 2 THEN Ten(2, f2) ELSE Ten(3, f3)
Den(c) == CASE c.op \in {"Odot", "IS4", "Lin", "CtoE", "FtoE", "GtoE"} -> 2
            [] c.op = "FromMgis" -> 2
            [] c.op = "TenFromMgis" -> 4
            [] c.op \in {"PK1toPK2", "PK1toCauchy", "CauchytoPK2", "PK2toCauchy"} -> Det(c.x[2], c.d)
            [] c.op \in {"Dev", "Sph"} -> c.d
            [] c.op = "Mises" -> 2 * c.d
            [] c.op = "DNorm" -> LET D == Dev(c.x[1], c.d) IN Inner(D, D, c.d)
            [] OTHER -> 1
(* indices and sizes that are refused *)
Refused(c) == CASE c.op = "Get" -> \E n \in 1..4 : c.k[n] \notin 1..c.d
                [] c.op = "Set" -> \E n \in 1..4 : c.k[n] \notin 1..c.d
                [] c.op \in {"ToMgis", "FromMgis"} -> c.k[1] \notin {4, 5, 6, 9}
                [] c.op = "TenFromMgis" -> c.k[1] \notin {4, 5, 6, 9}
                [] OTHER -> FALSE
=============================================================================
