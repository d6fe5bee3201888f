------------------------------ MODULE Condensation ----------------------------
(* Static condensation: elimination of the first t unknowns of a linear system
   with exact integer arithmetic. The block of the eliminated unknowns is given
   as L L^T with L unit lower triangular, so its inverse is made of integers. *)
EXTENDS Integers, Sequences, SequencesExt, TLC
Rows(A) == Len(A)
Dot(u, v) == FoldLeft(LAMBDA acc, k : acc + u[k] * v[k], 0, [k \in DOMAIN u |-> k])
Col(A, j) == [i \in DOMAIN A |-> A[i][j]]
Tr(A, nc) == [j \in 1..nc |-> Col(A, j)]
MulV(A, x) == [i \in DOMAIN A |-> Dot(A[i], x)]
(* A B, B with nc columns *)
Mul(A, B, nc) == LET T == TLCEval(Tr(B, nc)) IN [i \in DOMAIN A |-> [j \in 1..nc |-> Dot(A[i], T[j])]]
Block(A, r0, r1, c0, c1) == [i \in 1..(r1 - r0) |-> SubSeq(A[r0 + i], c0 + 1, c1)]
SubV(a, b) == [i \in DOMAIN a |-> a[i] - b[i]]
SubM(A, B) == [i \in DOMAIN A |-> SubV(A[i], B[i])]
Cat(a, b) == a \o b
UnitLower(L) == \A i \in DOMAIN L : Len(L[i]) = Len(L) /\ L[i][i] = 1 /\ \A j \in (i + 1)..Len(L) : L[i][j] = 0
Sym(A) == \A i \in DOMAIN A : \A j \in 1..(i - 1) : A[i][j] = A[j][i]
(* L y = b, then L^T x = y *)
Iota(n) == [i \in 1..n |-> i]
Fwd(L, b) == FoldLeft(LAMBDA y, i : Append(y, b[i] - Dot(SubSeq(L[i], 1, i - 1), y)), <<>>, Iota(Len(L)))
Bwd(L, y) == LET n == Len(L) IN
    FoldLeft(LAMBDA x, k : LET i == n + 1 - k IN <<y[i] - Dot(Col(SubSeq(L, i + 1, n), i), x)>> \o x, <<>>, Iota(n))
SolveT(L, b) == Bwd(L, Fwd(L, b))
(* right hand sides given for the eliminated unknowns only are completed by zeros *)
Full(b, n) == b \o [i \in 1..(n - Len(b)) |-> 0]
Cond(L, A, b) ==
    LET t == Len(L)  n == Len(A)  f == n - t
        ktf == Block(A, 0, t, t, n)  kft == Block(A, t, n, 0, t)  kff == Block(A, t, n, t, n)
        X == IF t = 0 THEN <<>> ELSE Tr([j \in 1..f |-> SolveT(L, Col(ktf, j))], t)
        bb == Full(b, n)
        y == SolveT(L, SubSeq(bb, 1, t))
    IN [X |-> X, y |-> y, A |-> SubM(kff, Mul(kft, X, f)), b |-> SubV(SubSeq(bb, t + 1, n), MulV(kft, y))]
(* the eliminated unknowns from the others *)
Expand(c, xF) == [i \in DOMAIN c.y |-> c.y[i] - Dot(c.X[i], xF)] \o xF
(* what makes it right: the equations of the whole system *)
Solves(A, b, x, rows) == \A i \in rows : Dot(A[i], x) = b[i]
=============================================================================
