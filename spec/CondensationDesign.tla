--------------------------- MODULE CondensationDesign -------------------------
(* For every small system the condensed system, completed by the expansion, has
   exactly the solutions of the whole system. *)
EXTENDS Condensation, TLC
CONSTANT B
VARIABLES L, A, b, xF
E == (-B)..B
vars == <<L, A, b, xF>>
Ls == {<<<<1>>>>} \cup {<<<<1, 0>>, <<q, 1>>>> : q \in E}
Init == /\ L \in Ls
        /\ LET t == Len(L)  K == Mul(L, Tr(L, t), t) IN
           \E u \in [1..t -> E], v \in [1..t -> E], d \in E :
              A = [i \in 1..(t + 1) |-> [j \in 1..(t + 1) |-> IF i <= t /\ j <= t THEN K[i][j] ELSE IF i <= t THEN u[i] ELSE IF j <= t THEN v[j] ELSE d]]
        /\ b \in [1..Len(A) -> E] /\ xF \in {<<q>> : q \in (-B - 1)..(B + 1)}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
C == Cond(L, A, b)
t == Len(L)
Equivalent == LET x == Expand(C, xF) IN
              /\ Solves(A, b, x, 1..t)
              /\ Solves(A, b, x, 1..Len(A)) <=> Solves(C.A, C.b, xF, {1})
(* nothing else solves the first equations *)
Unique == \A z \in [1..t -> (-3)..3] : Solves(A, b, z \o xF, 1..t) => z \o xF = Expand(C, xF)
=============================================================================
