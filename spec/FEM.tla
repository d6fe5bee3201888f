---------------------------------- MODULE FEM ---------------------------------
(* First order conforming finite elements on a triangle with integer vertices
   P[1..3], in either orientation. Det is twice the signed area; everything is
   cleared of denominators. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
LOCAL S2(a, b) == <<a[1] - b[1], a[2] - b[2]>>
LOCAL X2(u, v) == u[1] * v[2] - u[2] * v[1]
LOCAL D2(u, v) == u[1] * v[1] + u[2] * v[2]
LOCAL Plus(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
LOCAL Nx(i) == (i % 3) + 1
LOCAL Pv(i) == ((i + 1) % 3) + 1
FDet(P) == X2(S2(P[2], P[1]), S2(P[3], P[1]))
FAbs(P) == IF FDet(P) < 0 THEN -FDet(P) ELSE FDet(P)
(* Det times the value at x of the i-th shape function: twice the signed area of the
   triangle where x has taken the place of the i-th vertex *)
Shape(P, i, x) == FDet([P EXCEPT ![i] = x])
(* Det times its gradient: the opposite side turned by a quarter *)
Slope(P, i) == LET d == S2(P[Pv(i)], P[Nx(i)]) IN <<-d[2], d[1]>>
(* 24 times the mass over |Det| *)
FMass == [i \in 1..3 |-> [j \in 1..3 |-> IF i = j THEN 2 ELSE 1]]
FMul(K, u) == <<D2(K[1], u), D2(K[2], u)>>
(* 2 |Det| times the stiffness with diffusion K *)
Stiffness(P, K) == [i \in 1..3 |-> [j \in 1..3 |-> D2(Slope(P, i), FMul(K, Slope(P, j)))]]
(* 18 / |Det| times the load of an affine source a + b.x: its value at the
   barycentre shared evenly *)
Load(P, a, b) == [i \in 1..3 |-> 3 * a + Plus([v \in 1..3 |-> D2(b, P[v])])]
(* ---- what makes these the ones of the method ---- *)
Dual(P) == \A i, j \in 1..3 : Shape(P, i, P[j]) = IF i = j THEN FDet(P) ELSE 0
Unity(P, x) == Plus([i \in 1..3 |-> Shape(P, i, x)]) = FDet(P)
Linear(P, x) == \A k \in 1..2 : Plus([i \in 1..3 |-> P[i][k] * Shape(P, i, x)]) = FDet(P) * x[k]
Differential(P, x, y) == \A i \in 1..3 : Shape(P, i, y) - Shape(P, i, x) = D2(Slope(P, i), S2(y, x))
(* mass: the three midpoints integrate quadratics. Values at twice the midpoints *)
Mid2(P, i, k) == Shape([v \in 1..3 |-> <<2 * P[v][1], 2 * P[v][2]>>], i, <<P[k][1] + P[Nx(k)][1], P[k][2] + P[Nx(k)][2]>>)
MassOk(P) == \A i, j \in 1..3 : Plus([k \in 1..3 |-> Mid2(P, i, k) * Mid2(P, j, k)]) = FMass[i][j] * 4 * FDet(P) * FDet(P)
KernelOk(P, K) == \A i \in 1..3 : Plus(Stiffness(P, K)[i]) = 0
(* affine functions: the flux through the sides from the stiffness *)
FluxOk(P, K, b) == \A i \in 1..3 : Plus([j \in 1..3 |-> Stiffness(P, K)[i][j] * D2(b, P[j])]) = FDet(P) * D2(Slope(P, i), FMul(K, b))
=============================================================================
