--------------------------------- MODULE Contact --------------------------------
(* Contact of an elastic body with the rigid half space {x_d < 0} (d the last
   coordinate), with or without friction, in Nitsche's form.

   The law at a point of the contact face with outward normal n, traction sigma.n,
   displacement u and gap g0 to the obstacle along n, for any gamma > 0:

     unilateral contact  u.n <= g0, s_n <= 0, s_n (u.n - g0) = 0
                 <=>     s_n = min(0, s_n - gamma (u.n - g0))
     friction with bound a   |s_t| <= a, and s_t = -a u_t / |u_t| when u_t # 0
                 <=>     s_t = the projection of s_t - gamma u_t on the ball of radius a

   so that the residual of a cell against a test displacement v is
     - theta/gamma (s(u)n, s(v)n)  +  1/gamma (min(0, phi_n(u)), theta s_n(v) - gamma v.n)
                                   +  1/gamma (proj(phi_t(u)), theta s_t(v) - gamma v_t)
   and the tangent is its derivative.  All of it is written here in integers for affine
   displacements in the units of the mesh (u = c + A x), a face with vertices X and a
   normal N (not normalised), and gamma = g / |N|. *)
EXTENDS Integers, Sequences, SequencesExt

CAbs(x) == IF x < 0 THEN -x ELSE x
CSum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
CDot(u, v) == CSum([k \in 1..Len(u) |-> u[k] * v[k]])
CMul(A, x) == [i \in 1..Len(x) |-> CDot(A[i], x)]
CPlus(u, v) == [i \in 1..Len(u) |-> u[i] + v[i]]
CTimes(k, u) == [i \in 1..Len(u) |-> k * u[i]]
Trace1(A) == CSum([k \in 1..Len(A) |-> A[k][k]])
Hooke(A, la, mu) == [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> mu * (A[i][j] + A[j][i]) + (IF i = j THEN la * Trace1(A) ELSE 0)]]
Affine(f, x) == CPlus(f.c, CMul(f.A, x))

(* --- the law at a point, in one tangential direction ------------------------------- *)
Min0(x) == IF x < 0 THEN x ELSE 0
Clamp(x, a) == IF x > a THEN a ELSE IF x < -a THEN -a ELSE x
Unilateral(s, u, g) == u <= g /\ s <= 0 /\ s * (u - g) = 0
NitscheN(s, u, g, gam) == s = Min0(s - gam * (u - g))
Friction(s, u, a) == CAbs(s) <= a /\ (u > 0 => s = -a) /\ (u < 0 => s = a)
NitscheT(s, u, a, gam) == s = Clamp(s - gam * u, a)

(* --- integrals over a face ------------------------------------------------------------
   12 (triangles, parallelograms) or 6 (edges) times the mean of the product of two affine
   functions given at the vertices *)
Weight(f) == IF Len(f) = 2 THEN 6 ELSE 12
Mean(f, g) ==
    CASE Len(f) = 2 -> f[1] * g[1] + f[2] * g[2] + (f[1] + f[2]) * (g[1] + g[2])
      [] Len(f) = 3 -> CSum(f) * CSum(g) + f[1] * g[1] + f[2] * g[2] + f[3] * g[3]
      [] Len(f) = 4 -> 3 * (f[1] + f[3]) * (g[1] + g[3]) + (f[2] - f[1]) * (g[2] - g[1]) + (f[4] - f[1]) * (g[4] - g[1])
Parallelogram(X) == Len(X) # 4 \/ CPlus(X[1], X[3]) = CPlus(X[2], X[4])

(* --- a contact face -------------------------------------------------------------------
   p = [N, X, la, mu, g, theta, face (the unknowns of the face carry the contact), fr, r2] *)
Last1(x) == x[Len(x)]
Wn(p) == IF Last1(p.N) = 0 THEN 1 ELSE CAbs(Last1(p.N))
Ln(p) == CDot(p.N, p.N)
Sn(p, f) == CMul(Hooke(f.A, p.la, p.mu), p.N)                         (* |N| times the traction *)
Parallel(N, M) == \A i, j \in 1..Len(N) : N[i] * M[j] = N[j] * M[i]
TransMul(A, x) == [i \in 1..Len(x) |-> CSum([k \in 1..Len(x) |-> A[k][i] * x[k]])]
(* the deformed face stays parallel to itself *)
KeepsPlane(p, f) == Parallel(p.N, TransMul(f.A, p.N))
(* L W phi_n at a point: the gap is the one of the moved face in the version with face unknowns *)
PhiN(p, f, x) ==
    LET u == Affine(f, x) IN
    CDot(Sn(p, f), p.N) * Wn(p) + (IF p.face THEN p.g * (Last1(x) + Last1(u)) * Ln(p)
                                   ELSE p.g * Last1(x) * Ln(p) - p.g * CDot(u, p.N) * Wn(p))
(* a face orthogonal to the obstacle never touches it, from above *)
Far(p) == Last1(p.N) = 0
(* L (theta s_n(v) - gamma v.n) *)
PsiN(p, th, f, x) == th * CDot(Sn(p, f), p.N) - p.g * CDot(Affine(f, x), p.N)
(* |N| (theta s_t - gamma u_t), before its normal part is removed *)
Tau(p, th, f, x) == CPlus(CTimes(th, Sn(p, f)), CTimes(-p.g, Affine(f, x)))
Tang(p, t) == CPlus(CTimes(Ln(p), t), CTimes(-CDot(t, p.N), p.N))
(* 12 L^2 mean of the product of the tangential parts, over L *)
MeanT(p, F, G) ==
    Ln(p) * CSum([i \in 1..Len(p.N) |-> Mean([k \in DOMAIN F |-> F[k][i]], [k \in DOMAIN G |-> G[k][i]])])
    - Mean([k \in DOMAIN F |-> CDot(F[k], p.N)], [k \in DOMAIN G |-> CDot(G[k], p.N)])

PhiAt(p, u) == [k \in DOMAIN p.X |-> PhiN(p, u, p.X[k])]
Closed(p, u) == ~Far(p) /\ \A k \in DOMAIN p.X : PhiAt(p, u)[k] < 0
Above(p, u) == \A k \in DOMAIN p.X : Last1(p.X[k]) + Last1(Affine(u, p.X[k])) > 0
Open(p, u) == IF Far(p) THEN ~p.face \/ Above(p, u) ELSE \A k \in DOMAIN p.X : PhiAt(p, u)[k] > 0
(* friction: the bound is r2/2 times the length of the trial traction (Tresca), or is that
   when in contact and 0 when not (Coulomb) *)
Share(p, u) == CASE p.fr = 0 -> 0
                 [] p.fr = 1 -> IF p.r2 < 2 THEN p.r2 ELSE 2
                 [] p.fr = 2 -> IF Closed(p, u) THEN (IF p.r2 < 2 THEN p.r2 ELSE 2) ELSE 0
(* 2 g L W Weight / area factor times the residual against v, and (without W) the tangent *)
Residual(p, u, v) ==
    LET X == p.X  W == Wn(p) IN
    (IF Closed(p, u) THEN 2 * Mean(PhiAt(p, u), [k \in DOMAIN X |-> PsiN(p, p.theta, v, X[k])]) ELSE 0)
    - 2 * p.theta * Ln(p) * W * Weight(X) * CDot(Sn(p, u), Sn(p, v))
    + (IF Share(p, u) = 0 THEN 0 ELSE Share(p, u) * W * MeanT(p, [k \in DOMAIN X |-> Tau(p, 1, u, X[k])], [k \in DOMAIN X |-> Tau(p, p.theta, v, X[k])]))
Tangent(p, u, v, w) ==
    LET X == p.X IN
    (IF Closed(p, u) THEN 2 * Mean([k \in DOMAIN X |-> PsiN(p, p.theta, v, X[k])], [k \in DOMAIN X |-> PsiN(p, 1, w, X[k])]) ELSE 0)
    - 2 * p.theta * Ln(p) * Weight(X) * CDot(Sn(p, v), Sn(p, w))
    + (IF Share(p, u) = 2 THEN 2 * MeanT(p, [k \in DOMAIN X |-> Tau(p, p.theta, v, X[k])], [k \in DOMAIN X |-> Tau(p, 1, w, X[k])]) ELSE 0)
(* the projection does not change to first order along its own direction *)
TangentKnown(p, u) == Share(p, u) # 1 \/ Len(p.N) = 2

(* --- exact solutions of contact problems: bodies above the obstacle, resting on x_d = 0 --
   u = c + A x; a is the bound of the friction.  On the floor n = -e_d, s_n = S_dd, the gap is
   u_d and the tangential traction is minus the last column of S *)
Grounded(A, c, la, mu, fr, a) ==
    LET d == Len(A)  S == Hooke(A, la, mu)
        T == [k \in 1..d - 1 |-> -S[k][d]]
        slip == [k \in 1..d - 1 |-> c[k]]
        fixed == \A k, i \in 1..d - 1 : A[k][i] = 0              (* the floor moves as a whole *)
        still == fixed /\ \A k \in 1..d - 1 : c[k] = 0
        bound == IF fr = 0 THEN 0 ELSE a
        free == \A k \in 1..d - 1 : T[k] = 0
        sliding == /\ fixed /\ \A k, i \in 1..d - 1 : T[k] * slip[i] = T[i] * slip[k]
                   /\ CDot(T, slip) < 0 /\ CDot(T, T) = bound * bound
    IN /\ \A k \in 1..d - 1 : A[d][k] = 0                        (* it stays flat *)
       /\ Unilateral(S[d][d], -c[d], 0)
       /\ (free /\ (bound = 0 \/ still)) \/ (still /\ CDot(T, T) < bound * bound) \/ sliding
=============================================================================
