----------------------------- MODULE ModelProblems -----------------------------
(* The model problems the library solves, with polynomial solutions.
   A problem is  - div Flux(u) = f  in the domain, with u or the normal flux given
   on each part of the boundary:
     diffusion   one unknown, flux K grad u, K a constant matrix
     slapl       the same with K the identity
     vector      the same with la grad u for each component
     elasticity  flux 2 mu eps(u) + la (div u) I
     stokes      flux grad u - p I with div u = 0; p is another unknown, determined
                 up to a constant: its mean is made zero
     stokessym   flux 2 eps(u) - p I
   Hybrid high-order methods with unknowns of degree k + l on the cells and k on
   the faces have to find u exactly when its degree is at most Exactness, p of
   degree at most k. Polynomials as in Poly.tla. *)
EXTENDS Poly
Kinds == {"diffusion", "robin", "slapl", "vector", "elasticity", "stokes", "stokessym"}
Scalar(kind) == kind \in {"diffusion", "robin", "slapl"}
NComps(kind, d) == IF Scalar(kind) THEN 1 ELSE d
Exactness(kind, k, l) == k + 1
Allowed(kind, k, l) == /\ l \in {-1, 0, 1} /\ k + l >= 0
                       /\ kind \in {"elasticity", "stokessym"} => k >= 1 /\ k + l >= 1
                       /\ kind \in {"stokes", "stokessym"} => l >= 0
(* like terms together, no zero coefficients, ordered *)
Key(ex) == FoldLeft(LAMBDA a, b : 10 * a + b, 0, ex)
Collect(p) == LET E == {p[t][2] : t \in DOMAIN p}
                  c(ex) == FoldLeft(LAMBDA a, t : a + IF t[2] = ex THEN t[1] ELSE 0, 0, p)
                  Q == {<<c(ex), ex>> : ex \in E}
              IN SetToSortSeq({q \in Q : q[1] # 0}, LAMBDA x, y : Key(x[2]) < Key(y[2]))
DivergenceOf(F, d) == FlattenSeq([k \in 1..d |-> PD(F[k], k)])
Strain2(u, d) == [i \in 1..d |-> [j \in 1..d |-> PAdd(PD(u[i], j), PD(u[j], i))]]
PlusIdentity(M, p, d) == [i \in 1..d |-> [j \in 1..d |-> IF i = j THEN PAdd(M[i][j], p) ELSE M[i][j]]]
GradOf(u, d) == [i \in DOMAIN u |-> [j \in 1..d |-> PD(u[i], j)]]
ScaleM(c, M) == [i \in DOMAIN M |-> [j \in DOMAIN M[i] |-> PScale(c, M[i][j])]]
(* rows: one per component of the unknown *)
Flux(b) == LET u == b.u  d == b.d IN
    CASE Scalar(b.kind) -> << [i \in 1..d |-> FlattenSeq([j \in 1..d |-> PScale(b.K[i][j], PD(u[1], j))])] >>
      [] b.kind = "vector" -> ScaleM(b.la, GradOf(u, d))
      [] b.kind = "elasticity" -> PlusIdentity(ScaleM(b.mu, Strain2(u, d)), PScale(b.la, DivergenceOf(u, d)), d)
      [] b.kind = "stokes" -> PlusIdentity(GradOf(u, d), PNeg(b.p), d)
      [] b.kind = "stokessym" -> PlusIdentity(Strain2(u, d), PNeg(b.p), d)
CollectM(M) == [i \in DOMAIN M |-> [j \in DOMAIN M[i] |-> Collect(M[i][j])]]
Source(b) == [i \in 1..NComps(b.kind, b.d) |-> Collect(PNeg(DivergenceOf(Flux(b)[i], b.d)))]
Incompressible(b) == Collect(DivergenceOf(b.u, b.d)) = <<>>
Degree(p) == IF p = <<>> THEN 0 ELSE Max({PSum(p[t][2]) : t \in DOMAIN p})
(* the problem is well posed, and its solution belongs to the discrete space *)
Posed(b) == /\ Allowed(b.kind, b.k, b.l)
            /\ Len(b.u) = NComps(b.kind, b.d)
            /\ \A i \in DOMAIN b.u : Degree(b.u[i]) <= Exactness(b.kind, b.k, b.l)
            /\ Scalar(b.kind) => \A i, j \in 1..b.d : b.K[i][j] = b.K[j][i] /\ (i # j => 2 * b.K[i][j] < b.K[i][i] /\ 2 * b.K[i][j] > -b.K[i][i])
            /\ b.kind = "slapl" => \A i, j \in 1..b.d : b.K[i][j] = IF i = j THEN 1 ELSE 0
            /\ b.la >= 0 /\ b.mu > 0 /\ (b.kind = "vector" => b.la > 0)
            /\ b.kind \in {"stokes", "stokessym"} => Incompressible(b) /\ Degree(b.p) <= b.k
=============================================================================
