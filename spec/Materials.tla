------------------------------- MODULE Materials -------------------------------
(* A material point: what its law answers to a strain, given its history. The
   history is committed by Update only; any number of trial strains may be computed
   in between. Small strain laws take symmetric strains; hyperelastic laws take the
   deformation gradient F and give the first Piola-Kirchhoff stress. Two-dimensional
   points are in plane strain: the stress is that of the embedded 3D point. *)
EXTENDS Integers, Sequences, Tensors
H == INSTANCE Hardening
SMALL == 0
LOGDEF == 1
FDEF == 2
(* which laws exist for which measure of deformation *)
Compatible(def, law) == <<def, law>> \in {<<0, 0>>, <<0, 1>>, <<0, 2>>, <<0, 3>>, <<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 4>>, <<2, 5>>}
DefNames == <<"SMALL_DEF", "LOGARITHMIC_DEF", "F_DEF">>
LawNames == <<"ELASTIC", "LINEAR_HARDENING", "NONLINEAR_HARDENING", "HENCKY_MISES", "NEOHOKEAN", "CAVITATION", "MFRONT">>

Embed(a, d, one) == LET f(i, j) == IF i <= d /\ j <= d THEN At(a, d, i, j) ELSE IF one THEN Delta(i, j) ELSE 0 IN Mat(3, f)
Plane(a, d) == LET f(i, j) == At(a, 3, i, j) IN Mat(d, f)
PlaneT(t, d) == LET f(i, j, k, l) == C4(t, 3, i, j, k, l) IN Ten(d, f)

(* ---- linear elasticity ---- *)
Hooke(m, e) == Plus(Times(2 * m.mu, e), Times(m.lam * Tr(e, 3), Id(3)))
HookeT(m, d) == Plus(Times(m.mu, Plus(I4(d), Inf(Id(d), Id(d), d))), Times(m.lam, Kron(Id(d), Id(d), d)))

(* ---- Hencky-Mises: q^2 = 1 + |dev|^2; over 2 q ---- *)
HmSq(e, d) == LET D == Dev(e, d) IN <<Inner(D, D, d), d * d>>
IsHm(e, d, q) == LET s == HmSq(e, d) IN q > 0 /\ s[1] + s[2] = q * q * s[2]
HenckyStress(m, e, d, q) == Plus(Times(2 * m.mu * (q + 1), e), Times((2 * q * m.lam + q * m.mu - m.mu) * Tr(e, d), Id(d)))

(* ---- hyperelasticity: W = mu/2 (tr C - 3) - mu ln J + lam/2 U(J)^2, U by m.type.
   T1 = J U U' and T2 = J T1'; in units 10^-6 (rounded) for the logarithms ---- *)
LnJ == <<0, 693147, 1098612, 1386294>>
T1(t, J) == CASE t = 1 -> <<LnJ[J], 1000000>> [] t = 2 -> <<J * (J - 1), 1>> [] t = 3 -> <<((LnJ[J] \div 100) * 18861) \div 1000, 1000000>>
              [] t = 4 -> <<J - 1, J * J>> [] t = 5 -> <<2 * J * J * (J * J - 1), 1>> [] t = 6 -> <<J * J - 1, 2>>
T2(t, J) == CASE t = 1 -> <<1, 1>> [] t = 2 -> <<J * (2 * J - 1), 1>> [] t = 3 -> <<188612, 1000000>>
              [] t = 4 -> <<2 - J, J * J>> [] t = 5 -> <<J * J * (8 * J * J - 4), 1>> [] t = 6 -> <<J * J, 1>>
Rational(t, J) == t \notin {1, 3} \/ (t = 1 /\ J = 1)
(* stress over J^3 * 2 * k, tangent over J^4 * 2 * 81, where the part mu F of the stress
   is mu F / 3 for cavitation (tr C = 27), and its tangent I4/3 - F (x) F / 162 *)
HyF(F, d) == Embed(F, d, TRUE)
Jac(F, d) == Det(HyF(F, d), 3)
HyStress(m, law, t, F) ==
    LET J == Det(F, 3)
        c == Cof(F, 3)
        a == T1(t, J)
        s == 6 * J * J * J
    IN Plus(Times(m.mu * (IF law = 5 THEN s \div 3 ELSE s), F), Times((m.lam * a[1] * (s \div (J * a[2]))) - (m.mu * (s \div J)), c))
HyTangent(m, law, t, F) ==
    LET J == Det(F, 3)
        c == Cof(F, 3)
        ct == Transp(c, 3)
        a == T1(t, J)
        b == T2(t, J)
        s == 162 * J * J * J * J
        f(i, j, k, l) == (IF law = 4 THEN m.mu * s * Delta(i, k) * Delta(j, l)
                          ELSE m.mu * ((s \div 3) * Delta(i, k) * Delta(j, l) - (s \div 162) * At(F, 3, i, j) * At(F, 3, k, l)))
                         + (m.lam * b[1] * (s \div (J * J * b[2]))) * At(c, 3, i, j) * At(c, 3, k, l)
                         + (m.mu * (s \div (J * J)) - m.lam * a[1] * (s \div (J * J * a[2]))) * At(c, 3, i, l) * At(c, 3, k, j)
    IN Ten(3, f)
(* with logarithms: stress in units 10^-3, up to w units *)
ApproxStress(m, law, t, F) ==
    LET J == Det(F, 3) c == Cof(F, 3) a == T1(t, J)
        lnpart == m.lam * (a[1] * (1000000 \div a[2]))
        f(i, j) == (IF law = 5 THEN (m.mu * 1000000 * At(F, 3, i, j)) \div 3 ELSE m.mu * 1000000 * At(F, 3, i, j)) + (((lnpart - (m.mu * 1000000)) * At(c, 3, i, j)) \div J)
        g(i, j) == f(i, j) \div 1000
    IN Mat(3, g)

(* ---- plasticity along one direction: strain e N / (24 k) + v I / 8, where the deviator
   N has |N|^2 = 6 k^2 ---- *)
IsDir(N, k) == Tr(N, 3) = 0 /\ Inner(N, N, 3) = 6 * k * k /\ N = Transp(N, 3)
Q(law, m) == IF law = 2 THEN m.q ELSE IF law = 1 THEN H!Q(m) ELSE 1
Ret(law, m, s, e) == CASE law = 0 -> s [] law = 1 -> H!Return(m, s, e) [] law = 2 -> IF Len(m.curve) = 0 THEN s ELSE H!ReturnC(m, s, e)
Sig(law, m, s, e) == CASE law = 0 -> 2 * m.mu * e [] law = 1 -> H!Sig(m, s, e) [] law = 2 -> H!SigC(m, s, e)
(* distance to the yield surface in units 1/8 (rounded down), and whether the tangent is well defined *)
Smooth(law, m, s, e, r) == CASE law = 0 -> TRUE [] law = 1 -> H!Abs(H!Phi(m, s, e)) > H!Q(m) \div 64
                             [] law = 2 -> Len(m.curve) = 0 \/ ~r.edge
(* stress over 24 k Q *)
PlStress(law, m, s, e, v, N, k) == LET q == Q(law, m) IN
    Plus(Times(Sig(law, m, s, e), N), Times((3 * m.lam + 2 * m.mu) * v * 3 * k * q, Id(3)))

(* ---- plasticity along any path, in floating point: stresses in units 1/SC, up to tolerances ---- *)
SC == 600
Rnd(a, b) == IF a >= 0 THEN (2 * a + b) \div (2 * b) ELSE -(((-2 * a) + b) \div (2 * b))
DevS(s) == LET t == Tr(s, 3) f(i, j) == IF i = j THEN Rnd(3 * At(s, 3, i, j) - t, 3) ELSE At(s, 3, i, j) IN Mat(3, f)
Close(a, b, w) == H!Abs(a - b) <= w
AllClose(a, b, w) == \A n \in DOMAIN a : Close(a[n], b[n], w)
(* |r|^2 against b^2 where both are up to w: sqrt(3/2) |s| ~ b *)
Norm2(s) == LET r == Inner(s, s, 3) IN (r \div 2) * 3
SqClose(n2, b, w) == LET lo == IF b > w THEN b - w ELSE 0 IN n2 >= lo * lo - 3 /\ n2 <= (b + w) * (b + w) + 3
Below(n2, b, w) == b + w >= 0 /\ n2 <= (b + w) * (b + w)
Above(n2, b, w) == b - w <= 0 \/ n2 >= (b - w) * (b - w)
(* radius of the yield surface in units 1/SC for the cumulated strain p in units 1/SC *)
Radius(law, m, p) ==
    IF law = 1 THEN (m.sy * SC) \div 8 + m.H * p
    ELSE LET c == m.curve
             i == CHOOSE j \in 1..(Len(c) - 1) : (j = 1 \/ 8 * p >= c[j][1] * SC) /\ (j = Len(c) - 1 \/ 8 * p < c[j + 1][1] * SC)
         IN Rnd(c[i][2] * SC + H!Slope(m, i) * (8 * p - c[i][1] * SC), 8)
Kin(law, m) == IF law = 1 THEN m.K ELSE 0

(* ---- parameters of the material: numerators over Den(m) ---- *)
E3(m) == m.mu * (3 * m.lam + 2 * m.mu)         \* over lam + mu
Nu3(m) == m.lam                                 \* over 2 (lam + mu)
(* 2 (H + 3/2 K) E over 2 (H + 3/2 K) + 2 E, all times lam + mu *)
ETn(m) == (2 * m.H + 3 * m.K) * E3(m)
ETd(m) == (2 * m.H + 3 * m.K) * (m.lam + m.mu) + 2 * E3(m)
=============================================================================
