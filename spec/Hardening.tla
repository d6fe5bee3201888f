------------------------------ MODULE Hardening -------------------------------
(* Return mapping of von Mises plasticity with linear isotropic (H) and kinematic
   (K) hardening for strains e along one direction: e is in units of 1/8, so are
   the yield stress sy and the stresses; the plastic strain pi (signed) and its
   cumulated length p are in units of 1/(8*Q(m)), Q = D^5, D = 3 mu + H + 3 K / 2
   (K is even). Every admissible history of at most five plastic steps is exact. *)
EXTENDS Integers, Sequences
D(m) == 3 * m.mu + m.H + 3 * (m.K \div 2)
Q(m) == LET x == D(m) IN x * x * x * x * x
Virgin == [pi |-> 0, p |-> 0, plastic |-> FALSE, n |-> 0, edge |-> FALSE]
Abs(x) == IF x < 0 THEN -x ELSE x
(* relative stress of the elastic prediction, distance to the yield surface *)
Xi(m, s, e) == 2 * m.mu * e * Q(m) - (3 * m.mu + 3 * (m.K \div 2)) * s.pi
Phi(m, s, e) == Abs(Xi(m, s, e)) - m.sy * Q(m) - m.H * s.p
Return(m, s, e) ==
    LET f == Phi(m, s, e)
        dp == f \div D(m)
    IN IF f < 0 THEN [s EXCEPT !.plastic = FALSE]
       ELSE [pi |-> s.pi + (IF Xi(m, s, e) < 0 THEN -dp ELSE dp), p |-> s.p + dp, plastic |-> TRUE, n |-> s.n + 1,
             edge |-> s.edge \/ f = 0 \/ f % D(m) # 0]
(* stress along the direction (deviatoric amplitude), in units of 1/(8 Q) *)
Sig(m, s, e) == 2 * m.mu * e * Q(m) - 3 * m.mu * s.pi
Consistent(m, s, e) == Phi(m, s, e) <= 0
(* ---- isotropic hardening by a curve: m.curve gives points <<p, R>> (in units 1/8, sorted
   by p), R is affine between them and continues beyond the ends; here m.q plays
   the role of Q. The plastic increment is the only dp >= 0 with |xi| - 3 mu dp = R(p + dp) ---- *)
NSeg(m) == Len(m.curve) - 1
Slope(m, i) == (m.curve[i + 1][2] - m.curve[i][2]) \div (m.curve[i + 1][1] - m.curve[i][1])
InSeg(m, i, p) == (i = 1 \/ p >= m.curve[i][1] * m.q) /\ (i = NSeg(m) \/ p < m.curve[i + 1][1] * m.q)
SegOf(m, p) == CHOOSE i \in 1..NSeg(m) : InSeg(m, i, p)
Rp(m, p) == LET i == SegOf(m, p) IN m.curve[i][2] * m.q + Slope(m, i) * (p - m.curve[i][1] * m.q)
XiC(m, s, e) == 2 * m.mu * e * m.q - 3 * m.mu * s.pi
PhiC(m, s, e) == Abs(XiC(m, s, e)) - Rp(m, s.p)
(* increment if the end is on segment i *)
DpNum(m, s, e, i) == Abs(XiC(m, s, e)) - m.curve[i][2] * m.q - Slope(m, i) * (s.p - m.curve[i][1] * m.q)
DpDen(m, i) == 3 * m.mu + Slope(m, i)
Lands(m, s, e, i) == LET n == DpNum(m, s, e, i) d == DpDen(m, i) p1 == s.p + (n \div d)
                     IN n >= 0 /\ (i = 1 \/ p1 >= m.curve[i][1] * m.q) /\ (i = NSeg(m) \/ p1 < m.curve[i + 1][1] * m.q)
Near(a, b, w) == Abs(a - b) <= w
ReturnC(m, s, e) ==
    LET f == PhiC(m, s, e) IN
    IF f < 0 THEN [s EXCEPT !.plastic = FALSE, !.edge = @ \/ Near(f, 0, m.q \div 64)]
    ELSE LET i == CHOOSE g \in 1..NSeg(m) : Lands(m, s, e, g)
             n == DpNum(m, s, e, i)
             dp == n \div DpDen(m, i)
         IN [pi |-> s.pi + (IF XiC(m, s, e) < 0 THEN -dp ELSE dp), p |-> s.p + dp, plastic |-> TRUE, n |-> s.n + 1,
             edge |-> s.edge \/ Near(f, 0, m.q \div 64) \/ n % DpDen(m, i) # 0
                             \/ \E c1 \in 1..Len(m.curve) : Near(s.p + dp, m.curve[c1][1] * m.q, m.q \div 64)
                             \/ (s.p # 0 /\ \E c2 \in 1..Len(m.curve) : Near(s.p, m.curve[c2][1] * m.q, m.q \div 64))]
SigC(m, s, e) == 2 * m.mu * e * m.q - 3 * m.mu * s.pi
=============================================================================
