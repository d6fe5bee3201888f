----------------------------- MODULE MaterialDesign ----------------------------
(* The return mappings of module Hardening themselves, over every history of trials and
   updates of a point within bounds: admissible stresses, irreversibility, dissipation,
   independence from trials that were not committed, agreement of the two laws. *)
EXTENDS Integers, Sequences, TLC
H == INSTANCE Hardening
CONSTANTS EMax, NMax
Lins == [mu : {1}, H : {1, 5}, K : {0, 2}, sy : {4}] \cup {[mu |-> 1, H |-> -1, K |-> 2, sy |-> 6], [mu |-> 1, H |-> 0, K |-> 0, sy |-> 4], [mu |-> 2, H |-> 2, K |-> 0, sy |-> 6]}
(* curves: the affine one that repeats the linear law, and ones with several slopes *)
Affine(m) == [mu |-> m.mu, q |-> H!Q(m), curve |-> << <<0, m.sy>>, <<2, m.sy + 2 * m.H>>, <<3, m.sy + 3 * m.H>> >>]
Bent == {[mu |-> 1, q |-> 4096, curve |-> << <<0, 4>>, <<1, 9>>, <<2, 8>>, <<4, 10>> >>], [mu |-> 2, q |-> 4096, curve |-> << <<1, 6>>, <<2, 8>>, <<3, 18>> >>]}
VARIABLES m, prev, cur, e
vars == <<m, prev, cur, e>>
Lin == "H" \in DOMAIN m
Ret(s, x) == IF Lin THEN H!Return(m, s, x) ELSE H!ReturnC(m, s, x)
Init == m \in Lins \cup Bent /\ prev = H!Virgin /\ cur = H!Virgin /\ e = 0
Trial == \E x \in -EMax..EMax : LET r == Ret(prev, x) IN ~r.edge /\ r.n <= NMax /\ e' = x /\ cur' = r /\ UNCHANGED <<m, prev>>
Update == prev' = cur /\ UNCHANGED <<m, cur, e>>
Next == Trial \/ Update
Spec == Init /\ [][Next]_vars
Sign(x) == IF x < 0 THEN -1 ELSE IF x = 0 THEN 0 ELSE 1
F(s, x) == IF Lin THEN H!Phi(m, s, x) ELSE H!PhiC(m, s, x)
Xi(s, x) == IF Lin THEN H!Xi(m, s, x) ELSE H!XiC(m, s, x)
Admissible == F(cur, e) <= 0
OnSurface == cur.plastic => F(cur, e) = 0
Irreversible == cur.p >= prev.p /\ H!Abs(cur.pi - prev.pi) = cur.p - prev.p
Dissipates == cur.pi # prev.pi => Sign(cur.pi - prev.pi) = Sign(Xi(cur, e))
Idempotent == (cur.plastic /\ cur.n < NMax) => LET r == Ret(cur, e) IN r.pi = cur.pi /\ r.p = cur.p
Fresh == cur = Ret(prev, e) \/ cur = prev
Agree == (Lin /\ m.K = 0) => LET r == H!Return(m, prev, e) c == H!ReturnC(Affine(m), prev, e) IN (r.edge \/ c.edge) \/ (r.pi = c.pi /\ r.p = c.p /\ r.plastic = c.plastic)
Elastic == ~cur.plastic => cur.pi = prev.pi /\ cur.p = prev.p
Unique == ~Lin => \A i, j \in 1..H!NSeg(m) : (F(prev, e) > 0 /\ H!Lands(m, prev, e, i) /\ H!Lands(m, prev, e, j)) => i = j
Exists == (~Lin /\ F(prev, e) > 0) => \E i \in 1..H!NSeg(m) : H!Lands(m, prev, e, i)
=============================================================================
