-------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size: little-endian sequences of W limbs in base 10^4
   (TLC integers have 32 bits). Width is fixed by the user; results are exact
   as long as they fit. *)
EXTENDS Integers, Sequences, SequencesExt
BASE == 10000
BZero(w) == [i \in 1..w |-> 0]
(* from the sequence of its limbs (least significant first), padded *)
BPad(s, w) == [i \in 1..w |-> IF i <= Len(s) THEN s[i] ELSE 0]
BCarry(s) == FoldLeft(LAMBDA a, x : LET v == x + a[2] IN <<Append(a[1], v % BASE), v \div BASE>>, << <<>>, 0 >>, s)[1]
BNat(x, w) == BCarry([i \in 1..w |-> IF i = 1 THEN x ELSE 0])
BAdd(a, b) == BCarry([i \in DOMAIN a |-> a[i] + b[i]])
(* times a small number, 0 <= k <= 200000 *)
BMul(a, k) == BCarry([i \in DOMAIN a |-> a[i] * k])
BShift(a, n) == [i \in DOMAIN a |-> IF i <= n THEN 0 ELSE a[i - n]]
BTop(a) == LET nz == {i \in DOMAIN a : a[i] # 0} IN IF nz = {} THEN 0 ELSE CHOOSE i \in nz : \A j \in nz : j <= i
BLeq(a, b) == LET d == {i \in DOMAIN a : a[i] # b[i]} IN
              IF d = {} THEN TRUE ELSE LET i == CHOOSE k \in d : \A j \in d : j <= k IN a[i] < b[i]
(* a - b, b <= a *)
BSub(a, b) == FoldLeft(LAMBDA s, i : LET v == a[i] - b[i] - s[2] IN
                        IF v < 0 THEN <<Append(s[1], v + BASE), 1>> ELSE <<Append(s[1], v), 0>>,
                       << <<>>, 0 >>, [i \in DOMAIN a |-> i])[1]
BDiff(a, b) == IF BLeq(b, a) THEN BSub(a, b) ELSE BSub(b, a)
(* |a - b| <= tol * 10^-8 * ref *)
BNear(a, b, ref, tol) == BLeq(BShift(BDiff(a, b), 2), BMul(ref, tol))
=============================================================================
