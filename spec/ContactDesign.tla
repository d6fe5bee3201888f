------------------------------ MODULE ContactDesign -----------------------------
(* (1) the reformulation: for all small tractions, displacements, gaps and bounds the
       complementarity conditions hold exactly when Nitsche's equations do, for every gamma;
   (2) the semismooth Newton method on a spring pressed against the obstacle, with and
       without friction: each step solves with the tangent of the current branch, and it
       ends, in a state that satisfies the law, whatever the start.
   A displacement is a fraction num / den. *)
EXTENDS Contact, TLC
CONSTANTS R, KMAX, GMAX
VARIABLES k, gam, f, g, a, num, den, steps, kind
vars == <<k, gam, f, g, a, num, den, steps, kind>>
Reformulated == \A s, u, gg \in -R..R, gm \in 1..GMAX : Unilateral(s, u, gg) <=> NitscheN(s, u, gg, gm)
Frictional == \A s, u \in -R..R, aa \in 0..R, gm \in 1..GMAX : (Friction(s, u, aa) /\ (aa = 0 => s = 0)) <=> NitscheT(s, u, aa, gm)
(* the projection is monotone, does not lengthen, and is idempotent *)
Projection == \A x, y \in -R..R, aa \in 0..R : /\ (x <= y => Clamp(x, aa) <= Clamp(y, aa))
                                               /\ CAbs(Clamp(x, aa) - Clamp(y, aa)) <= CAbs(x - y)
                                               /\ Clamp(Clamp(x, aa), aa) = Clamp(x, aa)
ASSUME Reformulated /\ Frictional /\ Projection
(* spring k u = f + p(u): contact p = min(0, -gam (u - g)); friction p = clamp(-gam u, a) *)
Init == /\ k \in 1..KMAX /\ gam \in 1..GMAX /\ f \in -R..R /\ g \in -R..R /\ a \in 0..R /\ kind \in {"contact", "friction"}
        /\ num \in (IF kind = "friction" THEN {0} ELSE {-3 * R, 0, 3 * R}) /\ den = 1 /\ steps = 0
Branch == IF kind = "contact" THEN (IF num - g * den > 0 THEN "closed" ELSE "open")
          ELSE IF CAbs(gam * num) <= a * den THEN "stick" ELSE IF num < 0 THEN "slip+" ELSE "slip-"
Solve(b) == CASE b = "open" -> <<f, k>> [] b = "closed" -> <<f + gam * g, k + gam>>
              [] b = "stick" -> <<f, k + gam>> [] b = "slip+" -> <<f + a, k>> [] b = "slip-" -> <<f - a, k>>
Newton == /\ LET s == Solve(Branch) IN /\ num * s[2] # s[1] * den
                                       /\ num' = s[1] /\ den' = s[2]
          /\ steps' = steps + 1 /\ UNCHANGED <<k, gam, f, g, a, kind>>
Done == /\ LET s == Solve(Branch) IN num * s[2] = s[1] * den
        /\ UNCHANGED vars
Next == Newton \/ Done
Spec == Init /\ [][Next]_vars
(* the equation of the spring, times den *)
Law == LET p == IF kind = "contact" THEN Min0(-gam * (num - g * den)) ELSE Clamp(-gam * num, a * den) IN k * num = f * den + p
Fast == steps <= 3
Ends == LET s == Solve(Branch) IN num * s[2] = s[1] * den => Law
(* without contact the spring is free; with contact it never is pulled *)
Sign == (steps >= 1 /\ Law /\ kind = "contact") => (IF num > g * den THEN k * num < f * den ELSE k * num = f * den)
=============================================================================
