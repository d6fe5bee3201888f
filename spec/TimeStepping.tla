---------------------------- MODULE TimeStepping -----------------------------
(* Computations of the nonlinear mechanics solver. Times are ticks (240 per unit
   of time). The requested segments <<end, number of steps>> give a list of steps;
   an attempt that does not converge splits the current step in two halves (one
   sublevel deeper), and stops the computation when the deepest sublevel failed;
   an attempt that converges is accepted: the state advances to the end of the
   step. Failed attempts leave the state as it was.
   In the unsteady case the amplitude d of the displacement, its velocity v and
   acceleration a obey Newmark's scheme with parameters B/4 and G/4:
   d is in units of 1/(4*240^2), v in units of 1/(4*240), a is an integer.
   In the plastic case every point is strained along one direction and follows the
   linear isotropic and kinematic hardening in one dimension (module Hardening). *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
U == 240
H == INSTANCE Hardening
Step(s, e, lev) == [s |-> s, e |-> e, lev |-> lev]
Segment(from, seg) == LET dt == (seg[1] - from) \div seg[2] IN [i \in 1..seg[2] |-> Step(from + (i - 1) * dt, from + i * dt, 0)]
AllSteps(segs) == FoldLeft(LAMBDA acc, g : acc \o Segment(IF acc = <<>> THEN 0 ELSE acc[Len(acc)].e, g), <<>>, segs)
(* final < 0: the end of the last segment *)
InitialSteps(segs, final) == IF final < 0 THEN AllSteps(segs) ELSE SelectSeq(AllSteps(segs), LAMBDA x : x.e <= final)
Halves(c) == LET mid == (c.s + c.e) \div 2 IN <<Step(c.s, mid, c.lev + 1), Step(mid, c.e, c.lev + 1)>>

(* ---- the list of steps ---- *)
NewList(segs, final) == [steps |-> InitialSteps(segs, final), done |-> 0]
SplitCurrent(L) == [L EXCEPT !.steps = Halves(Head(@)) \o Tail(@)]
RemoveCurrent(L) == [L EXCEPT !.steps = Tail(@), !.done = @ + 1]

(* ---- computations: p has segs, final, sub, imax, fails, saves, mode, dyn ---- *)
Hash(s, n) == (((s * 131 + n * 31337 + 17) % 65521) * 32719 + 12345) % 65521
AccAt(p, e) == (Hash(Hash(p.dyn.seed, e), 5) % 7) - 3
Outcome(p, n) == IF p.imax < 3 THEN 4 ELSE IF n <= Len(p.fails) THEN p.fails[n] ELSE 0
(* amplitude of the static problems: a few integers (never 0) in units of 1/unit *)
Level(p, e) == LET r == Hash(Hash(p.dyn.seed, e), 9) % p.amax IN 1 + r
Sign(p, e) == IF p.mode \in {0, 3} /\ Hash(Hash(p.dyn.seed, e), 11) % 3 = 0 THEN -1 ELSE 1
Amp(p, e) == Sign(p, e) * Level(p, e)
AmpUnit(p) == (4 * U * U) \div p.unit
(* amplitude proposed for the end of the step *)
Proposed(p, x, c) ==
    IF p.mode # 2 THEN [d |-> Amp(p, c.e) * AmpUnit(p), v |-> 0, a |-> 0]
    ELSE LET dt == c.e - c.s
             a2 == AccAt(p, c.e)
         IN [d |-> x.d + dt * x.v + dt * dt * ((2 - p.dyn.b) * x.a + p.dyn.b * a2),
             v |-> x.v + dt * ((4 - p.dyn.g) * x.a + p.dyn.g * a2), a |-> a2]
Start(p) == [list |-> NewList(p.segs, p.final), natt |-> 0, conv |-> FALSE, stop |-> FALSE, last |-> 0, iters |-> 0,
             saves |-> p.saves, pend |-> -1, q |-> H!Virgin,
             d |-> IF p.mode = 2 THEN p.dyn.d ELSE 0, v |-> IF p.mode = 2 THEN p.dyn.v ELSE 0, a |-> IF p.mode = 2 THEN AccAt(p, 0) ELSE 0]
Active(x) == ~x.stop /\ x.list.steps # <<>>
Current(x) == Head(x.list.steps)
(* Newton iterations of a failed attempt of a linear problem *)
FailIters(p, o) == CASE o = 1 -> 0 [] o \in {2, 3} -> 1 [] o = 4 -> p.imax
Attempt(p, x) ==
    LET c == Current(x)
        o == Outcome(p, x.natt + 1)
        y == [x EXCEPT !.natt = @ + 1]
    IN IF o # 0 THEN IF c.lev + 1 > p.sub THEN [y EXCEPT !.stop = TRUE, !.conv = FALSE, !.iters = @ + FailIters(p, o)]
                     ELSE [y EXCEPT !.list = SplitCurrent(@), !.conv = FALSE, !.iters = @ + FailIters(p, o)]
       ELSE LET q == Proposed(p, x, c)
                sv == x.saves # <<>> /\ (IF x.saves = <<>> THEN FALSE ELSE Head(x.saves) <= c.e)
            IN [y EXCEPT !.list = RemoveCurrent(@), !.conv = TRUE, !.last = c.e, !.iters = @ + (IF q.d = x.d THEN 1 ELSE 2),
                         !.q = IF p.mode = 3 THEN H!Return(p.mat, @, Amp(p, c.e)) ELSE @,
                         !.d = q.d, !.v = q.v, !.a = q.a,
                         !.saves = IF sv THEN Tail(@) ELSE @, !.pend = IF sv THEN c.e ELSE -1]

(* ---- sanity of the states ---- *)
Contiguous(L, from) == \A i \in DOMAIN L.steps : /\ L.steps[i].s < L.steps[i].e
                                                 /\ L.steps[i].s = (IF i = 1 THEN from ELSE L.steps[i - 1].e)
Sane(p, x) == /\ Contiguous(x.list, x.last)
              /\ \A i \in DOMAIN x.list.steps : x.list.steps[i].lev <= p.sub
              /\ x.list.steps = <<>> => x.last = LET s == InitialSteps(p.segs, p.final) IN IF s = <<>> THEN 0 ELSE s[Len(s)].e
              /\ x.stop => Current(x).lev = p.sub
              /\ x.natt >= x.list.done

(* ---- stabilization coefficients of the cells: values used and values of the next step ---- *)
NewStab(n, v) == [cur |-> [i \in 1..n |-> v], nxt |-> [i \in 1..n |-> v]]
StabOp(S, o) == CASE o[1] = 0 -> [S EXCEPT !.cur[o[2] + 1] = o[3]]
                  [] o[1] = 1 -> [S EXCEPT !.nxt[o[2] + 1] = o[3]]
                  [] o[1] = 2 -> [S EXCEPT !.cur = S.nxt]

(* ---- files of parameters: sequences of <<keyword, values>> ---- *)
DefaultParams == [fd |-> 1, cd |-> 1, gd |-> 1, sub |-> 5, imax |-> 20, eps |-> 6, verb |-> FALSE, pre |-> FALSE, stab |-> TRUE, type |-> 1,
                  beta |-> 4, nsave |-> 0, save |-> <<>>, tend |-> 4, hasend |-> FALSE, adapt |-> FALSE, dyna |-> FALSE, theta |-> 4,
                  gamma |-> 4, thr |-> 0, frot |-> 0, steps |-> <<<<4, 1>>>>]
StabNames == <<"HDG", "HHO", "NO", "DG">>
FrotNames == <<"NO", "TRESCA", "COULOMB">>
IndexOf(s, x) == (CHOOSE i \in DOMAIN s : s[i] = x) - 1
Truth(v) == v \in {"true", "True"}
ApplyParam(q, kv) ==
    LET k == kv[1] v == kv[2] IN
    CASE k = "FaceDegree" -> [q EXCEPT !.fd = v] [] k = "CellDegree" -> [q EXCEPT !.cd = v] [] k = "GradDegree" -> [q EXCEPT !.gd = v]
      [] k = "Sublevel" -> [q EXCEPT !.sub = v] [] k = "IterMax" -> [q EXCEPT !.imax = v]
      [] k = "Epsilon" -> [q EXCEPT !.eps = v] [] k = "Beta" -> [q EXCEPT !.beta = v] [] k = "Theta" -> [q EXCEPT !.theta = v]
      [] k = "Gamma0" -> [q EXCEPT !.gamma = v] [] k = "Threshold" -> [q EXCEPT !.thr = v]
      [] k = "FinalTime" -> [q EXCEPT !.tend = v, !.hasend = TRUE]
      [] k = "TimeStep" -> [q EXCEPT !.steps = v]
      [] k = "TimeSave" -> [q EXCEPT !.save = v, !.nsave = Len(v)]
      [] k = "Stabilization" -> IF Truth(v) THEN [q EXCEPT !.stab = TRUE] ELSE [q EXCEPT !.stab = FALSE, !.type = 2]
      [] k = "AdaptativeStabilization" -> [q EXCEPT !.adapt = Truth(v)]
      [] k = "Verbose" -> [q EXCEPT !.verb = Truth(v)] [] k = "Precomputation" -> [q EXCEPT !.pre = Truth(v)] [] k = "Dynamic" -> [q EXCEPT !.dyna = Truth(v)]
      [] k = "StabType" -> [q EXCEPT !.type = IndexOf(StabNames, v)]
      [] k = "Friction" -> [q EXCEPT !.frot = IndexOf(FrotNames, v)]
ParamsOf(kvs) == FoldLeft(ApplyParam, DefaultParams, kvs)
=============================================================================
