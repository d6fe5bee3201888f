----------------------------- MODULE TimeStepGen ------------------------------
(* Scenarios of the nonlinear mechanics solver, with the solution they lead to
   (polynomial in space), its load and stress, and what every attempt should
   give; histories of the list of steps; files of parameters; histories of the
   stabilization coefficients. *)
EXTENDS TimeStepping, TLC, Json, IOUtils
P == INSTANCE Poly
NRAND == atoi(IOEnv.NRAND)
SEED == atoi(IOEnv.SEED)
R(n, t, m) == (Hash(Hash(Hash(SEED, n * 7 + 3), t + n), 2 * t + 1) \div 5) % m
Pick(s, n, t) == s[1 + R(n, t, Len(s))]

(* ---- polynomials ---- *)
Exps(d, r) == SetToSeq(P!ExpsLe(d, r))
Comp(n, t, d, r) == [j \in 1..(IF r = 1 THEN 2 ELSE 3) |-> <<Pick(<<-2, -1, 1, 2>>, n, t + j), Pick(Exps(d, r), n, t + 10 + j)>>]
              \o << <<1 + R(n, t + 20, 2), Pick(SetToSeq(P!ExpsEq(d, r)), n, t + 25)>> >>
Line(n, d) == CASE d = 2 -> Pick(<< <<5, 0>>, <<0, 5>>, <<3, 4>>, <<4, -3>> >>, n, 61)
                [] d = 3 -> Pick(<< <<5, 0, 0>>, <<3, 4, 0>>, <<0, 3, 4>>, <<4, 0, -3>> >>, n, 61)
Field(n, mode, d, r) ==
    IF mode = 3 THEN [i \in 1..d |-> [k \in 1..d |-> <<Line(n, d)[i] * Line(n, d)[k], P!Unit(d, k)>>]]
    ELSE [i \in 1..d |-> (IF i = 1 /\ mode # 1 THEN << <<3, P!Unit(d, 1)>> >> ELSE <<>>) \o Comp(n, 100 * i, d, r)]
(* stress lam div u I + mu (grad u + grad u^T), load - div stress *)
Stress(u, d, lam, mu) == FlattenSeq([i \in 1..d |-> [j \in 1..d |->
    P!PAdd(P!PScale(mu, P!PAdd(P!PD(u[i], j), P!PD(u[j], i))), IF i = j THEN P!PScale(lam, P!Div(u, d)[1]) ELSE <<>>)]])
Load(s, d) == [i \in 1..d |-> P!PNeg(FlattenSeq([j \in 1..d |-> P!PD(s[(i - 1) * d + j], j)]))]

(* ---- what every attempt gives ---- *)
RECURSIVE Table(_, _, _)
Table(p, x, acc) ==
    IF ~Active(x) \/ Len(acc) > 60 THEN [rows |-> acc, end |-> x]
    ELSE LET c == Current(x)
             o == Outcome(p, x.natt + 1)
             y == Attempt(p, x)
             q == Proposed(p, x, c)
             h == IF p.mode = 3 THEN H!Return(p.mat, x.q, Amp(p, c.e)) ELSE x.q
         IN Table(p, y, Append(acc, [s |-> c.s, e |-> c.e, o |-> o, d |-> q.d, a |-> q.a, h |-> h,
                                     sg |-> IF p.mode = 3 THEN H!Sig(p.mat, h, Amp(p, c.e)) ELSE 0]))

(* ---- scenarios ---- *)
Mats == << <<1, 1, 0>>, <<1, 5, 0>>, <<2, 2, 0>>, <<1, 2, 2>>, <<2, 1, 0>>, <<1, 1, 0>> >>
SegsOf == << << <<24, 1>> >>, << <<48, 2>> >>, << <<72, 1>> >>, << <<96, 4>> >>, << <<48, 1>>, <<96, 2>> >>, << <<24, 1>>, <<120, 2>> >>, << <<120, 5>> >>, << <<240, 3>> >> >>
Laws == << <<0, 1>>, <<0, 2>>, <<0, 3>>, <<2, 4>>, <<2, 5>>, <<1, 0>>, <<1, 1>>, <<1, 2>>, <<0, 0>>, <<2, 4>> >>
Fails(n) == LET f(j) == IF R(n, 200 + j, 3) = 0 THEN 1 + R(n, 230 + j, 3) ELSE 0
                len == Pick(<<0, 0, 1, 3, 5, 7>>, n, 199)
            IN [j \in 1..len |-> IF R(n, 198, 6) = 0 /\ j < 4 THEN 1 + R(n, 230 + j, 3) ELSE f(j)]
Scenario(n) ==
    LET mode == Pick(<<0, 0, 1, 1, 2, 2, 3, 3>>, n, 1)
        dim == IF R(n, 2, 4) = 0 THEN 3 ELSE 2
        k == IF dim = 3 THEN 1 ELSE Pick(<<1, 1, 2>>, n, 3)
        cd0 == Pick(<<-1, 0, 1, 0, 6>>, n, 4)
        cd == IF k + cd0 > 6 THEN 7 ELSE k + cd0
        cdu == IF cd = 7 THEN k ELSE cd
        gd == Pick(<<k, k, 0, k + 1>>, n, 5)
        stab == Pick(<<0, 1, 1, 1, 3>>, n, 6)
        low == IF cdu < k THEN cdu ELSE k
        st == IF cdu < 1 THEN 1 ELSE stab
        gdu == IF cdu < 1 THEN k ELSE gd
        r == IF mode \in {1, 3} THEN 1 ELSE IF gdu = k + 1 THEN low ELSE IF st = 1 THEN k + 1 ELSE low
        m == Pick(Mats, n, 7)
        mu == IF mode = 3 THEN m[1] ELSE 1 + R(n, 8, 2)
        lam == Pick(<<0, 1, 3>>, n, 9)
        u == Field(n, mode, dim, r)
        sig == Stress(u, dim, lam, mu)
        segs == Pick(SegsOf, n, 10)
        all == AllSteps(segs)
    IN [mode |-> mode, dim |-> dim, k |-> k, cd |-> cd, gd |-> gdu, stab |-> st, r |-> r, lam |-> lam, mu |-> mu,
        mat |-> [mu |-> mu, H |-> m[2], K |-> m[3], sy |-> 3 + R(n, 11, 14)],
        law |-> IF mode = 3 THEN <<0, 1>> ELSE IF mode = 1 THEN Pick(Laws, n, 12) ELSE <<0, 0>>, ltype |-> 1 + R(n, 13, 6),
        pre |-> R(n, 14, 2), adapt |-> IF mode = 0 /\ r = 1 THEN R(n, 15, 2) ELSE 0, beta |-> 1 + R(n, 16, 3),
        segs |-> segs, final |-> IF R(n, 17, 4) = 0 THEN all[1 + R(n, 18, Len(all))].e ELSE -1,
        sub |-> R(n, 19, 4), imax |-> IF R(n, 20, 12) = 0 THEN 1 + R(n, 21, 2) ELSE 30, fails |-> Fails(n),
        saves |-> SelectSeq([j \in 1..Len(all) |-> all[j].e - 12 * R(n, 30 + j, 2)], LAMBDA x : R(n, 40 + (x \div 12), 2) = 0),
        unit |-> IF mode = 1 THEN 64 ELSE 8, amax |-> IF mode = 1 THEN 5 ELSE 12, uden |-> IF mode = 3 THEN 25 ELSE 1,
        dyn |-> [seed |-> n * 13 + 5, b |-> Pick(<<1, 1, 2, 1>>, n, 50), g |-> Pick(<<2, 3, 2, 4>>, n, 51), d |-> Pick(<<0, 57600, 115200>>, n, 52), v |-> Pick(<<0, 480, -960>>, n, 53), rho |-> 1 + R(n, 54, 3)],
        exact |-> r <= cdu, a0 |-> IF mode = 2 THEN AccAt([dyn |-> [seed |-> n * 13 + 5]], 0) ELSE 0,
        bnd |-> IF mode = 1 THEN <<0>> ELSE [j \in 1..(2 + R(n, 55, 4)) |-> R(n, 56 + j, 4)],
        qs |-> IF mode = 3 THEN H!Q([mu |-> mu, H |-> m[2], K |-> m[3]]) ELSE 1,
        u |-> u, f |-> Load(sig, dim), sig |-> sig]
(* some deviatoric strain everywhere *)
Const(p) == P!PSum([j \in DOMAIN p |-> p[j][1]])
Dev(s, d) == \E i, j \in 1..d : i # j /\ (Const(s[(i - 1) * d + j]) # 0 \/ Const(s[(i - 1) * d + i]) # Const(s[(j - 1) * d + j]))
Usable(p, t) ==
    /\ Len(t.rows) <= 30 /\ \A i \in DOMAIN t.rows : t.rows[i].d # 0 \/ t.rows[i].o # 0
    /\ \A i \in DOMAIN t.rows : t.rows[i].d # 0
    /\ p.mode = 3 => /\ \A i \in DOMAIN t.rows : ~t.rows[i].h.edge /\ t.rows[i].h.n <= 5
    (* after yielding, a reversal of the stress within one step: Newton's iterations may cycle *)
    /\ p.mode = 3 => \A i \in 2..Len(t.rows) : LET a == t.rows[i - 1].h b == t.rows[i].h IN a.n > 0 => IF a.pi >= 0 THEN b.pi >= a.pi /\ t.rows[i].sg >= 0 ELSE b.pi <= a.pi /\ t.rows[i].sg <= 0
    /\ p.mode = 1 => p.imax > 2
    /\ p.adapt = 1 => Dev(p.sig, p.dim)
    /\ p.imax < 3 => \A i \in DOMAIN t.rows : p.mode = 2 => t.rows[i].d # p.dyn.d
VARIABLE cfg
Scen(n) == LET p == Scenario(n) t == Table(p, Start(p), <<>>) IN
           IF Usable(p, t) THEN [kind |-> "run", n |-> n, p |-> p, rows |-> t.rows] ELSE [kind |-> "none"]

(* ---- histories of the list of steps ---- *)
ListReqs == << [segs |-> << <<192, 1>> >>, final |-> -1], [segs |-> << <<384, 2>> >>, final |-> -1],
               [segs |-> << <<192, 1>>, <<960, 2>> >>, final |-> -1], [segs |-> << <<192, 1>>, <<960, 2>> >>, final |-> 576],
               [segs |-> << <<960, 5>> >>, final |-> 384], [segs |-> << <<960, 5>> >>, final |-> 500],
               [segs |-> << <<1344, 7>> >>, final |-> 1344], [segs |-> << <<1152, 3>>, <<1920, 4>>, <<2880, 5>> >>, final |-> -1] >>
Ops6 == [1..6 -> {0, 1}]

(* ---- files of parameters ---- *)
Words == <<"true", "True", "false", "False">>
KV(n, t) ==
    CASE R(n, t, 19) = 0 -> <<"FaceDegree", R(n, t + 1, 4)>> [] R(n, t, 19) = 1 -> <<"CellDegree", R(n, t + 1, 4)>>
      [] R(n, t, 19) = 2 -> <<"GradDegree", R(n, t + 1, 4)>> [] R(n, t, 19) = 3 -> <<"Sublevel", R(n, t + 1, 9)>>
      [] R(n, t, 19) = 4 -> <<"IterMax", R(n, t + 1, 50)>> [] R(n, t, 19) = 5 -> <<"Epsilon", 2 + R(n, t + 1, 9)>>
      [] R(n, t, 19) = 6 -> <<"Beta", R(n, t + 1, 40)>> [] R(n, t, 19) = 7 -> <<"Theta", R(n, t + 1, 9) - 4>>
      [] R(n, t, 19) = 8 -> <<"Gamma0", R(n, t + 1, 400)>> [] R(n, t, 19) = 9 -> <<"Threshold", R(n, t + 1, 40)>>
      [] R(n, t, 19) = 10 -> <<"FinalTime", R(n, t + 1, 40)>>
      [] R(n, t, 19) = 11 -> <<"TimeStep", [j \in 1..R(n, t + 1, 4) |-> <<4 * j, 1 + R(n, t + 1 + j, 5)>>]>>
      [] R(n, t, 19) = 12 -> <<"TimeSave", [j \in 1..R(n, t + 1, 5) |-> R(n, t + 1 + j, 9)]>>
      [] R(n, t, 19) = 13 -> <<"Stabilization", Pick(Words, n, t + 1)>> [] R(n, t, 19) = 14 -> <<"AdaptativeStabilization", Pick(Words, n, t + 1)>>
      [] R(n, t, 19) = 15 -> <<"Verbose", Pick(Words, n, t + 1)>> [] R(n, t, 19) = 16 -> <<"Precomputation", Pick(Words, n, t + 1)>>
      [] R(n, t, 19) = 17 -> <<"StabType", Pick(StabNames, n, t + 1)>>
      [] OTHER -> IF R(n, t + 1, 2) = 0 THEN <<"Friction", Pick(FrotNames, n, t + 2)>> ELSE <<"Dynamic", Pick(Words, n, t + 2)>>
(* how the file ends: 0 as it should, 1 truncated, 2 with an unknown keyword, 3 does not begin as it should, 4 missing *)
ParamFile(n) == [kind |-> "par", n |-> n, end |-> Pick(<<0, 0, 0, 0, 1, 2, 3, 4>>, n, 7), kvs |-> [j \in 1..R(n, 8, 12) |-> KV(n, 100 + 30 * j)]]
Stabs(n) == [kind |-> "stb", n |-> n, beta |-> R(n, 1, 9), ops |-> [j \in 1..12 |-> LET o == R(n, 10 + j, 5) IN IF o = 4 THEN <<2, 0, 0>> ELSE <<o % 2, R(n, 30 + j, 100), R(n, 60 + j, 50)>>]]

Init == \/ \E n \in 1..NRAND : cfg = Scen(n)
        \/ \E r \in DOMAIN ListReqs : \E o \in Ops6 : cfg = [kind |-> "lst", segs |-> ListReqs[r].segs, final |-> ListReqs[r].final, ops |-> o]
        \/ \E n \in 1..(NRAND * 2) : cfg = ParamFile(n)
        \/ \E n \in 1..20 : cfg = Stabs(n)
Next == FALSE /\ cfg' = cfg
Spec == Init /\ [][Next]_cfg
Emit == IF cfg.kind = "none" THEN TRUE ELSE PrintT("@@ " \o ToJson(cfg))
=============================================================================
