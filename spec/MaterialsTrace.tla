---------------------------- MODULE MaterialsTrace -----------------------------
(* Recorded answers of material points against module Materials: prev and cur are the
   committed and the trial histories of the points, last the last answer of each. *)
EXTENDS Materials, TraceLib, SequencesExt
VARIABLES l, new, prev, cur, last
vars == <<l, new, prev, cur, last>>
ev == Trace[l]
x == Trace[l].in
Pts == 1..3
Fine(f) == f <= 100
Virgin(law) == [h |-> H!Virgin, P |-> Mat(3, LAMBDA i, j : 0), p |-> 0]
Zero9 == <<0, 0, 0, 0, 0, 0, 0, 0, 0>>
None == [s3 |-> Zero9, pl |-> FALSE, p |-> 0]
Keep == UNCHANGED <<new, prev, cur, last>>
Answer(pt) == last' = [last EXCEPT ![pt] = [s3 |-> ev.s3, pl |-> ev.pl, p |-> ev.p]]

NewOk == IF Compatible(x.def, x.law)
         THEN Holds(l, [accepted |-> ev.err = "", def |-> ev.err = "" => (ev.defname = DefNames[x.def + 1] /\ ev.lawname = LawNames[x.law + 1] /\ ev.def = x.def),
                        total |-> ev.err = "" => ev.total = FoldLeft(LAMBDA a, b : a + b, 0, ev.cells),
                        points |-> ev.err = "" => (ev.qpbad = 0 /\ ev.cells = ev.want /\ Len(ev.cells) > 0), data |-> ev.err = "" => ev.data])
         ELSE Holds(l, [refused |-> ev.err # ""])

(* one direction, exact *)
OneDir == LET m == new.m
          law == new.law
          st == prev[x.pt].h
          r == Ret(law, m, st, x.e)
          q == Q(law, m)
          scaled == Plus(Times(x.e, x.N), Times(3 * x.k * x.v, Id(3)))
          diag(i, j) == IF i = j THEN x.a[i] ELSE 0
          strain == IF new.def = 1 THEN Times(3 * x.k, Mul(Mul(x.V, Mat(3, diag), 3), Transp(x.V, 3), 3)) = Times(x.vd * x.vd, scaled) ELSE x.E = scaled
      IN /\ Holds(l, [input |-> IsDir(x.N, x.k) /\ strain /\ x.sc = 24 * x.k * q /\ ~r.edge,
                      stress |-> ev.s3 = PlStress(law, m, r, x.e, x.v, x.N, x.k), plane |-> ev.s2 = Plane(ev.s3, new.d),
                      flag |-> ev.pl = r.plastic, p |-> ev.p = r.p,
                      tangent |-> IF x.tan = 2 /\ Smooth(law, m, st, x.e, r) THEN Fine(ev.fd) ELSE TRUE])
         /\ cur' = [cur EXCEPT ![x.pt].h = r] /\ Answer(x.pt) /\ UNCHANGED <<new, prev>>

(* any path, small strains *)
Gen == LET m == new.m
           law == new.law
           EE == Times(SC \div x.ed, x.E)
           dE == DevS(EE)
           s == ev.s3
           ds == DevS(s)
           P == Minus(Times(2 * m.mu, dE), ds)
           kin == Kin(law, m)
           f == IF kin = 0 THEN 1 ELSE 2 * m.mu
           Rel(dev, pp) == Minus(Times(f, dev), Times(IF kin = 0 THEN 0 ELSE kin, pp))
           xt == Rel(Minus(Times(2 * m.mu, dE), prev[x.pt].P), prev[x.pt].P)
           xi == Rel(ds, P)
           curved == law = 2
           plain == curved /\ Len(m.curve) = 0
           r0 == f * Radius(law, m, prev[x.pt].p)
           r1 == f * Radius(law, m, ev.p)
           dp == ev.p - prev[x.pt].p
           w == 14 * f
           near(a, b, t) == H!Abs(a - b) <= t
           flow == \A n \in 1..9 : near(((P[n] - prev[x.pt].P[n]) * r1) \div 100, (3 * m.mu * dp * xi[n]) \div 100, 4 + (6 * (H!Abs(r1) + 3 * m.mu * (dp + H!Abs(xi[n])) * f)) \div 100)
           tn == Norm2(xt)
       IN /\ Holds(l, [symmetric |-> s = Transp(s, 3), plane |-> ev.s2 = Plane(s, new.d),
                      trace |-> near(Tr(s, 3), (3 * m.lam + 2 * m.mu) * Tr(EE, 3), 3 + 3 * m.lam + 2 * m.mu),
                      flag |-> IF plain THEN ~ev.pl ELSE IF ev.pl THEN Above(tn, r0, w) ELSE Below(tn, r0, w),
                      yield |-> IF ev.pl THEN SqClose(Norm2(xi), r1, w) ELSE TRUE,
                      increases |-> IF ev.pl THEN dp >= 0 ELSE dp = 0,
                      flow |-> IF ev.pl THEN flow ELSE AllClose(P, prev[x.pt].P, 8),
                      tangent |-> IF x.tan = 2 /\ (plain \/ Below(tn, r0 - 4 * w, 0) \/ Above(tn, r0 + 4 * w, 0)) THEN Fine(ev.fd) ELSE TRUE])
          /\ cur' = [cur EXCEPT ![x.pt].P = P, ![x.pt].p = ev.p] /\ Answer(x.pt) /\ UNCHANGED <<new, prev>>

(* logarithmic strains: the stress does the work of the conjugate stress T: P : dF = T : dE *)
Log == LET d == new.d
           work(i, j) == LET n == (i - 1) * d + j
                             g(a, b) == At(ev.T, 3, a, b) * ev.DE[n][(a - 1) * 3 + b]
                         IN Sum2(3, g)
           slack(i, j) == LET n == (i - 1) * d + j
                              g(a, b) == H!Abs(At(ev.T, 3, a, b)) + H!Abs(ev.DE[n][(a - 1) * 3 + b])
                          IN Sum2(3, g) + 300
       IN /\ Holds(l, [plane |-> ev.s2 = Plane(ev.s3, d), power |-> \A i, j \in 1..d : H!Abs(250 * At(ev.s2, d, i, j) - work(i, j)) <= slack(i, j),
                      history |-> ev.pl = ev.pl2 /\ ev.p = ev.p2, tangent |-> IF x.tan = 2 /\ ev.margin > 0 THEN ev.fd <= 500 ELSE TRUE])
          /\ Answer(x.pt) /\ UNCHANGED <<new, prev, cur>>

El == /\ Holds(l, [stress |-> ev.s3 = Hooke(new.m, x.E), plane |-> ev.s2 = Plane(ev.s3, new.d), flag |-> ~ev.pl /\ ev.p = 0,
                   tangent |-> IF x.tan > 0 THEN ev.tg = HookeT(new.m, new.d) ELSE TRUE])
      /\ Answer(x.pt) /\ UNCHANGED <<new, prev, cur>>
Hm == /\ Holds(l, [input |-> IsHm(x.E, new.d, x.q), stress |-> ev.s2 = HenckyStress(new.m, x.E, new.d, x.q), flag |-> ~ev.pl /\ ev.p = 0,
                   tangent |-> IF x.tan > 0 THEN ev.tg = HookeT(new.m, new.d) ELSE TRUE])
      /\ Keep
Hy == LET F == HyF(x.F, new.d)
          J == Det(F, 3)
          m == new.m
          rat == Rational(m.type, J)
      IN /\ Holds(l, [input |-> J > 0 /\ x.sc = 6 * J * J * J /\ x.st = 162 * J * J * J * J /\ (IF new.law = 5 THEN Inner(F, F, 3) = 27 ELSE TRUE),
                      stress |-> IF rat THEN ev.s3 = HyStress(m, new.law, m.type, F) ELSE AllClose(ev.sr, ApproxStress(m, new.law, m.type, F), 4),
                      plane |-> ev.s2r = Plane(ev.sr, new.d),
                      flag |-> ~ev.pl /\ ev.p = 0, tangent |-> IF rat /\ m.type # 3 THEN ev.tg = PlaneT(HyTangent(m, new.law, m.type, F), new.d) ELSE TRUE,
                      derivative |-> Fine(ev.fd), energy |-> Fine(ev.en)])
         /\ Answer(x.pt) /\ UNCHANGED <<new, prev, cur>>

Mate == Holds(l, [input |-> x.etd = ETd(x), E |-> ev.E = E3(x), nu |-> ev.nu = Nu3(x), ET |-> ev.ET = ETn(x),
                  same |-> <<ev.lam, ev.mu, ev.H, ev.K, ev.sy>> = <<x.lam, x.mu, x.H, x.K, x.sy>>,
                  back |-> <<ev.lam2, ev.mu2, ev.H2>> = <<x.lam, x.mu, x.H>>]) /\ Keep
Curve == LET srt == SortSeq(x.pts, LAMBDA a, b : a[1] < b[1])
             dup == \E i, j \in DOMAIN x.pts : i < j /\ x.pts[i][1] = x.pts[j][1]
         IN Holds(l, [refused |-> (ev.err # "") = dup, sorted |-> IF dup THEN TRUE ELSE ev.out = srt]) /\ Keep
Dis == Holds(l, [ok |-> (ev.err = "") = Compatible(x.def, x.law),
                 names |-> IF ev.err = "" THEN ev.defname = DefNames[x.def + 1] /\ ev.lawname = LawNames[x.law + 1] ELSE TRUE]) /\ Keep
Prj == Holds(l, [stress |-> \A i \in DOMAIN ev.res : ev.res[i] = 0, p |-> \A i \in DOMAIN ev.pres : ev.pres[i] = 0,
                 state |-> \A i \in DOMAIN ev.sres : ev.sres[i] = 0, sizes |-> ev.sizes]) /\ Keep

Init == l = 1 /\ new = [d |-> 0] /\ prev = [t \in Pts |-> Virgin(0)] /\ cur = prev /\ last = [t \in Pts |-> None]
Next ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ IF Trace[l].ev = "End" THEN Keep
       ELSE IF Trace[l].ev # "Op" THEN FALSE
       ELSE CASE Trace[l].in.op = "new" -> NewOk /\ new' = Trace[l].in /\ prev' = [t \in Pts |-> Virgin(0)] /\ cur' = [t \in Pts |-> Virgin(0)] /\ last' = [t \in Pts |-> None]
              [] Trace[l].in.op = "up" -> Holds(l, [done |-> ev.err = ""]) /\ prev' = cur /\ UNCHANGED <<new, cur, last>>
              [] Trace[l].in.op = "ps" -> Holds(l, [done |-> ev.err = "", same |-> IF ev.err = "" THEN [s3 |-> ev.s3, pl |-> ev.pl, p |-> ev.p] = last[x.pt] ELSE TRUE]) /\ Keep
              [] Trace[l].in.op = "bad" -> Holds(l, [refused |-> ev.err # ""]) /\ Keep
              [] Trace[l].in.op \in {"tr", "st", "lf", "el", "hm", "hy", "mat", "prj"} /\ Trace[l].err # "" -> Reject(l, {"done"})
              [] Trace[l].in.op = "tr" -> OneDir
              [] Trace[l].in.op = "st" -> Gen
              [] Trace[l].in.op = "lf" -> Log
              [] Trace[l].in.op = "el" -> El
              [] Trace[l].in.op = "hm" -> Hm
              [] Trace[l].in.op = "hy" -> Hy
              [] Trace[l].in.op = "mat" -> Mate
              [] Trace[l].in.op = "curve" -> Curve
              [] Trace[l].in.op = "dis" -> Dis
              [] Trace[l].in.op = "prj" -> Prj
Spec == Init /\ [][Next]_vars
View == l
=============================================================================
