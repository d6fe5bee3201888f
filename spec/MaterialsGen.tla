----------------------------- MODULE MaterialsGen ------------------------------
(* Programs of material points: a law for a measure of deformation on a small mesh,
   then trials at three quadrature points, updates and queries. *)
EXTENDS Materials, TLC, Json, IOUtils, SequencesExt
NRAND == atoi(IOEnv.NRAND)
SEED == atoi(IOEnv.SEED)
R(n, t, m) == (LET a == (((n * 7919) + (t * 104729) + (SEED * 31)) % 46337)
                   b == ((a * a) + (n * 13) + t) % 46337
                   c == ((b * 4099) + t) % 46337
               IN (c * c) % 46337) % m
Sg(n, t, w) == R(n, t, 2 * w + 1) - w
Pick(n, t, s) == s[R(n, t, Len(s)) + 1]
SymR(n, t, w, d) == LET f(i, j) == IF i > d \/ j > d THEN 0 ELSE Sg(n, t + (IF i <= j THEN 3 * i + j ELSE 3 * j + i) * 5, w) IN Mat(3, f)
Mat0 == [lam |-> 1, mu |-> 1, H |-> 0, K |-> 0, sy |-> 8, type |-> 1, curve |-> <<>>, q |-> 1]
(* ---- directions ---- *)
Dirs3 == << <<<<2, 0, 0, 0, -1, 0, 0, 0, -1>>, 1>>, <<<<-1, 0, 0, 0, 2, 0, 0, 0, -1>>, 1>>, <<<<0, 1, 1, 1, 0, 1, 1, 1, 0>>, 1>>,
            <<<<1, 3, 0, 3, 1, 0, 0, 0, -2>>, 2>>, <<<<1, 0, -3, 0, -2, 0, -3, 0, 1>>, 2>>,
            <<<<-2, 2, 2, 2, 1, 4, 2, 4, 1>>, 3>>, <<<<1, -2, 4, -2, -2, -2, 4, -2, 1>>, 3>>, <<<<2, 36, 0, 36, 23, 0, 0, 0, -25>>, 25>> >>
Dirs2 == << <<<<2, 0, 0, 0, -1, 0, 0, 0, -1>>, 1>>, <<<<-1, 0, 0, 0, -1, 0, 0, 0, 2>>, 1>>, <<<<1, 3, 0, 3, 1, 0, 0, 0, -2>>, 2>>, <<<<2, -36, 0, -36, 23, 0, 0, 0, -25>>, 25>>,
            <<<<23, 36, 0, 36, 2, 0, 0, 0, -25>>, 25>> >>
(* principal axes and stretches of logarithmic strains *)
Axes3 == << <<<<1, 0, 0, 0, 1, 0, 0, 0, 1>>, 1>>, <<<<1, 2, 2, 2, 1, -2, 2, -2, 1>>, 3>>, <<<<3, 4, 0, 4, -3, 0, 0, 0, 5>>, 5>>, <<<<5, 0, 0, 0, 3, 4, 0, 4, -3>>, 5>> >>
Axes2 == << <<<<1, 0, 0, 0, 1, 0, 0, 0, 1>>, 1>>, <<<<3, 4, 0, 4, -3, 0, 0, 0, 5>>, 5>> >>
Rot3 == << <<<<1, 0, 0, 0, 1, 0, 0, 0, 1>>, 1>>, <<<<2, -1, 2, 2, 2, -1, -1, 2, 2>>, 3>>, <<<<3, -4, 0, 4, 3, 0, 0, 0, 5>>, 5>>, <<<<0, 0, 1, 1, 0, 0, 0, 1, 0>>, 1>> >>
Rot2 == << <<<<1, 0, 0, 0, 1, 0, 0, 0, 1>>, 1>>, <<<<3, -4, 0, 4, 3, 0, 0, 0, 5>>, 5>>, <<<<0, -1, 0, 1, 0, 0, 0, 0, 1>>, 1>> >>
Stretch == << <<2, -1, -1>>, <<-1, 2, -1>>, <<-1, -1, 2>> >>
Spec3(V, D) == LET f(i, j) == LET g(m) == At(V, 3, i, m) * D[m] * At(V, 3, j, m) IN Sum(3, g) IN Mat(3, f)
Dir(n, pt, d, log) ==
    IF log THEN LET V == Pick(n, 60 + pt, IF d = 2 THEN Axes2 ELSE Axes3) D == Pick(n, 70 + pt, Stretch)
                IN [N |-> Spec3(V[1], D), k |-> V[2] * V[2], V |-> V[1], vd |-> V[2], D |-> D]
    ELSE LET x == Pick(n, 60 + pt, IF d = 2 THEN Dirs2 ELSE Dirs3)
         IN [N |-> x[1], k |-> x[2], V |-> x[1], vd |-> 1, D |-> <<0, 0, 0>>]
(* strain along the direction that keeps the third axis of a plane point unstrained *)
Vol(n, t, d, D, e) == IF d = 3 THEN Sg(n, t, 4) ELSE -((e * At(D.N, 3, 3, 3)) \div (3 * D.k))
(* ---- materials ---- *)
Lin == << <<1, 1, 0>>, <<1, 5, 0>>, <<1, 0, 2>>, <<1, 1, 2>>, <<1, 2, 2>>, <<1, -1, 2>>, <<1, 0, 0>>, <<2, 1, 0>>, <<2, 2, 0>>, <<2, -1, 0>>, <<1, 0, 4>> >>
LinMat(n) == LET x == Pick(n, 20, Lin) IN [Mat0 EXCEPT !.mu = x[1], !.H = x[2], !.K = x[3], !.lam = R(n, 21, 3), !.sy = 4 + R(n, 22, 13)]
CurveMat(n) ==
    LET mu == 1 + R(n, 23, 2)
        np == R(n, 24, 5)
        ls == IF mu = 1 THEN <<1, 5, 13>> ELSE <<2, 10>>
        ms == IF mu = 1 THEN <<1, 5, 13, -1>> ELSE <<2, 10>>
        p0 == IF R(n, 25, 4) = 0 THEN 1 ELSE 0
        add(c, i) == LET last == c[Len(c)] dp == 1 + R(n, 26 + i, 5) s == Pick(n, 32 + i, IF i = np THEN ls ELSE ms)
                     IN Append(c, <<last[1] + dp, last[2] + s * dp>>)
    IN [Mat0 EXCEPT !.mu = mu, !.lam = R(n, 21, 3), !.q = 32768,
                    !.curve = IF np = 0 THEN <<>> ELSE FoldLeft(add, << <<p0, 20 + R(n, 22, 8)>> >>, [i \in 1..np |-> i])]
MatOf(n, law) == CASE law = 0 -> [Mat0 EXCEPT !.mu = 1 + R(n, 20, 3), !.lam = R(n, 21, 4)] [] law = 1 -> LinMat(n) [] law = 2 -> CurveMat(n)
New(n, kind, d, def, law, m) == [op |-> "new", kind |-> kind, d |-> d, def |-> def, law |-> law, deg |-> 2 + R(n, 10, 3), m |-> m]
(* ---- histories along one direction per point, exact ---- *)
Good(law, m, st) == ~st.edge /\ st.n <= 4 /\ (law # 1 \/ m.sy * H!Q(m) + m.H * st.p > 0)
Hist(n, d, def, law) ==
    LET log == def = 1
        m == TLCEval(MatOf(n, law))
        D == TLCEval([pt \in 1..3 |-> Dir(n, pt, d, log)])
        E(i, j) == IF d = 2 \/ log THEN 3 * Sg(n, 100 * i + 11 * j, 6) ELSE Sg(n, 100 * i + 11 * j, 18)
        Trial(i, pt, e) ==
            LET v == Vol(n, 100 * i + 5, d, D[pt], e)
                rot == Pick(n, 100 * i + 7, IF d = 2 THEN Rot2 ELSE Rot3)
            IN [op |-> "tr", pt |-> pt, N |-> D[pt].N, k |-> D[pt].k, e |-> e, v |-> v, tan |-> R(n, 100 * i + 6, 3), sc |-> 24 * D[pt].k * Q(law, m),
                E |-> IF log THEN <<>> ELSE Plus(Times(e, D[pt].N), Times(3 * D[pt].k * v, Id(3))),
                V |-> IF log THEN D[pt].V ELSE <<>>, vd |-> D[pt].vd, a |-> IF log THEN [j \in 1..3 |-> (e \div 3) * D[pt].D[j] + v] ELSE <<>>,
                R |-> IF log THEN rot[1] ELSE <<>>, rd |-> rot[2]]
        Step(S, i) ==
            LET k == R(n, 100 * i, 10)
                pt == 1 + R(n, 100 * i + 1, IF k = 9 THEN 3 ELSE 2 + (n % 2))
            IN IF k <= 2 THEN [S EXCEPT !.ops = Append(@, [op |-> "up"]), !.prev = S.cur]
               ELSE IF k = 3 THEN [S EXCEPT !.ops = Append(@, [op |-> "ps", pt |-> pt])]
               ELSE IF k = 4 /\ log THEN [S EXCEPT !.ops = Append(@, [op |-> "bad", pt |-> pt, F |-> Pick(n, 100 * i + 2, << <<1, 0, 0, 0, -1, 0, 0, 0, 1>>, <<1, 2, 0, 2, 4, 0, 0, 0, 1>>, <<0, 0, 0, 0, 0, 0, 0, 0, 1>> >>)])]
               ELSE LET c == SelectSeq(<<E(i, 1), E(i, 2), E(i, 3), E(i, 4)>>, LAMBDA e : Good(law, m, Ret(law, m, S.prev[pt], e)))
                    IN IF Len(c) = 0 THEN [S EXCEPT !.ops = Append(@, [op |-> "ps", pt |-> pt])]
                       ELSE [S EXCEPT !.ops = Append(@, Trial(i, pt, c[1])), !.cur[pt] = Ret(law, m, S.prev[pt], c[1])]
        v3 == [pt \in 1..3 |-> H!Virgin]
    IN FoldLeft(Step, [ops |-> <<New(n, "pl", d, def, law, m)>>, prev |-> v3, cur |-> v3], [i \in 1..(12 + R(n, 11, 8)) |-> i]).ops
(* ---- any path ---- *)
Path(n, d, law) ==
    LET m == TLCEval([MatOf(n, law) EXCEPT !.H = H!Abs(@)])
        Do(i) == LET k == R(n, 100 * i, 10) pt == 1 + R(n, 100 * i + 1, 2)
                 IN IF k <= 2 THEN [op |-> "up"] ELSE IF k = 3 THEN [op |-> "ps", pt |-> pt]
                    ELSE [op |-> "st", pt |-> pt, E |-> SymR(n, 100 * i + 2, 8, d), ed |-> 8, tan |-> R(n, 100 * i + 3, 3)]
    IN <<New(n, "pr", d, 0, law, m)>> \o [i \in 1..(10 + R(n, 11, 8)) |-> Do(i)]
(* ---- logarithmic strains along any path, against the small strain law ---- *)
DetD(F) == Det(F, 3)
LogPath(n, d, law) ==
    LET m == TLCEval([MatOf(n, law) EXCEPT !.H = H!Abs(@)])
        base(i) == LET r == Pick(n, 100 * i + 4, IF d = 2 THEN Rot2 ELSE Rot3) s == 1 + R(n, 100 * i + 5, 2)
                       f(a, b) == IF a <= d /\ b <= d THEN (s * 30 * At(r[1], 3, a, b)) \div r[2] ELSE 30 * Delta(a, b) IN Mat(3, f)
        gen(i) == LET f(a, b) == IF a <= d /\ b <= d THEN 30 * Delta(a, b) + Sg(n, 100 * i + 6 + a * 5 + b, 13) ELSE 30 * Delta(a, b) IN Mat(3, f)
        pert(i) == LET f(a, b) == IF a <= d /\ b <= d THEN Sg(n, 100 * i + 30 + a * 5 + b, 3) ELSE 0 IN Mat(3, f)
        Do(i) == LET k == R(n, 100 * i, 10) pt == 1 + R(n, 100 * i + 1, 2) g == gen(i)
                 IN IF k <= 2 THEN [op |-> "up"] ELSE IF k = 3 THEN [op |-> "ps", pt |-> pt]
                    ELSE IF k <= 6 /\ DetD(g) > 3000 THEN [op |-> "lf", pt |-> pt, F |-> g, fd |-> 30, P |-> pert(i), j |-> 0, tan |-> R(n, 100 * i + 3, 3)]
                    ELSE [op |-> "lf", pt |-> pt, F |-> base(i), fd |-> 30, P |-> pert(i), j |-> 1 + R(n, 100 * i + 2, 15), tan |-> R(n, 100 * i + 3, 3)]
    IN <<New(n, "lc", d, 1, law, m)>> \o [i \in 1..(8 + R(n, 11, 6)) |-> Do(i)]
(* ---- elastic laws ---- *)
Elastic(n, d) ==
    LET m == MatOf(n, 0)
        Do(i) == LET k == R(n, 100 * i, 8) pt == 1 + R(n, 100 * i + 1, 3)
                 IN IF k = 0 THEN [op |-> "up"] ELSE IF k = 1 THEN [op |-> "ps", pt |-> pt]
                    ELSE [op |-> "el", pt |-> pt, E |-> SymR(n, 100 * i + 2, 9, d), tan |-> R(n, 100 * i + 3, 3)]
    IN <<New(n, "el", d, 0, 0, m)>> \o [i \in 1..8 |-> Do(i)]
(* strains with |dev|^2 + 1 = q^2 *)
HmList(d) == IF d = 2 THEN << <<<<0, 0, 0, 0>>, 1>>, <<<<3, 0, 0, 3>>, 1>>, <<<<4, 2, 2, 4>>, 3>>, <<<<1, 2, 2, 1>>, 3>>, <<<<-5, 6, 6, -5>>, 0>>, <<<<4, 4, 4, 8>>, 0>>, <<<<5, -2, -2, 5>>, 3>>, <<<<7, 12, 12, 7>>, 17>>, <<<<1, -12, -12, 1>>, 17>>,
                               <<<<5, 4, 4, 1>>, 0>>, <<<<2, 0, 0, -2>>, 3>>, <<<<6, 0, 0, 2>>, 3>>, <<<<-1, 0, 0, -5>>, 3>>, <<<<13, 0, 0, -11>>, 17>> >>
             ELSE << <<<<0, 0, 0, 0, 0, 0, 0, 0, 0>>, 1>>, <<<<5, 0, 0, 0, 5, 0, 0, 0, 5>>, 1>>, <<<<1, 2, 0, 2, 1, 0, 0, 0, 1>>, 3>>, <<<<-2, 0, 2, 0, -2, 0, 2, 0, -2>>, 3>>,
                     <<<<3, 0, 0, 0, 3, -2, 0, -2, 3>>, 3>>, <<<<6, 0, 0, 0, 2, 0, 0, 0, 4>>, 3>>, <<<<0, 12, 0, 12, 0, 0, 0, 0, 0>>, 17>>, <<<<4, 2, 4, 2, 4, 2, 4, 2, 4>>, 7>>, <<<<-1, 4, 4, 4, -1, -4, 4, -4, -1>>, 0>>, <<<<3, 2, 2, 2, 1, 0, 2, 0, -1>>, 5>> >>
Hencky(n, d) ==
    LET m == [Mat0 EXCEPT !.mu = 2 * (1 + R(n, 20, 3)), !.lam = R(n, 21, 4)]
        ok == SelectSeq(HmList(d), LAMBDA x : IsHm(x[1], d, x[2]))
        Do(i) == LET x == Pick(n, 100 * i + 2, ok) IN
                 IF R(n, 100 * i, 8) = 0 THEN [op |-> "up"] ELSE [op |-> "hm", pt |-> 1 + R(n, 100 * i + 1, 3), E |-> x[1], q |-> x[2], tan |-> R(n, 100 * i + 3, 2)]
    IN <<New(n, "hm", d, 0, 3, m)>> \o [i \in 1..10 |-> Do(i)]
(* ---- hyperelastic laws ---- *)
Cav2 == << <<3, 4, -1, 0>>, <<0, -1, 4, 3>>, <<3, 4, 0, 1>>, <<4, 3, 0, 1>>, <<4, 0, -3, 1>>, <<1, 0, 4, 3>>, <<-3, 0, 4, -1>> >>
Cav3 == << <<1, 4, 2, 0, 1, 2, 0, 0, 1>>, <<2, 3, 0, 1, 2, 0, 0, 0, 3>>, <<1, 2, 0, 0, 1, 0, 2, 4, 1>>, <<2, 0, -3, 0, 3, 0, 1, 0, 2>>, <<0, 1, 2, 1, 4, 2, 0, 0, -1>>, <<3, 0, 0, 0, 2, 3, 0, 1, 2>>, <<3, 4, 0, -1, 0, 0, 0, 0, 1>>, <<1, 0, 0, 0, 0, -1, 0, 4, 3>> >>
HyperF(n, t, d, law) ==
    IF law = 5 THEN (LET x == Pick(n, t, IF d = 2 THEN Cav2 ELSE Cav3) IN IF R(n, t + 9, 5) = 0 THEN Times(-1, x) ELSE x)
    ELSE LET f(i, j) == Delta(i, j) + Sg(n, t + 4 * i + j, 2) IN Mat(d, f)
Hyper(n, d, law) ==
    LET m == [Mat0 EXCEPT !.mu = 3 * (1 + R(n, 20, 2)), !.lam = R(n, 21, 3), !.type = 1 + R(n, 22, 6)]
        Do(i) == LET F == TLCEval(HyperF(n, 100 * i + 2, d, law)) J == Jac(F, d)
                 IN IF R(n, 100 * i, 8) = 0 THEN [op |-> "up"]
                    ELSE IF J > (IF m.type = 5 THEN 2 ELSE 4) THEN [op |-> "up"]
                    ELSE IF J <= 0 THEN [op |-> "bad", pt |-> 1 + R(n, 100 * i + 1, 3), F |-> HyF(F, d)]
                    ELSE [op |-> "hy", pt |-> 1 + R(n, 100 * i + 1, 3), F |-> F, tan |-> R(n, 100 * i + 20, 2), sc |-> 6 * J * J * J, st |-> 162 * J * J * J * J]
    IN <<New(n, "hy", d, 2, law, m)>> \o [i \in 1..14 |-> Do(i)]
(* ---- parameters, curves, dispatch, projections ---- *)
Perm(n, t, L) == LET ins(a, i) == LET k == R(n, t + i, Len(a) + 1) IN SubSeq(a, 1, k) \o <<i>> \o SubSeq(a, k + 1, Len(a)) IN FoldLeft(ins, <<>>, [i \in 1..L |-> i])
Params(n) ==
    LET L == R(n, 40, 5)
        pts == [i \in 1..L |-> <<i * 3 - 2 + R(n, 41 + i, 3), R(n, 50 + i, 20)>>]
        p == Perm(n, 55, L)
        q == [i \in 1..L |-> pts[p[i]]]
        dup == L > 1 /\ R(n, 58, 3) = 0
        m == [lam |-> R(n, 30, 5), mu |-> 1 + R(n, 31, 4), H |-> R(n, 32, 4), K |-> 2 * R(n, 33, 3)]
    IN << [op |-> "mat", lam |-> m.lam, mu |-> m.mu, H |-> m.H, K |-> m.K, sy |-> 1 + R(n, 34, 9), etd |-> ETd(m)],
          [op |-> "curve", pts |-> IF dup THEN Append(q, <<q[1][1], 5>>) ELSE q] >>
Dispatch == [i \in 1..28 |-> [op |-> "dis", def |-> (i - 1) \div 7, law |-> (i - 1) % 7]]
Project(n, d, law) == << [op |-> "prj", d |-> d, law |-> law, m |-> MatOf(n, law), gd |-> R(n, 12, 3), seed |-> n] >>
VARIABLE c
Programs ==
    {[k |-> "hist", n |-> n, d |-> d, def |-> def, law |-> law] : n \in 1..NRAND, d \in {2, 3}, def \in {0, 1}, law \in {0, 1, 2}}
    \cup {[k |-> "path", n |-> n, d |-> d, def |-> 0, law |-> law] : n \in 1..NRAND, d \in {2, 3}, law \in {1, 2}}
    \cup {[k |-> "lpath", n |-> n, d |-> d, def |-> 1, law |-> law] : n \in 1..NRAND, d \in {2, 3}, law \in {0, 1, 2}}
    \cup {[k |-> "el", n |-> n, d |-> d, def |-> 0, law |-> 0] : n \in 1..NRAND, d \in {2, 3}}
    \cup {[k |-> "hm", n |-> n, d |-> d, def |-> 0, law |-> 3] : n \in 1..NRAND, d \in {2, 3}}
    \cup {[k |-> "hy", n |-> n, d |-> d, def |-> 2, law |-> law] : n \in 1..(2 * NRAND), d \in {2, 3}, law \in {4, 5}}
    \cup {[k |-> "par", n |-> n, d |-> 2, def |-> 0, law |-> 0] : n \in 1..NRAND}
    \cup {[k |-> "dis", n |-> 1, d |-> 2, def |-> 0, law |-> 0]}
    \cup {[k |-> "prj", n |-> n, d |-> d, def |-> 0, law |-> law] : n \in 1..NRAND, d \in {2, 3}, law \in {0, 1, 2}}
Ops(x) == LET nn == x.n * 64 + x.d * 16 + x.def * 8 + x.law IN
          CASE x.k = "hist" -> Hist(nn, x.d, x.def, x.law) [] x.k = "path" -> Path(nn, x.d, x.law) [] x.k = "lpath" -> LogPath(nn, x.d, x.law)
            [] x.k = "el" -> Elastic(nn, x.d) [] x.k = "hm" -> Hencky(nn, x.d) [] x.k = "hy" -> Hyper(nn, x.d, x.law)
            [] x.k = "par" -> Params(nn) [] x.k = "dis" -> Dispatch [] x.k = "prj" -> Project(nn, x.d, x.law)
Init == c \in Programs
Next == FALSE /\ c' = c
Spec == Init /\ [][Next]_c
Emit == PrintT("@@ " \o ToJson([k |-> c.k, ops |-> Ops(c)]))
=============================================================================
