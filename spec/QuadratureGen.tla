---------------------------- MODULE QuadratureGen ----------------------------
(* Uses of the quadrature rules: rule, degree asked, power integrated, shape
   with integer vertices, affine form with natural values on the vertices. *)
EXTENDS MeshDoc, Json, IOUtils
SEED == atoi(IOEnv.SEED)
NREP == atoi(IOEnv.NREP)
R(x, t, k) == Rand(SEED * 613 + x, t, k)
(* name, shape, dimension, last degree documented, last degree tried *)
Rules == { <<"gl1", "seg", 1, 39, 42>>, <<"gl2", "seg", 2, 39, 42>>, <<"gl3", "seg", 3, 39, 42>>,
           <<"lob1", "seg", 1, 37, 40>>, <<"lob2", "seg", 2, 37, 40>>, <<"lob3", "seg", 3, 37, 40>>,
           <<"gw", "ref", 1, 50, 41>>, <<"gold", "ref", 1, 50, 41>>, <<"quadr", "refsq", 2, 50, 20>>,
           <<"iq", "par", 2, 50, 16>>, <<"tens2", "par", 2, 39, 41>>, <<"tens2a", "par", 2, 39, 41>>, <<"tens3f", "rect", 3, 39, 41>>, <<"tens3", "box", 3, 39, 40>>,
           <<"tri", "tri", 2, 50, 36>>, <<"tria", "tri", 2, 50, 36>>, <<"tri3", "tri", 3, 30, 32>>, <<"dun", "tri", 2, 20, 22>>, <<"dun3", "tri", 3, 20, 22>>,
           <<"gm2", "tri", 2, 50, 14>>, <<"gm3", "tet", 3, 50, 14>>, <<"arbq", "tet", 3, 15, 15>> }
Coord(x, t) == R(x, t, 7)
V(x, t, d) == [k \in 1..d |-> Coord(x, t * 5 + k)]
Add(p, q) == [k \in DOMAIN p |-> p[k] + q[k]]
Diff(p, q) == [k \in DOMAIN p |-> p[k] - q[k]]
Shape(sh, d, x) ==
    CASE sh = "seg" -> LET a == V(x, 1, d)  b == V(x, 2, d) IN IF a = b THEN <<a, Add(b, [k \in 1..d |-> k])>> ELSE <<a, b>>
      [] sh = "ref" -> << <<-1>>, <<1>> >>
      [] sh = "refsq" -> << <<-1, -1>>, <<1, -1>>, <<1, 1>>, <<-1, 1>> >>
      [] sh = "par" -> LET a == V(x, 1, 2)  u == <<1 + R(x, 11, 4), R(x, 12, 3) - 1>>  w == <<R(x, 13, 3) - 1, 2 + R(x, 14, 4)>>
                       IN <<a, Add(a, u), Add(Add(a, u), w), Add(a, w)>>
      [] sh = "rect" -> LET a == V(x, 1, 3)  s == 1 + R(x, 11, 4)  t == 1 + R(x, 12, 4)  o == R(x, 15, 5)
                            u == CASE o = 0 -> <<s, 0, 0>> [] o = 1 -> <<0, s, 0>> [] o = 2 -> <<0, 0, s>> [] o = 3 -> <<3 * s, 4 * s, 0>> [] o = 4 -> <<s, 0, s>>
                            w == CASE o = 0 -> <<0, 0, t>> [] o = 1 -> <<t, 0, 0>> [] o = 2 -> <<0, t, 0>> [] o = 3 -> <<-4 * t, 3 * t, 0>> [] o = 4 -> <<0, -t, 0>>
                        IN <<a, Add(a, u), Add(Add(a, u), w), Add(a, w)>>
      [] sh = "box" -> LET a == V(x, 1, 3) IN <<a, Add(a, <<2 + R(x, 11, 3), R(x, 12, 2), 0>>), Add(a, <<0, 1 + R(x, 13, 3), R(x, 14, 2)>>), Add(a, <<R(x, 15, 2), 0, 3>>)>>
      [] sh = "tri" -> LET a == V(x, 1, d)  b == V(x, 2, d)  c == V(x, 3, d)
                           ok == IF d = 2 THEN Cross2(Diff(b, a), Diff(c, a)) # 0 ELSE Cross3(Diff(b, a), Diff(c, a)) # <<0, 0, 0>>
                       IN IF ok THEN <<a, b, c>> ELSE <<a, Add(a, [k \in 1..d |-> IF k = 1 THEN 3 ELSE 1]), Add(a, [k \in 1..d |-> IF k = 2 THEN 4 ELSE 0])>>
      [] sh = "tet" -> LET a == V(x, 1, 3)  b == V(x, 2, 3)  c == V(x, 3, 3)  g == V(x, 4, 3)
                       IN IF Det3(Diff(b, a), Diff(c, a), Diff(g, a)) # 0 THEN <<a, b, c, g>>
                          ELSE <<a, Add(a, <<2, 1, 0>>), Add(a, <<0, 3, 0>>), Add(a, <<1, 1, 2>>)>>
Out(sh) == CASE sh \in {"seg", "ref"} -> "seg" [] sh \in {"refsq", "par", "rect", "tri"} -> "poly" [] OTHER -> sh
(* the coordinate used for measuring: largest component of the edge / of the normal *)
ArgMax(v) == CHOOSE k \in DOMAIN v : \A j \in DOMAIN v : Abs(v[j]) <= Abs(v[k])
Axis(sh, ps) == LET d == Len(ps[1]) IN
                IF sh = "seg" THEN ArgMax(Diff(ps[2], ps[1]))
                ELSE IF sh = "poly" /\ d = 3 THEN ArgMax(Cross3(Diff(ps[2], ps[1]), Diff(ps[3], ps[1]))) ELSE 0
Corners(sh, ps) == IF sh = "box" THEN LET a == ps[1]  u == Diff(ps[2], a)  w == Diff(ps[3], a)  z == Diff(ps[4], a) IN
                        ps \o <<Add(ps[2], w), Add(ps[2], z), Add(ps[3], z), Add(Add(ps[2], w), z)>> ELSE ps
Form(x, ps, d) == LET n0 == [k \in 1..d |-> R(x, 30 + k, 5) - 2]
                      n == IF \A k \in 1..d : n0[k] = 0 THEN [k \in 1..d |-> 1] ELSE n0
                      vals == {SumSeq([k \in 1..d |-> n[k] * ps[j][k]]) : j \in DOMAIN ps}
                  IN n \o << R(x, 40, 3) - Min(vals) >>
Powers(deg) == {deg} \cup (IF deg > 0 THEN {deg - 1} ELSE {}) \cup (IF deg > 3 THEN {deg \div 2} ELSE {})
VARIABLE g
Init == \E r \in Rules : \E deg \in 0..r[5] : \E q \in Powers(deg) : \E j \in 1..NREP :
           LET x == deg * 50 + q + j * 3001
               ps == Shape(r[2], r[3], x)
           IN g = [rule |-> r[1], shape |-> Out(r[2]), deg |-> deg, q |-> q, ps |-> ps, k |-> Axis(Out(r[2]), ps),
                   form |-> Form(x, Corners(r[2], ps), r[3]), max |-> r[4]]
Next == FALSE /\ g' = g
Spec == Init /\ [][Next]_g
Emit == PrintT("@@ " \o ToJson(g))
=============================================================================
