------------------------------ MODULE OutputGen ------------------------------
(* Histories of a silo database: all short ones over a small set of calls, and
   random longer ones. *)
EXTENDS Output, Json, IOUtils
NRAND == atoi(IOEnv.NRAND)
SEED == atoi(IOEnv.SEED)
VARIABLE c
Mix(x, y) == ((x % 30011) * 7919 + (y % 10007) * 10463 + 12345) % 1000003
R(n, t, k) == (Mix(Mix(SEED, n * 31 + t), Mix(t, n)) \div 7) % k
Pick(s, n, t) == s[1 + R(n, t, Len(s))]
Name(p, k) == p \o ToString(k)
Forms == <<"vec", "eigen", "silo", "complex", "mat2", "mat3">>
Cents == <<"zone", "node">>
Entries(h) == LET st == FoldLeft(Step, Fresh, h) IN IF st.open = 0 THEN <<>> ELSE st.f[st.open].ents
(* the call number k, of the kind w, after the calls of h *)
LastOf(h, o, d) == LET s == {j \in DOMAIN h : h[j].op = o} IN IF s = {} THEN d ELSE h[Max(s)].name
PtsOf(h) == LET s == {j \in DOMAIN h : h[j].op = "pts"} IN IF s = {} THEN 3 ELSE h[Max(s)].n
Call(h, w, a, b) ==
    LET k == Len(h) + 1 IN
    CASE w \in {"create", "open"} -> [op |-> w, file |-> 1 + (a % 2)]
      [] w = "close" -> [op |-> w]
      [] w = "mesh" -> [op |-> w, name |-> Name("m", k)]
      [] w = "pts" -> [op |-> w, name |-> Name("p", k), k |-> k, n |-> 1 + (a % 5)]
      [] w = "expr" -> [op |-> w, name |-> Name("e", k), def |-> Name("2*v", k)]
      [] w = "pvar" -> [op |-> w, name |-> Name("q", k), mesh |-> LastOf(Entries(h), "pts", "p0"), k |-> k, n |-> PtsOf(Entries(h)), nv |-> 1 + (a % 3)]
      [] w = "var" -> [op |-> w, name |-> Name("v", k), mesh |-> LastOf(h, "mesh", "m0"), k |-> k, form |-> Forms[1 + (a % 6)], cent |-> Cents[1 + (b % 2)]]
After(h) == FoldLeft(Step, Fresh, h)
Open == <<"mesh", "var", "var", "var", "pts", "pvar", "expr", "close">>
Closed == <<"create", "create", "open", "open", "mesh", "var", "pvar", "expr", "close">>
Ext(h, n, t) == LET st == After(h)
                    v == IF st.open = 0 THEN Pick(Closed, n, t) ELSE Pick(Open, n, t)
                    (* the library reads back values on points only with their mesh *)
                    w == IF v = "pvar" /\ st.open # 0 /\ (\A k \in DOMAIN st.f[st.open].ents : st.f[st.open].ents[k].op # "pts") THEN "var" ELSE v
                IN Append(h, Call(h, w, R(n, t + 50, 30), R(n, t + 90, 30)))
Random(n) == LET h == FoldLeft(LAMBDA x, t : Ext(x, n, t), <<>>, [t \in 1..(4 + (n % 9)) |-> t])
             IN IF n % 3 = 0 THEN h ELSE
                FoldLeft(LAMBDA x, t : Ext(x, n, t), << [op |-> "create", file |-> 1] >>, [t \in 1..(4 + (n % 9)) |-> t + 20])
(* every form of variable and every call, on an open and on a closed database *)
Ws == {<<"mesh", 0, 0>>, <<"pts", 2, 0>>, <<"expr", 0, 0>>} \cup {<<"pvar", a, 0>> : a \in 0..2} \cup {<<"var", a, b>> : a \in 0..5, b \in 0..1}
Do(h, w) == Append(h, Call(h, w[1], w[2], w[3]))
Base(k) == FoldLeft(Do, <<>>, CASE k = 1 -> << <<"create", 0, 0>>, <<"mesh", 0, 0>>, <<"pts", 3, 0>> >>
                                [] k = 2 -> <<>>
                                [] k = 3 -> << <<"create", 0, 0>>, <<"mesh", 0, 0>>, <<"close", 0, 0>> >>
                                [] k = 4 -> << <<"create", 0, 0>>, <<"mesh", 0, 0>>, <<"pts", 1, 0>>, <<"close", 0, 0>>, <<"open", 0, 0>> >>
                                [] k = 5 -> << <<"open", 1, 0>> >>)
Init == \/ \E n \in 1..NRAND : c = Random(n)
        \/ \E k \in 1..5, w \in Ws : c = Do(Base(k), w)
        \/ \E a, b \in {"create", "open"}, x, y \in 0..1 : c = Do(Do(Do(Do(Do(Do(<<>>, <<a, x, 0>>), <<"mesh", 0, 0>>), <<"close", 0, 0>>), <<b, y, 0>>), <<"var", 1, 1>>), <<"mesh", 0, 0>>)
Next == FALSE /\ c' = c
Spec == Init /\ [][Next]_c
Emit == PrintT("@@ " \o ToJson(c))
=============================================================================
