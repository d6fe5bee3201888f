---------------------------- MODULE CondensationTrace --------------------------
(* Static condensation of single systems by every entry point of the library,
   whole problems (condense every cell, assemble, solve, expand), and the
   conjugate gradient solver. *)
EXTENDS Condensation, TraceLib
VARIABLES l, m, s, p
vars == <<l, m, s, p>>
None == [n |-> 0]
Init == l = 1 /\ m = [dim |-> 0] /\ s = None /\ p = None
Is(ev) == l <= Len(Trace) /\ Trace[l].ev = ev /\ l' = l + 1
e == Trace[l]
Rng(q) == {q[i] : i \in DOMAIN q}
Mesh == Is("Mesh") /\ m' = e /\ s' = None /\ p' = None
(* sizes announced by degrees: d the dimension, nc the components *)
DimP(k, d) == CASE d = 0 -> 1 [] d = 1 -> k + 1 [] d = 2 -> ((k + 1) * (k + 2)) \div 2 [] d = 3 -> ((k + 1) * (k + 2) * (k + 3)) \div 6
Sizes(x) == LET d == m.dim IN
    [t |-> x.nc * DimP(x.cdeg, d), f |-> LET S[i \in 0..Len(x.fdegs)] == IF i = 0 THEN 0 ELSE S[i - 1] + x.nc * DimP(x.fdegs[i], d - 1) IN S[Len(x.fdegs)]]
System == /\ Is("System")
          /\ LET K == TLCEval(Mul(e.L, Tr(e.L, Len(e.L)), Len(e.L)))  t == Len(e.L)  n == Len(e.A) IN
             /\ Holds(l, [unit |-> UnitLower(e.L), cell |-> K = Block(e.A, 0, t, 0, t),
                          size |-> ("cdeg" \in DOMAIN e) => (t = Sizes(e).t /\ n = t + Sizes(e).f)])
             /\ s' = [n |-> n, t |-> t, A |-> e.A, b |-> e.b, xF |-> e.xF, c |-> TLCEval(Cond(e.L, e.A, e.b))]
          /\ UNCHANGED <<m, p>>
Condense == /\ Is("Condense") /\ s.n > 0
            /\ Holds(l, [matrix |-> e.A = s.c.A,
                         rhs |-> ("b" \in DOMAIN e) => e.b = s.c.b,
                         cellmatrix |-> ("X" \in DOMAIN e) => e.X = s.c.X,
                         cellrhs |-> ("y" \in DOMAIN e) => e.y = s.c.y])
            /\ UNCHANGED <<m, s, p>>
(* of each column of unknowns of the faces; "homogeneous" for a zero right-hand side *)
Decondense == /\ Is("Decondense") /\ s.n > 0
              /\ LET c == IF e.homogeneous THEN [s.c EXCEPT !.y = [i \in 1..s.t |-> 0]] ELSE s.c IN
                 Holds(l, [solution |-> e.x = [i \in DOMAIN e.x |-> Expand(c, s.xF[i])],
                           columns |-> Len(e.x) \in {1, Len(s.xF)}])
              /\ UNCHANGED <<m, s, p>>
(* right-hand sides of a size that is neither that of the cell nor the whole *)
WrongSize == /\ Is("WrongSize") /\ s.n > 0
             /\ Holds(l, [asked |-> IF e.op = "condense" THEN e.size \notin {s.t, s.n} ELSE e.size < s.t, rejected |-> e.threw])
             /\ UNCHANGED <<m, s, p>>
(* a whole problem *)
Problem == /\ Is("Problem") /\ m.dim # 0
           /\ p' = [n |-> 1, x |-> e, A |-> [c \in DOMAIN m.cf |-> <<>>], b |-> [c \in DOMAIN m.cf |-> <<>>], t |-> DimP(e.cdeg, m.dim), nb |-> DimP(e.fdeg, m.dim - 1)]
           /\ UNCHANGED <<m, s>>
Local == /\ Is("Local") /\ p.n > 0
         /\ LET c == e.c + 1  n == Len(e.W)  W == e.W  t == p.t
                A == TLCEval(Mul(W, Tr(W, n), n))
                L == Block(W, 0, t, 0, t)
                D == TLCEval(Cond(L, A, e.b))
            IN /\ Holds(l, [size |-> n = t + p.nb * Len(m.cf[c]),
                            lower |-> \A i \in 1..n : W[i][i] # 0 /\ \A j \in (i + 1)..n : W[i][j] = 0,
                            unit |-> UnitLower(L),
                            matrix |-> e.A = D.A, rhs |-> e.cb = D.b])
               /\ p' = [p EXCEPT !.A[c] = A, !.b[c] = e.b]
         /\ UNCHANGED <<m, s>>
FacePos(c, f) == CHOOSE i \in DOMAIN m.cf[c] : m.cf[c][i] = f
Unk(c, f, k) == p.t + (FacePos(c, f) - 1) * p.nb + k
Solution ==
    /\ Is("Solution") /\ p.n > 0
    /\ LET cells == DOMAIN m.cf
           x == e.x
           Of(f) == {c \in cells : f \in Rng(m.cf[c])}
           fs == UNION {Rng(m.cf[c]) : c \in cells}
           Res(c, i) == Dot(p.A[c][i], x[c]) - p.b[c][i]
           Tot(f, k) == LET q == Of(f) IN
                        IF q = {} THEN 0 ELSE LET a == CHOOSE c \in q : TRUE  r == q \ {a} IN
                        Res(a, Unk(a, f, k)) + (IF r = {} THEN 0 ELSE LET d == CHOOSE c \in r : TRUE IN Res(d, Unk(d, f, k)))
       IN Holds(l, [cells |-> \A c \in cells : \A i \in 1..p.t : Res(c, i) = 0,
                    single |-> \A f \in fs : \A c, d \in Of(f) : \A k \in 1..p.nb : x[c][Unk(c, f, k)] = x[d][Unk(d, f, k)],
                    imposed |-> \A f \in fs : p.x.dir[f + 1] => \A c \in Of(f) : \A k \in 1..p.nb : x[c][Unk(c, f, k)] = IF k = 1 THEN p.x.dval[f + 1] ELSE 0,
                    faces |-> \A f \in fs : ~p.x.dir[f + 1] => \A k \in 1..p.nb : Tot(f, k) = 0])
    /\ UNCHANGED <<m, s, p>>
(* conjugate gradient: levels of the history: 0 reached the tolerance, 1 goes on,
   2 diverged; the iteration goes on as long as the level is 1 and it may *)
CG == /\ Is("CG")
      /\ LET h == e.levels  k == Len(h) - 1  mx == IF e.maxit = 0 THEN 2 * e.n ELSE e.maxit IN
         Holds(l, [returned |-> e.ret = e.square,
                   untouched |-> e.square \/ e.same,
                   stopped |-> (e.square /\ e.hist) => (\A i \in 1..k : h[i] = 1) /\ (h[k + 1] # 1 \/ k = mx \/ e.exact),
                   begins |-> (e.square /\ e.hist /\ ~e.exact) => h[1] = 1,   \* relative to the initial residual
                   limit |-> e.square => k <= mx,
                   converges |-> (e.square /\ e.hist /\ ~e.exact /\ mx >= 2 * e.n) => h[k + 1] # 1,
                   residual |-> (e.square /\ (e.exact \/ (e.hist /\ h[k + 1] = 0))) => e.res <= 1,
                   solution |-> (e.square /\ e.hist /\ h[k + 1] = 0) => e.err <= 1])
      /\ UNCHANGED <<m, s, p>>
(* the parameters given through a configuration act as those given directly *)
Same == Is("Same") /\ Holds(l, [equal |-> e.same]) /\ UNCHANGED <<m, s, p>>
End == Is("End") /\ UNCHANGED <<m, s, p>>
Next == Mesh \/ System \/ Condense \/ Decondense \/ WrongSize \/ Problem \/ Local \/ Solution \/ CG \/ Same \/ End
Spec == Init /\ [][Next]_vars
View == l
=============================================================================
