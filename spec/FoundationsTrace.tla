--------------------------- MODULE FoundationsTrace ---------------------------
EXTENDS Foundations, TraceLib
VARIABLES l, reg, m, AB
vars == <<l, reg, m, AB>>
Init == l = 1 /\ reg = <<0, 1>> /\ m = [nc |-> 0] /\ AB = <<>>
e == Trace[l]
Is(ev) == l <= Len(Trace) /\ e.ev = ev /\ l' = l + 1
R(x) == Norm(x[1], x[2])
Pair == /\ Is("Pair") /\ UNCHANGED <<reg, m, AB>>
        /\ LET a == R(e.a) b == R(e.b) IN
           Holds(l, [make |-> Shows(e.ra, a) /\ Shows(e.rb, b),
                     add |-> Shows(e.add, Add(a, b)), sub |-> Shows(e.sub, Sub(a, b)), mul |-> Shows(e.mul, Mul(a, b)),
                     div |-> b[1] # 0 => Shows(e.div, Div(a, b)) /\ Shows(e.div2, Div(a, b)),
                     add2 |-> Shows(e.add2, Add(a, b)), sub2 |-> Shows(e.sub2, Sub(a, b)), mul2 |-> Shows(e.mul2, Mul(a, b)),
                     neg |-> Shows(e.neg, Neg(a)), abs |-> Shows(e.abs, AbsR(a)), inv |-> a[1] # 0 => Shows(e.inv, Inv(a)),
                     muli |-> Shows(e.muli, Mul(a, <<e.b[1], 1>>)), divi |-> e.b[1] # 0 => Shows(e.divi, Div(a, <<e.b[1], 1>>)),
                     lt |-> e.lt = Bool(Less(a, b)), gt |-> e.gt = Bool(Less(b, a)),
                     le |-> e.le = Bool(~Less(b, a)), ge |-> e.ge = Bool(~Less(a, b)),
                     dbl |-> e.dbl * e.ra[2] = e.ra[1] * 12 \/ e.ra[2] \notin {1, 2, 3, 4, 6}])
Start == Is("Start") /\ reg' = R(e.a) /\ UNCHANGED <<m, AB>>
Op == /\ Is("Step") /\ UNCHANGED <<m, AB>>
      /\ LET b == IF e.op = "inv" /\ reg[1] = 0 THEN reg ELSE Step(e.op, reg, R(e.b)) IN
         /\ reg' = b /\ Holds(l, [value |-> Shows(e.r, b)])
IntEv == /\ Is("Ints") /\ UNCHANGED <<reg, m, AB>>
       /\ Holds(l, [gcd |-> e.gcd = Gcd(e.a, e.b), lcm |-> IF e.a = 0 \/ e.b = 0 THEN e.lcm = 0
                        ELSE e.lcm = AbsI(e.a * e.b) \div Gcd(e.a, e.b),
                    sgn |-> e.sgn = Bool(e.a < 0)])
Comb == /\ Is("Comb") /\ UNCHANGED <<reg, m, AB>>
        /\ Holds(l, [fact |-> e.fact = Fact(e.n), binomial |-> \A k \in 0..e.n : e.bin[k + 1] = Binomial(e.n, k)])
V(n, F(_)) == [i \in 1..n |-> F(i)]
Sum(n, F(_)) == LET S[i \in 0..n] == IF i = 0 THEN 0 ELSE S[i - 1] + F(i) IN S[n]
Points == /\ Is("Points") /\ UNCHANGED <<reg, m, AB>>
          /\ LET n == e.dim p == e.p q == e.q s == e.s IN
             Holds(l, [sum |-> e.sum = V(n, LAMBDA i : p[i] + q[i]), dif |-> e.dif = V(n, LAMBDA i : p[i] - q[i]),
                       neg |-> e.neg = V(n, LAMBDA i : -p[i]), ps |-> e.ps = V(n, LAMBDA i : s * p[i]), sp |-> e.sp = V(n, LAMBDA i : s * p[i]),
                       quo |-> e.quo = V(n, LAMBDA i : p[i]), mid |-> e.mid = V(n, LAMBDA i : p[i] + q[i]),
                       vec |-> e.vec = V(n, LAMBDA i : p[i]), back |-> e.back = V(n, LAMBDA i : p[i]),
                       pv |-> e.pv = V(n, LAMBDA i : p[i] + q[i]), all |-> e.all = V(n, LAMBDA i : s),
                       xyz |-> e.xyz = V(n, LAMBDA i : p[i]), set |-> e.set = V(n, LAMBDA i : q[i]),
                       dist |-> e.dist = Sum(n, LAMBDA i : (p[i] - q[i]) * (p[i] - q[i])),
                       det |-> n = 2 => e.det = p[1] * q[2] - p[2] * q[1],
                       at |-> e.at = 1, list |-> e.list = 1, zero |-> e.zero = V(n, LAMBDA i : 0)])
RPoints == /\ Is("RPoints") /\ UNCHANGED <<reg, m, AB>>
           /\ LET p == V(2, LAMBDA i : R(<<e.p[i], e.den>>)) q == V(2, LAMBDA i : R(<<e.q[i], e.den + 1>>)) s == <<e.s, 1>>
                  Is2(r, F(_)) == \A i \in 1..2 : Shows(r[i], F(i)) IN
              Holds(l, [sum |-> Is2(e.sum, LAMBDA i : Add(p[i], q[i])), dif |-> Is2(e.dif, LAMBDA i : Sub(p[i], q[i])),
                        ps |-> Is2(e.ps, LAMBDA i : Mul(p[i], s)), quo |-> Is2(e.quo, LAMBDA i : Div(p[i], s)),
                        mid |-> Is2(e.mid, LAMBDA i : Div(Add(p[i], q[i]), <<2, 1>>)), neg |-> Is2(e.neg, LAMBDA i : Neg(p[i])),
                        det |-> Shows(e.det, Sub(Mul(p[1], q[2]), Mul(p[2], q[1])))])
Ident == /\ Is("Ident") /\ UNCHANGED <<reg, m, AB>>
         /\ Holds(l, [value |-> e.value = e.a, invalid |-> e.throws = 1, eq |-> e.eq = Bool(e.a = e.b), ne |-> e.ne = Bool(e.a # e.b),
                      lt |-> e.lt = Bool(e.a < e.b)])
File == /\ Is("File") /\ UNCHANGED <<reg, m, AB>>
        /\ Holds(l, [open |-> e.open = 1, missing |-> e.missing = 0, lines |-> e.lines = Lines(e.lens), end |-> e.ended = 1, closed |-> e.closed = 0])
Area2(p, c) == LET a == p[c[1] + 1] b == p[c[2] + 1] d == p[c[3] + 1] IN (b[1] - a[1]) * (d[2] - a[2]) - (d[1] - a[1]) * (b[2] - a[2])
RMesh == /\ Is("RMesh") /\ UNCHANGED <<reg, m, AB>>
         /\ LET D == e.den n == Len(e.cells)
                ar(k) == Norm(AbsI(Area2(e.pts, e.cells[k])), 2 * D * D)
                sg(k) == Norm(Area2(e.pts, e.cells[k]), 2 * D * D)
                tot == Norm(Sum(n, LAMBDA k : AbsI(Area2(e.pts, e.cells[k]))), 2 * D * D)
                bar(k, i) == Norm(e.pts[e.cells[k][1] + 1][i] + e.pts[e.cells[k][2] + 1][i] + e.pts[e.cells[k][3] + 1][i], 3 * D) IN
            Holds(l, [area |-> \A k \in 1..n : Shows(e.area[k], ar(k)), signed |-> \A k \in 1..n : Shows(e.signed[k], sg(k)),
                      bar |-> \A k \in 1..n : \A i \in 1..2 : Shows(e.bar[k][i], bar(k, i)),
                      levels |-> \A j \in 1..Len(e.total) : Shows(e.total[j], tot),
                      count |-> \A j \in 1..Len(e.count) : e.count[j] = n * (4 ^ j)])
Mesh == Is("Mesh") /\ m' = e /\ AB' = <<NewRegistry(e, 0, <<0, 0, 0>>), NewRegistry(e, 0, <<0, 0, 0>>)>> /\ UNCHANGED reg
Reg == Is("Reg") /\ AB' = ApplyOp(m, AB, e) /\ UNCHANGED <<reg, m>>
Query == Is("Query") /\ Holds(l, RegistryClauses(m, AB[1], e.A)) /\ Holds(l, RegistryClauses(m, AB[2], e.B)) /\ UNCHANGED <<reg, m, AB>>
Ctor == /\ Is("Ctor") /\ UNCHANGED <<reg, m, AB>>
        /\ LET x == CellCtor(e.k, e.v, e.fs, Len(m.cf[e.c + 1])) IN Holds(l, [info |-> e.info = x.i, faces |-> e.faces = x.f])
End == Is("End") /\ UNCHANGED <<reg, m, AB>>
Next == Pair \/ Start \/ Op \/ IntEv \/ Comb \/ Points \/ RPoints \/ Ident \/ File \/ RMesh \/ Mesh \/ Reg \/ Query \/ Ctor \/ End
Spec == Init /\ [][Next]_vars
View == l
=============================================================================
