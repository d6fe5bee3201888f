--------------------------- MODULE PolySpacesTrace ---------------------------
(* Bases and projections of the code against the polynomial spaces.
   Space  a basis on an element: its size, its numerical rank, and, for every
          generator of the space, the values (and images under differential
          operators) of the combination of basis functions that matches it, on a
          unisolvent lattice and at further points
   Proj   values of the projection of a generator
   Ortho  Gram matrix of a basis that must be orthonormal
   Gram   c_i^T A c_j for the coefficients c_i of the powers L^i of an affine form,
          A the mass matrix (kind 0) or the stiffness matrix (kind 1, divided by
          i j |grad L|^2), and c_i^T b_q, b_q the right-hand side of L^q (kind 2) *)
EXTENDS PolySpaces, Quadrature, TraceLib
VARIABLES l, m
Init == l = 1 /\ m = [dim |-> 0]
e == Trace[l]
Is(ev) == l <= Len(Trace) /\ e.ev = ev /\ l' = l + 1
Mesh == /\ Is("Mesh") /\ IF WellFormed(e) THEN m' = e ELSE Reject(l, "malformed")
Points == LET id == Lattice(Len(e.dirs), e.n) \o e.ex IN [i \in DOMAIN id |-> At(e.p0, e.dirs, id[i])]
Independent(dirs) == CASE Len(dirs) = 0 -> TRUE [] Len(dirs) = 1 -> \E k \in DOMAIN dirs[1] : dirs[1][k] # 0
                       [] Len(dirs) = 2 -> IF Len(dirs[1]) = 2 THEN Cross2(dirs[1], dirs[2]) # 0 ELSE Cross3(dirs[1], dirs[2]) # <<0, 0, 0>>
                       [] Len(dirs) = 3 -> Det3(dirs[1], dirs[2], dirs[3]) # 0
FlatVals(F, P) == FlattenSeq([i \in DOMAIN P |-> FVal(F, P[i])])
Same(v, F, P) == v = FlatVals(F, P)
Normal == IF Len(e.dirs) = 2 /\ e.d = 3 THEN Cross3(e.dirs[1], e.dirs[2]) ELSE <<0, 0, 0>>
(* the curl in two dimensions is defined up to its sign *)
SameUpToSign(vs, Fs, P) == \/ \A i \in DOMAIN vs : vs[i] = FlatVals(Fs[i], P)
                           \/ \A i \in DOMAIN vs : vs[i] = FlatVals(<<PNeg(Fs[i][1])>>, P)
Space == /\ Is("Space") /\ UNCHANGED m
         /\ LET P == TLCEval(Points)  N == TLCEval(Normal)  nc == NComp(e.fam, e.d)
                F == TLCEval([i \in DOMAIN e.mem |-> Field(e.mem[i], e.d, nc, N)])
                harm == e.fam = "harm"
            IN Holds(l, [
                lattice |-> Independent(e.dirs) /\ e.n >= e.deg /\ Len(e.dirs) = e.s,
                asked   |-> Rng(e.mem) = (IF harm THEN GensHarm(e.deg, e.par, e.d) ELSE Gens(e.fam, e.deg, e.d)) /\ Len(e.val) = Len(e.mem),
                size    |-> e.size = (IF harm THEN SizeHarm(e.deg, e.par, e.d) ELSE Size(e.fam, e.deg, e.d, e.s)),
                rank    |-> e.rank = e.size,
                values  |-> \A i \in DOMAIN F : Same(e.val[i], F[i], P),
                derivatives |-> \A o \in DOMAIN e.ops :
                    LET G == [i \in DOMAIN F |-> Oper(e.ops[o], F[i], e.d)] IN
                    IF e.ops[o] = "curl" /\ e.d = 2 THEN SameUpToSign(e.dv[o], G, P)
                    ELSE \A i \in DOMAIN F : Same(e.dv[o][i], G[i], P)])
(* a projection reproduces the field *)
Proj == /\ Is("Proj") /\ UNCHANGED m
        /\ LET P == TLCEval(Points)  nc == NComp(e.fam, e.d)  F == Field(e.mem, e.d, nc, Normal)
           IN Holds(l, [lattice |-> Independent(e.dirs) /\ e.n >= e.deg,
                        reproduced |-> Same(e.val, Oper(e.op, F, e.d), P)])
Ortho == /\ Is("Ortho") /\ UNCHANGED m
         /\ Holds(l, [orthonormal |-> \A i \in DOMAIN e.gram : \A j \in DOMAIN e.gram[i] : e.gram[i][j] = (IF i = j THEN 1000000 ELSE 0),
                      square |-> Len(e.gram) = e.size /\ \A i \in DOMAIN e.gram : Len(e.gram[i]) = e.size])
Width(Q) == 10 + ((Q * 3) \div 4)
Sim == IF e.cell THEN SimCell(m, e.i + 1, e.form) ELSE SimFace(m, e.i + 1, e.k, e.form)
Gram == /\ Is("Gram") /\ UNCHANGED m /\ m.dim # 0
        /\ LET Q == e.maxq  W == Width(Q)  mo == TLCEval(Moments(Sim, Q, W)) IN
           Holds(l, [moments |-> \A x \in DOMAIN e.v : MomentOk(e.v[x], mo[e.q[x] + 1], W, e.tol),
                     filled |-> Len(e.v) = Len(e.q)])
End == Is("End") /\ UNCHANGED m
Next == Mesh \/ Space \/ Proj \/ Ortho \/ Gram \/ End
Spec == Init /\ [][Next]_<<l, m>>
View == l
=============================================================================
