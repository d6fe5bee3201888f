------------------------- MODULE VectorAssemblyTrace -------------------------
(* Histories of the assemblers of vector unknowns (linear and incremental): the
   unknowns of a face are the components of its scalar functions; the Dirichlet
   type of the face tells which components are imposed; the others are unknowns
   of the system. In the incremental form the imposed value is what is missing
   to the current value of the face. The degree is a property of the face, and
   a face may have no unknowns. *)
EXTENDS Assembly, TraceLib
BC == INSTANCE BoundaryConditions
VARIABLES l, m, s, a
vars == <<l, m, s, a>>
Init == l = 1 /\ m = [dim |-> 0] /\ s = <<>> /\ a = [asm |-> "none"]
Is(ev) == l <= Len(Trace) /\ Trace[l].ev = ev /\ l' = l + 1
e == Trace[l]
Dead == [asm |-> "none"]
Live == a.asm # "none"
Mesh == /\ Is("Mesh") /\ IF WellFormed(e) THEN TRUE ELSE Reject(l, "malformed")
        /\ m' = e /\ s' = <<>> /\ a' = Dead
Registry == Is("Registry") /\ m.dim # 0 /\ s' = BC!Empty(m) /\ a' = Dead /\ UNCHANGED m
Op == Is("Op") /\ s' = BC!Apply(m, s, e) /\ UNCHANGED <<m, a>>

(* ---- which components of a face are imposed ---- *)
Comps(t) == CASE t \in {BC!DIRICHLET, BC!CLAMPED} -> {0, 1, 2}
              [] t = BC!DX -> {0} [] t = BC!DY -> {1} [] t = BC!DZ -> {2}
              [] t = BC!DXDY -> {0, 1} [] t = BC!DXDZ -> {0, 2} [] t = BC!DYDZ -> {1, 2}
              [] OTHER -> {}
Dr(f) == s.reg["D"][f]
IsImposed(f, k) == IF Dr(f).on THEN (k % m.dim) \in Comps(Dr(f).type) ELSE FALSE
(* the functions are constant: the coefficients of the first scalar function *)
Value(f, k) == IF Dr(f).type = BC!CLAMPED \/ k >= m.dim THEN 0 ELSE s.factor * BC!FnVal(Dr(f).fn, k + 1)

(* ---- degrees: given per face, or uniform with one more on contact faces ---- *)
PerFace(x) == x.asm \in {"primalM", "nlmechM"}
Contact(x) == x.asm \in {"primal", "nlmech"}
FDeg(x, f) == IF PerFace(x) THEN x.degs[f]
              ELSE IF Contact(x) /\ s.reg["C"][f].type = BC!SIGNORINI_FACE THEN x.fdeg + 1 ELSE x.fdeg
Nb(x, f) == LET d == FDeg(x, f) IN IF d < 0 THEN 0 ELSE m.dim * PolyDim(d, m.dim - 1)
Refused(x) == \/ \E f \in 1..NF(m) : Dr(f).on /\ m.dim # 3 /\ Dr(f).type \in {BC!DZ, BC!DXDZ, BC!DYDZ}
              \/ Contact(x) /\ \E f \in 1..NF(m) : m.isb[f] /\ s.reg["C"][f].type = BC!SIGNORINI_CELL
FaceSeq(nb, f) == [k \in 1..nb[f] |-> FaceKey(f - 1, k - 1)]
Layout(nb) == [c \in 1..NC(m) |-> FlattenSeq([i \in DOMAIN m.cf[c] |-> FaceSeq(nb, m.cf[c][i] + 1)])]
Base(nb) == LET ks == UNION {{<<f, k>> : k \in {k2 \in 0..(nb[f] - 1) : IsImposed(f, k2)}} : f \in 1..NF(m)}
                keys == {FaceKey(p[1] - 1, p[2]) : p \in ks}
            IN TLCEval([q \in keys |-> Value((q \div K) + 1, q % K)])
New == /\ Is("New") /\ m.dim # 0
       /\ IF Refused(e) \/ e.threw
          THEN Holds(l, [refused |-> e.threw /\ Refused(e)]) /\ a' = Dead
          ELSE LET nb == TLCEval([f \in 1..NF(m) |-> Nb(e, f)])
                   lay == TLCEval(Layout(nb))
                   imp == Base(nb)
                   all == UNION {Rng(FaceSeq(nb, f)) : f \in 1..NF(m)}
               IN /\ Holds(l, [size |-> e.n = Cardinality(all) - Cardinality(DOMAIN imp), sys |-> e.sys < 0 \/ e.sys = e.n, shape |-> e.rows = e.n])
                  /\ a' = [asm |-> e.asm, n |-> e.n, nb |-> nb, lay |-> lay, base |-> imp, imp |-> imp, num |-> <<>>, pA |-> Mat(e.n), pb |-> Vec(e.n)]
       /\ UNCHANGED <<m, s>>
(* current values of the faces: the imposed values become increments *)
Current == /\ Is("Current") /\ Live
           /\ a' = [a EXCEPT !.imp = TLCEval([q \in DOMAIN a.base |-> a.base[q] - e.cur[(q \div K) + 1][(q % K) + 1]])]
           /\ UNCHANGED <<m, s>>
Labels == /\ Is("Labels") /\ Live
          /\ Holds(l, LabelClauses(a.lay, a.imp, a.n, 0, e.vals))
          /\ a' = [a EXCEPT !.num = Numbering(a.lay, a.imp, e.vals)]
          /\ UNCHANGED <<m, s>>
Assemble == /\ Is("Assemble") /\ Live
            /\ LET k == a.lay[e.cell + 1] IN
               a' = [a EXCEPT !.pA = AddBlock(@, a.n, a.num, a.imp, k, k, e.lhs, S),
                              !.pb = Lift(AddVec(@, a.n, a.num, a.imp, k, e.rhs, S), a.n, a.num, a.imp, k, k, e.lhs, S)]
            /\ UNCHANGED <<m, s>>
(* Neumann: u[f] is the load of the unit function on the scalar functions of f;
   the imposed components receive nothing *)
Load(f, u) == [k \in 1..a.nb[f] |-> s.factor * BC!FnVal(s.reg["N"][f].fn, ((k - 1) % m.dim) + 1) * u[f][((k - 1) \div m.dim) + 1]]
AddFaces(fs, u) == FoldLeft(LAMBDA b, f : IF f \in fs THEN AddVec(b, a.n, a.num, a.imp, FaceSeq(a.nb, f), Load(f, u), 1) ELSE b,
                            a.pb, [f \in 1..NF(m) |-> f])
Neumann == /\ Is("Neumann") /\ Live
           /\ LET fs == {f \in 1..NF(m) : s.reg["N"][f].on}
                  bad == \E f \in fs : Dr(f).on /\ Dr(f).type \in {BC!DIRICHLET, BC!CLAMPED}
              IN IF bad \/ e.threw THEN Holds(l, [refused |-> e.threw /\ bad]) /\ a' = Dead
                 ELSE a' = [a EXCEPT !.pb = AddFaces(fs, e.u)]
           /\ UNCHANGED <<m, s>>
Tol == 60
Finalize == /\ Is("Finalize") /\ Live
            /\ Holds(l, [matrix |-> NearMat(e.A, a.pA, a.n, Tol), vector |-> NearVec(e.b, a.pb, a.n, Tol)])
            /\ UNCHANGED <<m, s, a>>
Initialise == /\ Is("Initialise") /\ Live
              /\ a' = IF e.what = "rhs" THEN [a EXCEPT !.pb = Vec(a.n)]
                      ELSE IF e.what = "lhs" THEN [a EXCEPT !.pA = Mat(a.n)] ELSE [a EXCEPT !.pA = Mat(a.n), !.pb = Vec(a.n)]
              /\ UNCHANGED <<m, s>>
Read(k, sol) == IF k \in DOMAIN a.imp THEN a.imp[k] ELSE sol[a.num[k] + 1]
TakeLocal == /\ Is("TakeLocal") /\ Live
             /\ Holds(l, [values |-> e.vals = [c \in 1..NC(m) |-> [i \in DOMAIN a.lay[c] |-> Read(a.lay[c][i], e.sol)]]])
             /\ UNCHANGED <<m, s, a>>
TakeFace == /\ Is("TakeFace") /\ Live
            /\ Holds(l, [values |-> e.vals = [f \in 1..NF(m) |-> [k \in 1..a.nb[f] |-> Read(FaceKey(f - 1, k - 1), e.sol)]]])
            /\ UNCHANGED <<m, s, a>>
Expand == /\ Is("Expand") /\ Live
          /\ Holds(l, [values |-> e.vals = FlattenSeq([f \in 1..NF(m) |-> [k \in 1..a.nb[f] |-> Read(FaceKey(f - 1, k - 1), e.sol)]])])
          /\ UNCHANGED <<m, s, a>>
End == Is("End") /\ UNCHANGED <<m, s, a>>
Next == Mesh \/ Registry \/ Op \/ New \/ Current \/ Labels \/ Assemble \/ Neumann \/ Finalize \/ Initialise \/ TakeLocal \/ TakeFace \/ Expand \/ End
Spec == Init /\ [][Next]_vars
View == l
=============================================================================
