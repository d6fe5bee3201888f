---------------------------- MODULE AssemblyTrace ----------------------------
(* Histories of the scalar, Stokes and discontinuous Galerkin assemblers:
   construct, read back labels (numbering), assemble cells in any order, impose
   Neumann and Robin conditions, finalise, initialise again, read solutions. *)
EXTENDS Assembly, TraceLib
BC == INSTANCE BoundaryConditions
VARIABLES l, m, s, a
vars == <<l, m, s, a>>
Init == l = 1 /\ m = [dim |-> 0] /\ s = <<>> /\ a = [asm |-> "none"]
Is(ev) == l <= Len(Trace) /\ Trace[l].ev = ev /\ l' = l + 1
e == Trace[l]
Mesh == /\ Is("Mesh") /\ IF WellFormed(e) THEN TRUE ELSE Reject(l, "malformed")
        /\ m' = e /\ s' = <<>> /\ a' = [asm |-> "none"]
Registry == Is("Registry") /\ m.dim # 0 /\ s' = BC!Empty(m) /\ a' = [asm |-> "none"] /\ UNCHANGED m
Op == Is("Op") /\ s' = BC!Apply(m, s, e) /\ UNCHANGED <<m, a>>

FaceBased == {"diff0", "diff", "primal", "basic0", "basicD"}
NbF(x) == PolyDim(x.fdeg, m.dim - 1) * (IF x.asm \in {"stokes", "stokesalg"} THEN m.dim ELSE 1)
NbC(x) == m.dim * PolyDim(x.cdeg, m.dim)
NbP(x) == PolyDim(x.fdeg, m.dim)
Velo(x, c) == CellKeys(m, c, NbC(x)) \o FaceKeys(m, c, NbF(x))
Layout(x) == [c \in 1..NC(m) |->
                IF x.asm \in FaceBased THEN FaceKeys(m, c, NbF(x))
                ELSE IF x.asm \in {"dg", "dgeig"} THEN CellKeys(m, c, x.nb)
                ELSE Velo(x, c) \o PresKeys(m, c, NbP(x))]
ImposedFace(x, f) == CASE x.asm = "diff0" -> m.isb[f]
                       [] x.asm = "basic0" -> m.isb[f] /\ ~m.bint[f]
                       [] x.asm = "basicD" -> x.dlist[f]
                       [] x.asm \in {"dg", "dgeig"} -> FALSE
                       [] OTHER -> s.reg["D"][f].on
(* all the functions are constant: the first coefficients are the value *)
ImposedVal(x, f, k) == CASE x.asm = "diff0" -> IF k = 0 THEN x.dir ELSE 0
                         [] x.asm \in {"basic0", "basicD"} -> 0
                         [] x.asm \in {"diff", "primal"} -> IF k = 0 THEN s.factor * BC!FnVal(s.reg["D"][f].fn, 1) ELSE 0
                         [] OTHER -> IF k < m.dim THEN s.factor * BC!FnVal(s.reg["D"][f].fn, k + 1) ELSE 0
Imposed(x) == LET fs == {f \in 1..NF(m) : ImposedFace(x, f)}
                  ks == {<<f, k>> : f \in fs, k \in 0..(NbF(x) - 1)}
                  keys == {FaceKey(p[1] - 1, p[2]) : p \in ks}
              IN TLCEval([q \in keys |-> ImposedVal(x, (q \div K) + 1, q % K)])
Extra(x) == IF x.asm \in {"stokes", "stokesalg"} THEN 1 ELSE 0

New == /\ Is("New") /\ m.dim # 0
       /\ LET lay == TLCEval(Layout(e))  imp == Imposed(e)
              free == (UNION {Rng(lay[c]) : c \in DOMAIN lay}) \ DOMAIN imp
          IN /\ Holds(l, [size |-> e.n = Cardinality(free) + Extra(e),
                          faces |-> e.other < 0 \/ e.other = Cardinality({f \in 1..NF(m) : ~ImposedFace(e, f)}),
                          sys |-> e.sys < 0 \/ e.sys = e.n])
             /\ a' = [asm |-> e.asm, x |-> e, n |-> e.n, lay |-> lay, imp |-> imp, num |-> <<>>, pA |-> Mat(e.n), pb |-> Vec(e.n),
                      A |-> Mat(e.n), b |-> Vec(e.n), bD |-> Vec(e.n), terms |-> 0]
       /\ UNCHANGED <<m, s>>
Live == a.asm # "none"
Labels == /\ Is("Labels") /\ Live
          /\ Holds(l, LabelClauses(a.lay, a.imp, a.n, Extra(a), e.vals))
          /\ LET num == Numbering(a.lay, a.imp, e.vals)
                 rest == (0..(a.n - 1)) \ {num[k] : k \in DOMAIN num}
             IN a' = [a EXCEPT !.num = IF Extra(a) = 0 THEN num ELSE num @@ (MultKey(m) :> CHOOSE i \in rest : TRUE)]
          /\ UNCHANGED <<m, s>>
AB(A, rk, ck, M, f) == AddBlock(A, a.n, a.num, a.imp, rk, ck, M, f)
AV(b, rk, r, f) == AddVec(b, a.n, a.num, a.imp, rk, r, f)
LF(b, rk, ck, M, f) == Lift(b, a.n, a.num, a.imp, rk, ck, M, f)
(* scalar assemblers *)
Assemble == /\ Is("Assemble") /\ a.asm \in FaceBased
            /\ LET k == a.lay[e.cell + 1] IN
               a' = [a EXCEPT !.pA = AB(@, k, k, e.lhs, S), !.pb = LF(AV(@, k, e.rhs, S), k, k, e.lhs, S)]
            /\ UNCHANGED <<m, s>>
(* discontinuous Galerkin *)
AssembleCell == /\ Is("AssembleCell") /\ a.asm \in {"dg", "dgeig"}
                /\ LET k == a.lay[e.cell + 1] IN
                   a' = IF a.asm = "dg" THEN [a EXCEPT !.pA = AB(@, k, k, e.lhs, S), !.pb = AV(@, k, e.rhs, S)]
                        ELSE [a EXCEPT !.pb = AB(IF a.terms = 0 THEN Mat(a.n) ELSE @, k, k, e.lhs, S), !.terms = 1]
                /\ UNCHANGED <<m, s>>
AssemblePair == /\ Is("AssemblePair") /\ a.asm \in {"dg", "dgeig"}
                /\ a' = [a EXCEPT !.pA = AB(@, a.lay[e.row + 1], a.lay[e.col + 1], e.lhs, S)]
                /\ UNCHANGED <<m, s>>
(* Stokes: velocity block A, pressure rows B, mean value multiplier w (scaled by S) *)
Mult(c) == << MultKey(m) >>
XVelo(c) == CellKeys(m, c, NbC(a.x)) \o FaceKeys(m, c, NbF(a.x))
Stokes == /\ Is("Stokes") /\ a.asm = "stokes"
          /\ LET c == e.cell + 1  v == XVelo(c)  q == PresKeys(m, c, NbP(a.x))
                 np == Len(q)  nv == Len(v)  W == [i \in 1..np |-> <<e.w[i]>>]
                 r == IF e.all THEN e.rhs ELSE [i \in 1..nv |-> IF i <= NbC(a.x) THEN e.rhs[i] ELSE 0]
             IN a' = [a EXCEPT !.pA = AB(AB(AB(AB(AB(@, v, v, e.A, S), q, v, e.B, S), v, q, Transp(e.B, np, nv), S),
                                          q, Mult(c), W, 1), Mult(c), q, Transp(W, np, 1), 1),
                               !.pb = AV(LF(LF(@, v, v, e.A, S), q, v, e.B, S), v, r, S)]
          /\ UNCHANGED <<m, s>>
StokesLhs == /\ Is("StokesLhs") /\ a.asm = "stokesalg"
             /\ LET c == e.cell + 1  v == XVelo(c)  q == PresKeys(m, c, NbP(a.x))
                    np == Len(q)  nv == Len(v)  W == [i \in 1..np |-> <<e.w[i]>>]
                IN a' = [a EXCEPT !.pA = AB(AB(AB(AB(AB(@, v, v, e.A, S), q, v, e.B, S), v, q, Transp(e.B, np, nv), S),
                                             q, Mult(c), W, 1), Mult(c), q, Transp(W, np, 1), 1),
                                  !.bD = LF(LF(@, v, v, e.A, S), q, v, e.B, S)]
             /\ UNCHANGED <<m, s>>
StokesRhs == /\ Is("StokesRhs") /\ a.asm = "stokesalg"
             /\ a' = [a EXCEPT !.pb = AV(@, XVelo(e.cell + 1), e.rhs, S)]
             /\ UNCHANGED <<m, s>>
(* Neumann and Robin: u[f] and M[f] are the load of the unit function and the
   mass matrix of face f, scaled by S *)
On(k, f) == s.reg[k][f].on
NVal(k, f) == s.factor * BC!FnVal(s.reg[k][f].fn, 1)
FaceSeq(f) == [k \in 1..NbF(a.x) |-> FaceKey(f - 1, k - 1)]
RECURSIVE AddFaces(_, _, _, _)
AddFaces(b, fs, k, u) == IF fs = {} THEN b
    ELSE LET f == CHOOSE g \in fs : TRUE IN AddFaces(AV(b, FaceSeq(f), u[f], NVal(k, f)), fs \ {f}, k, u)
RECURSIVE AddMass(_, _, _)
AddMass(A, fs, M) == IF fs = {} THEN A
    ELSE LET f == CHOOSE g \in fs : TRUE IN AddMass(AB(A, FaceSeq(f), FaceSeq(f), M[f], 1), fs \ {f}, M)
Dead == [asm |-> "none"]
Neumann == /\ Is("Neumann") /\ a.asm \in {"diff0", "diff", "primal"}
           /\ LET fs == {f \in 1..NF(m) : a.asm # "diff0" /\ On("N", f)}
                  bad == \E f \in fs : On("D", f) \/ On("R", f)
              IN IF bad \/ (e.threw /\ fs # {}) \/ a.asm = "diff0"
                 THEN Holds(l, [rejected |-> e.threw /\ (bad \/ a.asm = "diff0")]) /\ a' = Dead
                 ELSE a' = [a EXCEPT !.pb = AddFaces(@, fs, "N", e.u)]
           /\ UNCHANGED <<m, s>>
Robin == /\ Is("Robin") /\ a.asm \in {"diff0", "diff", "primal"}
         /\ LET fs == {f \in 1..NF(m) : a.asm # "diff0" /\ On("R", f)}
                bad == \E f \in fs : On("D", f) \/ On("N", f)
            IN IF bad \/ (e.threw /\ fs # {}) \/ a.asm = "diff0"
               THEN Holds(l, [rejected |-> e.threw /\ (bad \/ a.asm = "diff0")]) /\ a' = Dead
               ELSE a' = [a EXCEPT !.pb = AddFaces(@, fs, "R", e.u), !.pA = AddMass(@, fs, e.M)]
         /\ UNCHANGED <<m, s>>
Wrong == Is("Wrong") /\ Holds(l, [rejected |-> e.threw]) /\ UNCHANGED <<m, s, a>>

Tol == 60
Finalize == /\ Is("Finalize") /\ Live
            /\ LET A == a.pA
                   b == IF a.asm = "stokesalg" THEN TLCEval([i \in 0..(a.n - 1) |-> a.pb[i] + a.bD[i]]) ELSE a.pb
               IN /\ Holds(l, [matrix |-> NearMat(e.A, A, a.n, Tol),
                               vector |-> IF a.asm = "dgeig" THEN NearMat(e.b, IF a.terms = 0 THEN Mat(a.n) ELSE b, a.n, Tol) ELSE NearVec(e.b, b, a.n, Tol)])
                  /\ a' = [a EXCEPT !.A = A, !.b = b]
            /\ UNCHANGED <<m, s>>
(* initialise: a new cycle; "rhs" keeps the matrix *)
Initialise == /\ Is("Initialise") /\ Live
              /\ a' = IF e.what = "rhs" THEN [a EXCEPT !.pb = Vec(a.n)] ELSE [a EXCEPT !.pA = Mat(a.n), !.pb = Vec(a.n), !.bD = Vec(a.n), !.terms = 0]
              /\ UNCHANGED <<m, s>>
Read(k, sol) == IF k \in DOMAIN a.imp THEN a.imp[k] ELSE sol[a.num[k] + 1]
TakeLocal == /\ Is("TakeLocal") /\ Live
             /\ Holds(l, [values |-> e.vals = [c \in 1..NC(m) |-> [i \in DOMAIN a.lay[c] |-> Read(a.lay[c][i], e.sol)]]])
             /\ UNCHANGED <<m, s, a>>
Expand == /\ Is("Expand") /\ Live
          /\ Holds(l, [values |-> e.vals = FlattenSeq([f \in 1..NF(m) |-> [k \in 1..NbF(a.x) |-> Read(FaceKey(f - 1, k - 1), e.sol)]])])
          /\ UNCHANGED <<m, s, a>>
End == Is("End") /\ UNCHANGED <<m, s, a>>
Next == Mesh \/ Registry \/ Op \/ New \/ Labels \/ Assemble \/ AssembleCell \/ AssemblePair \/ Stokes \/ StokesLhs \/ StokesRhs
        \/ Neumann \/ Robin \/ Wrong \/ Finalize \/ Initialise \/ TakeLocal \/ Expand \/ End
Spec == Init /\ [][Next]_vars
View == l
=============================================================================
