-------------------------------- MODULE FEMTrace -------------------------------
(* First order finite elements of the code against FEM.tla, on the triangles of a mesh.
   FemCell   shape functions, gradients, matrices and loads of a cell
   FemPatch  a problem on the whole mesh with an affine solution
   FemMass   the mass of the whole mesh applied to affine functions *)
EXTENDS MeshState, TraceLib, FEM
VARIABLES l, m
Init == l = 1 /\ m = [dim |-> 0]
e == Trace[l]
Is(ev) == l <= Len(Trace) /\ e.ev = ev /\ l' = l + 1
Mesh == /\ Is("Mesh") /\ IF WellFormed(e) THEN m' = e ELSE Reject(l, "malformed")
Corners(c) == [v \in 1..3 |-> LET q == Pt(m, m.cells[c][v]) IN <<q[1], q[2]>>]
Times(k, M) == [a \in DOMAIN M |-> [b \in DOMAIN M[a] |-> k * M[a][b]]]
FemCell == /\ Is("FemCell") /\ UNCHANGED m /\ m.dim = 2
           /\ LET P == TLCEval(Corners(e.i + 1))  d == FAbs(P) IN
              Holds(l, [solid |-> FDet(P) # 0,
                        shapes |-> Len(e.at) = Len(e.phi) /\ \A k \in DOMAIN e.at : e.phi[k] = [i \in 1..3 |-> Shape(P, i, e.at[k])],
                        slopes |-> e.grad = [i \in 1..3 |-> Slope(P, i)],
                        mass |-> e.mass = FMass,
                        stiffness |-> e.stiff = Stiffness(P, <<<<1, 0>>, <<0, 1>>>>),
                        diffusion |-> e.stiffk = Stiffness(P, e.K),
                        load |-> e.load = Load(P, e.a, e.b)])
FemPatch == /\ Is("FemPatch") /\ UNCHANGED m /\ m.dim = 2
            /\ Holds(l, [values |-> Len(e.val) = NP(m) /\ \A i \in 1..NP(m) : e.val[i] = e.form[1] * m.pts[i][1] + e.form[2] * m.pts[i][2]])
End == Is("End") /\ UNCHANGED m
Next == Mesh \/ FemCell \/ FemPatch \/ End
Spec == Init /\ [][Next]_<<l, m>>
View == l
=============================================================================
