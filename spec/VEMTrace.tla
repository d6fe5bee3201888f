-------------------------------- MODULE VEMTrace -------------------------------
(* The virtual elements of the code against VEM.tla.
   Dofs      a numbering of the unknowns of the mesh
   VemCell   where the unknowns of a cell are
   VemShape, VemForm, VemFlux   its matrices, and the stiffness applied to powers
             of an affine form
   VemPatch  a problem on the whole mesh with a polynomial solution
   (Recon, Gram, Equal: as in HHOTrace, Quadrature) *)
EXTENDS HHOTrace, VEM
VARIABLE dm
vars == <<l, m, dm>>
InitV == Init /\ dm = [k |-> 0]
Old == HNext /\ dm' = (IF e.ev = "Mesh" THEN [k |-> 0] ELSE dm)
Degree0 == Is("VemDegree0") /\ UNCHANGED <<m, dm>> /\ Holds(l, [refused |-> e.refused])
Dofs == /\ Is("Dofs") /\ UNCHANGED m /\ m.dim = 2
        /\ Holds(l, Numbering(m, e))
        /\ dm' = [k |-> e.k, cells |-> e.cells, faces |-> e.faces]
VemShape == /\ Is("VemShape") /\ UNCHANGED <<m, dm>>
            /\ LET n == NUnknowns(Len(m.cf[e.i + 1]), e.k)  b == PolyDim(e.k) IN
               Holds(l, [shapes |-> e.shapes = <<<<b, b>>, <<b, n>>, <<n, b>>, <<b, n>>, <<n, n>>, <<PolyDim(e.k - 1), n>>>>, degree |-> e.k = dm.k])
VemCell == /\ Is("VemCell") /\ UNCHANGED <<m, dm>> /\ e.k = dm.k
           /\ Holds(l, [placed |-> Placed(m, dm, e.i + 1, e.x, e.y)])
VemFlux == /\ Is("VemFlux") /\ UNCHANGED <<m, dm>> /\ e.k = dm.k
           /\ LET c == e.i + 1 IN
              Holds(l, [corners |-> Len(e.corners) = e.k /\ \A a \in 1..e.k : e.corners[a] = CornerRows(m, dm, c, e.form, a),
                        edges |-> /\ e.k <= 4 => e.edges[1] = EdgeRows1(m, dm, c, e.form)
                                  /\ e.k = 2 => e.edges[2] = EdgeRows2(m, dm, c, e.form),
                        inner |-> \A a \in DOMAIN e.inner : e.inner[a] = InnerRows(m, dm, c, e.form, a)])
VemForm == /\ Is("VemForm") /\ UNCHANGED <<m, dm>>
           /\ Holds(l, [size |-> e.size = NUnknowns(Len(m.cf[e.i + 1]), e.k),
                        symmetric |-> e.asym = 0, positive |-> e.neg = 0, rank |-> e.rank = e.size - 1,
                        constants |-> \A i \in DOMAIN e.kernel : e.kernel[i] = 0])
VemPatch == /\ Is("VemPatch") /\ UNCHANGED <<m, dm>>
            /\ LET F == TLCEval(Combo(e.mem, e.coef, 2, 1)) IN
               Holds(l, [asked |-> e.deg = e.k /\ Rng(e.mem) = Gens("scal", e.k, 2),
                         values |-> Len(e.val) = NP(m) /\ \A i \in 1..NP(m) : e.val[i] = FVal(F, Sub2(m.pts[i], e.org))[1],
                         inside |-> e.bad = 0])
VNext == Old \/ Degree0 \/ Dofs \/ VemShape \/ VemCell \/ VemFlux \/ VemForm \/ VemPatch
VSpec == InitV /\ [][VNext]_vars
=============================================================================
