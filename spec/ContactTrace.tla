------------------------------ MODULE ContactTrace ------------------------------
(* The contact contributions of the code against Contact.tla.
   Contact   residual, tangent and pointwise values for affine displacements on a boundary face
   Tangent   the tangent against differences of the residual, its symmetry, the unknowns it
             touches, several contact faces in a cell
   Refused   a version that is not there
   Solved    the solver, on a body resting on the obstacle with an affine solution *)
EXTENDS MeshState, TraceLib, Contact
VARIABLES l, m
Init == l = 1 /\ m = [dim |-> 0]
e == Trace[l]
Is(ev) == l <= Len(Trace) /\ e.ev = ev /\ l' = l + 1
Mesh == /\ Is("Mesh") /\ IF WellFormed(e) THEN m' = e ELSE Reject(l, "malformed")
FacePts(f) == [k \in DOMAIN m.faces[f] |-> Pt(m, m.faces[f][k])]
(* k N is the area vector (twice it for a triangle, the edge turned in 2D), outwards of cell c *)
OutOf(c, f) ==
    LET q == m.faces[f] IN
    IF m.dim = 2
    THEN LET a == Pt(m, q[1])  b == Pt(m, q[2]) IN
         IF <<q[1], q[2]>> \in DirEdges(m, c) THEN <<b[2] - a[2], a[1] - b[1]>> ELSE <<a[2] - b[2], b[1] - a[1]>>
    ELSE LET X == FacePts(f)  n == Cross3(Sub3(X[2], X[1]), Sub3(X[Len(X)], X[1]))
             in == \E i \in Rng(m.cells[c]) : Dot3(n, Sub3(Pt(m, i), X[1])) > 0
         IN IF in THEN <<-n[1], -n[2], -n[3]>> ELSE n
Small(s) == s = <<>> \/ \A i \in DOMAIN s : s[i] # Sentinel
Contact1 == /\ Is("Contact") /\ UNCHANGED m /\ m.dim \in {2, 3}
    /\ LET X == TLCEval(FacePts(e.f + 1))
           p == [N |-> e.N, X |-> X, la |-> e.la, mu |-> e.mu, g |-> e.g, theta |-> e.theta, face |-> e.face, fr |-> e.fr, r2 |-> e.r2]
           closed == Closed(p, e.u)
           phi == IF Far(p) THEN [k \in DOMAIN X |-> 0] ELSE PhiAt(p, e.u)
           tau == [k \in DOMAIN X |-> Tang(p, Tau(p, 1, e.u, X[k]))]
           sh == Share(p, e.u)
           sn == Sn(p, e.u)
       IN Holds(l, [
            normal |-> CTimes(e.k, e.N) = OutOf(e.i + 1, e.f + 1),
            boundary |-> m.isb[e.f + 1],
            state |-> /\ (e.fr # 0 => \A k, h \in DOMAIN X : CDot(tau[k], tau[h]) > 0)
                      /\ Parallelogram(X) /\ (e.face => KeepsPlane(p, e.u))
                      /\ IF e.closed THEN closed ELSE Open(p, e.u),
            residual |-> Len(e.F) = Len(e.v) /\ \A j \in DOMAIN e.v : e.F[j] = Residual(p, e.u, e.v[j]),
            tangent |-> TangentKnown(p, e.u) => \A j, h \in DOMAIN e.v : e.K[j][h] = Tangent(p, e.u, e.v[j], e.v[h]),
            stress |-> e.stress = Hooke(e.u.A, e.la, e.mu),
            normalStress |-> e.snn = CDot(sn, e.N) /\ e.snt = Tang(p, sn),
            normalPart |-> e.un = [k \in DOMAIN X |-> CDot(Affine(e.u, X[k]), e.N)],
            tangentialPart |-> e.ut = [k \in DOMAIN X |-> Tang(p, Affine(e.u, X[k]))],
            trialNormal |-> e.phin = phi,
            projectedNormal |-> e.face \/ e.projn = [k \in DOMAIN X |-> Min0(phi[k])],
            trialTangential |-> e.phit = tau,
            projectedTangential |-> IF e.fr = 0 THEN e.projt = <<>> ELSE e.projt = [k \in DOMAIN X |-> CTimes(sh, tau[k])]])
Tangent1 == /\ Is("Tangent") /\ UNCHANGED m
            /\ Holds(l, [derivative |-> e.tan = 0, symmetric |-> e.sym = 0, elsewhere |-> e.outside = 0, sum |-> e.add = 0])
Refused == /\ Is("Refused") /\ UNCHANGED m /\ Holds(l, [said |-> e.said = 1])
Rows(A, k) == [i \in DOMAIN A |-> CTimes(k, A[i])]
Solved == /\ Is("Solved") /\ UNCHANGED m
          /\ Holds(l, [isSolution |-> IF e.fr = 2 THEN Grounded(e.A, e.c, e.la, e.mu, 0, 0) ELSE Grounded(e.A, e.c, e.la, e.mu, e.fr, e.q),
                       floor |-> e.floor > 0, converged |-> e.conv, displacement |-> e.err = 0, gradient |-> e.h1 = 0])
End == Is("End") /\ UNCHANGED m
Next == Mesh \/ Contact1 \/ Tangent1 \/ Refused \/ Solved \/ End
Spec == Init /\ [][Next]_<<l, m>>
View == l
=============================================================================
