------------------------------- MODULE FEMDesign ------------------------------
(* The definitions of FEM.tla on every triangle of a small lattice, its vertices
   added one by one: nodal basis, partition of unity, exact for affine functions. *)
EXTENDS FEM
CONSTANTS LO, HI
VARIABLE P
Box == (LO..HI) \X (LO..HI)
Init == P = <<>>
Next == Len(P) < 3 /\ \E p \in Box : P' = Append(P, p)
Spec == Init /\ [][Next]_P
Solid == Len(P) = 3 /\ FDet(P) # 0
K == << <<2, 1>>, <<1, 3>> >>
X == {<<0, 0>>, <<2, -1>>, <<-3, 5>>}
Nodal == Solid => Dual(P)
Exact == Solid => \A x \in X : Unity(P, x) /\ Linear(P, x) /\ \A y \in X : Differential(P, x, y)
Matrices == Solid => MassOk(P) /\ KernelOk(P, K) /\ \A b \in {<<1, 0>>, <<0, 1>>} : FluxOk(P, K, b)
Symmetric == Solid => \A i, j \in 1..3 : Stiffness(P, K)[i][j] = Stiffness(P, K)[j][i]
=============================================================================
