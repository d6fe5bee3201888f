------------------------------- MODULE DGADesign ------------------------------
(* The definitions of DGA.tla are what the method needs, on every tetrahedron of a
   small lattice (a first vertex at the origin, the others added one by one):
   constant fields are treated exactly, the incidences are those of the complex. *)
EXTENDS DGA
CONSTANTS LO, HI
VARIABLE P
Init == P = << <<0, 0, 0>> >>
Box == (LO..HI) \X (LO..HI) \X (LO..HI)
Next == Len(P) < 4 /\ \E p \in Box : P' = Append(P, p)
Spec == Init /\ [][Next]_P
Solid == Len(P) = 4 /\ Det(P) # 0
K == << <<2, 1, 0>>, <<1, 3, -1>>, <<0, -1, 1>> >>
Basis == {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>}
Dual == Solid => DualityOfEdges(P) /\ DualityOfFaces(P)
Exact == Solid => \A E \in Basis : ExactEdges(P, K, E) /\ ExactFaces(P, K, E)
Complex == CurlOfGrad /\ (Solid => Stokes(P, << <<0, 1, 2>>, <<3, 1, -2>>, <<5, 0, 4>> >>))
Oriented == Solid => /\ \A e \in 1..6 : Dav24(P, e) # <<0, 0, 0>>
                     /\ \A f \in 1..4 : Dev12(P, f) # <<0, 0, 0>>
=============================================================================
