------------------------------- MODULE VEMDesign ------------------------------
(* The numbering algorithm as a state machine: the faces are numbered one by one,
   in their order in the mesh, then the cells are walked along their boundary,
   edge by edge. Whatever the numbers of the points, and with or without marked
   internal faces, the result is a Numbering, with which the
   unknowns two cells have in common are those of their common face. *)
EXTENDS VEM
CONSTANT KMAX
VARIABLES m, st
vars == <<m, st>>
Topologies == << << <<1, 2, 3, 4>>, <<3, 2, 5>> >>, << <<1, 2, 3>>, <<1, 3, 4, 5>>, <<3, 2, 4>> >> >>
Where == << <<0, 0>>, <<2, 0>>, <<2, 2>>, <<0, 2>>, <<4, 1>> >>
Edges(cs) == UNION {{{c[i], c[(i % Len(c)) + 1]} : i \in DOMAIN c} : c \in Rng(cs)}
Lex(E) == SetToSortSeq({<<Min(x), Max(x)>> : x \in E}, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
MeshOf(top, perm, mark) ==
    LET cs == [i \in DOMAIN top |-> [j \in DOMAIN top[i] |-> perm[top[i][j]]]]
        F == Lex(Edges(cs))
        num(x) == (CHOOSE f \in DOMAIN F : Rng(F[f]) = x) - 1
        cf == [i \in DOMAIN cs |-> LET c == cs[i] IN SetToSortSeq({num({c[j], c[(j % Len(c)) + 1]}) : j \in DOMAIN c}, LAMBDA a, b : a < b)]
        own(f) == Cardinality({i \in DOMAIN cs : f - 1 \in Rng(cf[i])})
    IN [dim |-> 2, kind |-> "gen", scale |-> 1, pts |-> [p \in 1..5 |-> Where[CHOOSE q \in 1..5 : perm[q] = p - 1]], cells |-> cs, faces |-> F, cf |-> cf,
        isb |-> [f \in DOMAIN F |-> own(f) = 1 \/ mark], bint |-> [f \in DOMAIN F |-> own(f) = 2 /\ mark], bid |-> [f \in DOMAIN F |-> 0]]
Init == /\ \E t \in DOMAIN Topologies : \E p \in Permutations(0..4) : \E mk \in BOOLEAN : m = MeshOf(Topologies[t], [q \in 1..5 |-> p[q - 1]], mk)
        /\ \E k \in 1..KMAX : st = [k |-> k, next |-> 5, faces |-> <<>>, cells |-> <<>>, bnd |-> [f \in 1..NF(m) |-> <<>>], walk |-> <<>>]
NumberFace == /\ Len(st.faces) < NF(m)
              /\ LET f == Len(st.faces) + 1 IN
                 st' = [st EXCEPT !.faces = Append(@, <<m.faces[f][1]>> \o [i \in 1..(st.k - 1) |-> st.next + i - 1] \o <<m.faces[f][2]>>), !.next = @ + st.k - 1]
              /\ UNCHANGED m
Dir(a, f) == IF m.faces[f][1] = a THEN st.faces[f] ELSE Reverse(st.faces[f])
WalkEdge == /\ Len(st.faces) = NF(m) /\ Len(st.cells) < NC(m)
            /\ LET c == Len(st.cells) + 1  q == m.cells[c]  i == (Len(st.walk) \div st.k) + 1 IN
               IF i > Len(q) THEN st' = [st EXCEPT !.cells = Append(@, st.walk), !.walk = <<>>]
               ELSE LET a == q[i]  b == q[(i % Len(q)) + 1]  f == CHOOSE g \in 1..NF(m) : FaceSet(m, g) = {a, b} IN
                    st' = [st EXCEPT !.walk = @ \o SubSeq(Dir(a, f), 1, st.k), !.bnd[f] = IF OuterFace(m, f) THEN Dir(a, f) ELSE @]
            /\ UNCHANGED m
Next == NumberFace \/ WalkEdge
Spec == Init /\ [][Next]_vars
Complete == Len(st.cells) = NC(m)
D == [k |-> st.k, cells |-> st.cells, faces |-> st.faces, bnd |-> st.bnd]
Right == Complete => LET N == Numbering(m, D) IN \A x \in DOMAIN N : N[x]
(* two cells have in common the unknowns of their common faces and points *)
Conforming == Complete => \A a \in 1..NC(m) : \A b \in 1..(a - 1) :
    Rng(D.cells[a]) \cap Rng(D.cells[b]) = (Rng(m.cells[a]) \cap Rng(m.cells[b])) \cup UNION {Rng(InFace(D, f + 1)) : f \in Rng(m.cf[a]) \cap Rng(m.cf[b])}
(* unknowns on the outer boundary: as many as points and edges say *)
Counted == Complete => LET B == {f \in 1..NF(m) : OuterFace(m, f)} IN
    Cardinality(UNION {Rng(D.bnd[f]) : f \in B}) = Cardinality(B) * st.k
=============================================================================
