------------------------------- MODULE Assembly -------------------------------
(* Assembly of local contributions in a global sparse system.

   An assembler is described by its layout: for each cell the sequence of local
   unknowns. A local unknown is a key (an integer identifying a mesh entity and
   a component); each key is free or has an imposed value. The assembler chooses
   a numbering of the free keys; the state holds the pending matrix and vector
   (scaled by S), the finalised ones and the numbering.

   A contribution (M, r) of a list of keys adds M[i][j] to the entry (n(i), n(j))
   for free i, j and r[i] - Sum over imposed j of M[i][j] * value(j) to n(i);
   rows of imposed keys are dropped. *)
EXTENDS MeshLib
S == 1000
Mat(n) == [i \in 0..(n - 1) |-> [j \in 0..(n - 1) |-> 0]]
Vec(n) == [i \in 0..(n - 1) |-> 0]
(* local position of each global index in a list of keys, 0 if none *)
Inv(num, imp, keys, n) ==
    LET ps == {p \in DOMAIN keys : keys[p] \notin DOMAIN imp}
        g == TLCEval([p \in ps |-> num[keys[p]]])
        hit == {g[p] : p \in ps}
        tab == TLCEval([x \in hit |-> CHOOSE p \in ps : g[p] = x])
    IN [x \in 0..(n - 1) |-> IF x \in hit THEN tab[x] ELSE 0]
(* add the block M (rows rk, columns ck), scaled by f *)
AddBlock(A, n, num, imp, rk, ck, M, f) ==
    LET pr == TLCEval(Inv(num, imp, rk, n))  pc == TLCEval(Inv(num, imp, ck, n))
    IN TLCEval([i \in 0..(n - 1) |-> IF pr[i] = 0 THEN A[i]
                  ELSE [j \in 0..(n - 1) |-> IF pc[j] = 0 THEN A[i][j] ELSE A[i][j] + f * M[pr[i]][pc[j]]]])
Transp(M, nr, nc) == [j \in 1..nc |-> [i \in 1..nr |-> M[i][j]]]
AddVec(b, n, num, imp, rk, r, f) ==
    LET pr == TLCEval(Inv(num, imp, rk, n))
    IN TLCEval([i \in 0..(n - 1) |-> IF pr[i] = 0 THEN b[i] ELSE b[i] + f * r[pr[i]]])
(* subtract the contribution of the imposed unknowns *)
Lift(b, n, num, imp, rk, ck, M, f) ==
    LET pr == TLCEval(Inv(num, imp, rk, n))
        fixd == TLCEval(SelectSeq([k \in DOMAIN ck |-> k], LAMBDA k : ck[k] \in DOMAIN imp))
    IN TLCEval([i \in 0..(n - 1) |-> IF pr[i] = 0 THEN b[i]
                  ELSE b[i] - f * SumSeq([q \in DOMAIN fixd |-> M[pr[i]][fixd[q]] * imp[ck[fixd[q]]]])])

(* near equality after projection *)
Near(x, y, tol) == x - y <= tol /\ y - x <= tol
NearVec(q, b, n, tol) == Len(q) = n /\ \A i \in 1..n : Near(q[i], b[i - 1], tol)
NearMat(q, A, n, tol) == Len(q) = n /\ \A i \in 1..n : Len(q[i]) = n /\ \A j \in 1..n : Near(q[i][j], A[i - 1][j - 1], tol)

(* numbering observed by reading back a solution whose entry i is LABEL + i *)
LABEL == 100000
LabelClauses(lay, imp, n, extra, vals) ==
    LET cs == DOMAIN lay
        pairs == {<<lay[c][p], vals[c][p]>> : <<c, p>> \in UNION {{<<c2, p2>> : p2 \in DOMAIN lay[c2]} : c2 \in cs}}
        free == {x \in pairs : x[1] \notin DOMAIN imp}
        keys == {x[1] : x \in free}
        labs == {x[2] : x \in free}
    IN [ sizes    |-> Len(vals) = Len(lay) /\ \A c \in cs : Len(vals[c]) = Len(lay[c]),
         imposed  |-> \A x \in pairs \ free : x[2] = imp[x[1]],
         function |-> Cardinality(free) = Cardinality(keys),
         range    |-> labs \subseteq {LABEL + i : i \in 0..(n - 1)},
         oneToOne |-> Cardinality(keys) = Cardinality(labs),
         onto     |-> Cardinality(labs) = n - extra ]
Numbering(lay, imp, vals) ==
    LET free == UNION {{<<lay[c][p], vals[c][p] - LABEL>> : p \in {p2 \in DOMAIN lay[c] : lay[c][p2] \notin DOMAIN imp}} : c \in DOMAIN lay}
        ks == {x[1] : x \in free}
    IN [k \in ks |-> CHOOSE v \in {x[2] : x \in free} : <<k, v>> \in free]

(* ---- layouts ---- *)
K == 64    \* components per entity
FaceKey(f, k) == f * K + k
CellKey(m, c, k) == (NF(m) + c) * K + k
PresKey(m, c, k) == (NF(m) + NC(m) + c) * K + k
MultKey(m) == (NF(m) + 2 * NC(m)) * K
Binomial(n, k) == CASE k = 0 -> 1 [] k = 1 -> n [] k = 2 -> (n * (n - 1)) \div 2 [] k = 3 -> (n * (n - 1) * (n - 2)) \div 6
PolyDim(deg, d) == Binomial(deg + d, d)
FaceKeys(m, c, nb) == FlattenSeq([i \in DOMAIN m.cf[c] |-> [k \in 1..nb |-> FaceKey(m.cf[c][i], k - 1)]])
CellKeys(m, c, nb) == [k \in 1..nb |-> CellKey(m, c - 1, k - 1)]
PresKeys(m, c, nb) == [k \in 1..nb |-> PresKey(m, c - 1, k - 1)]
=============================================================================
