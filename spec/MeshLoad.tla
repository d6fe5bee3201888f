------------------------------ MODULE MeshLoad ------------------------------
(* What loading a mesh file must produce: the mesh the file describes, with the
   points, cells and faces of the document up to renumbering, the boundary
   numbers of the format and the subdomains the format carries. *)
EXTENDS MeshDoc

C(m, i) == m.pts[i + 1]
CSet(m, s) == {C(m, i) : i \in Rng(s)}
CEdges(m, cyc) == {{C(m, cyc[k]), C(m, cyc[(k % Len(cyc)) + 1])} : k \in DOMAIN cyc}
(* geometric identity of a cell and of a face *)
CellKey(m, c) == IF m.kind = "cart" THEN <<[k \in DOMAIN m.cells[c] |-> C(m, m.cells[c][k])]>>
                 ELSE <<CSet(m, m.cells[c]), IF m.dim = 2 THEN CEdges(m, m.cells[c]) ELSE {}>>
FaceKey(m, f) == <<CSet(m, m.faces[f]), IF m.dim = 3 THEN CEdges(m, m.faces[f]) ELSE {}>>

(* formats that carry no boundary numbers: numbered by the outward normal when
   all boundary faces are parallel to the coordinate planes, else all zero *)
ByNormal(fmt) == fmt \in {"typ1", "msh"}
NoNumbers(fmt) == fmt \in {"quad", "hex"}
KeepsDomains(fmt) == fmt \in {"typ1", "mesh"}
MayKeepDomains(fmt) == fmt \in {"mesh2d", "medit2d"}

(* outward normal direction of boundary face f of the mesh: <<axis, side>> or <<0,0>> *)
Axis(m, own, f) ==
    LET c == CHOOSE x \in own[f] : TRUE
        flat(k) == Cardinality({C(m, i)[k] : i \in Rng(m.faces[f])}) = 1
        ks == {k \in 1..m.dim : flat(k)}
    IN IF ks = {} THEN <<0, 0>>
       ELSE LET k == CHOOSE k \in ks : TRUE
                v == C(m, m.faces[f][1])[k]
                (* direction of the cell seen from the face *)
                s == IF m.dim = 2
                     THEN LET a == m.faces[f][1]  b == m.faces[f][2]
                              d == IF <<a, b>> \in DirEdges(m, c) THEN <<a, b>> ELSE <<b, a>>
                              n == <<C(m, d[2])[2] - C(m, d[1])[2], C(m, d[1])[1] - C(m, d[2])[1]>>
                          IN Sgn(n[k])
                     ELSE IF \E i \in Rng(m.cells[c]) : C(m, i)[k] < v THEN 1 ELSE -1
            IN <<k, s>>
PlaneNumber(dim, as) == IF dim = 2 THEN (CASE as = <<1, -1>> -> 3 [] as = <<1, 1>> -> 1 [] as = <<2, -1>> -> 0 [] as = <<2, 1>> -> 2)
                        ELSE (CASE as = <<1, -1>> -> 2 [] as = <<1, 1>> -> 5 [] as = <<2, -1>> -> 1 [] as = <<2, 1>> -> 4
                                [] as = <<3, -1>> -> 0 [] as = <<3, 1>> -> 3)

Expected(fmt, d, trans) ==
    LET m == TLCEval(DocMesh(d))
        own == TLCEval(Owners(m))
        ax == TLCEval([f \in 1..NF(m) |-> IF m.isb[f] THEN Axis(m, own, f) ELSE <<0, 0>>])
        parallel == \A f \in 1..NF(m) : m.isb[f] => ax[f] # <<0, 0>>
        num(f) == IF NoNumbers(fmt) THEN 0
                  ELSE IF ByNormal(fmt) THEN (IF parallel THEN PlaneNumber(m.dim, ax[f]) ELSE 0)
                  ELSE m.bid[f]
        isTr(f) == trans /\ Cardinality(own[f]) = 2 /\ Cardinality({d.dom[c] : c \in own[f]}) = 2
    IN [faces |-> {<<FaceKey(m, f), m.isb[f] \/ isTr(f), IF m.isb[f] THEN num(f) ELSE IF isTr(f) THEN 0 ELSE -1, isTr(f)>> : f \in 1..NF(m)},
        nf |-> NF(m),
        cells |-> {<<CellKey(m, c), {FaceKey(m, m.cf[c][k] + 1) : k \in DOMAIN m.cf[c]}>> : c \in 1..NC(m)},
        nc |-> NC(m),
        dom |-> {<<CellKey(m, c), d.dom[c]>> : c \in 1..NC(m)},
        edges |-> IF m.dim = 3 THEN UNION {CEdges(m, m.faces[f]) : f \in 1..NF(m)} ELSE {}]

LoadClauses(e) ==
  IF ~e.ok THEN [loaded |-> FALSE] ELSE
  IF ~WellFormed(e) THEN [wellFormed |-> FALSE] ELSE
  LET d == Doc(e.par)
      x == TLCEval(Expected(e.fmt, d, e.trans))
      own == TLCEval(Owners(e))
      domOk(dd) == {<<CellKey(e, c), e.dom[c]>> : c \in 1..NC(e)} = dd
      zero == {<<k[1], 0>> : k \in x.dom}
  IN [points |-> Len(e.pts) = Len(d.pts) /\ Rng(e.pts) = Rng(d.pts) /\ e.nn = Len(d.pts),
      faces |-> NF(e) = x.nf /\ {<<FaceKey(e, f), e.isb[f], e.bid[f], e.bint[f]>> : f \in 1..NF(e)} = x.faces,
      cells |-> NC(e) = x.nc /\ {<<CellKey(e, c), {FaceKey(e, e.cf[c][k] + 1) : k \in DOMAIN e.cf[c]}>> : c \in 1..NC(e)} = x.cells,
      domains |-> Len(e.dom) = NC(e) /\ IF KeepsDomains(e.fmt) THEN domOk(x.dom)
                                        ELSE domOk(zero) \/ (MayKeepDomains(e.fmt) /\ domOk(x.dom)),
      edges |-> Len(e.ed) = Cardinality(x.edges) /\ (\A p \in Rng(e.ed) : Len(p) = 2 /\ \A i \in Rng(p) : i \in 0..(NP(e) - 1))
                /\ {CSet(e, p) : p \in Rng(e.ed)} = x.edges]
     @@ TilingClauses(e, own, d.measure)

UniformClauses(e) ==
  IF ~WellFormed(e) THEN [wellFormed |-> FALSE] ELSE
  LET x(k) == e.lo * e.n + k * (e.hi - e.lo)   own == TLCEval(Owners(e)) IN
  [ok |-> e.ok,
   points |-> e.pts = [k \in 1..(e.n + 1) |-> <<x(k - 1)>>],
   cells |-> NC(e) = e.n /\ \A k \in 1..e.n : CSet(e, e.cells[k]) = {<<x(k - 1)>>, <<x(k)>>},
   faces |-> NF(e) = e.n + 1 /\ BoundaryIsOneSided(e, own) /\ \A f \in 1..NF(e) : e.isb[f] => e.bid[f] = 0,
   dom |-> Len(e.dom) = e.n /\ Rng(e.dom) = {0}]
   @@ TilingClauses(e, own, e.n * (e.hi - e.lo))

(* malformed input is refused, it never yields a mesh *)
BadClauses(e) == [refused |-> ~e.ok \/ e.exc]
=============================================================================
