-------------------------- MODULE BoundaryConditions --------------------------
(* The registry of boundary conditions of a mesh as a state machine.

   State: for each of the four kinds a record per face [on, type, id, fn], the
   number of functions registered per kind and the scaling factor.
   Declarations attach a condition to all the boundary faces with a number; the
   last declaration of a kind on a face wins and kinds are independent. *)
EXTENDS MeshLib

DIRICHLET == 0  CLAMPED == 1  DX == 2  DY == 3  DZ == 4  DXDY == 5  DXDZ == 6  DYDZ == 7  NOTHING == 8
NEUMANN == 9    FREE == 10    ROBIN == 11  WHATEVER == 12
SIGNORINI == 13 SIGNORINI_FACE == 14 SIGNORINI_CELL == 15 NO_CONTACT == 16
Kinds == {"D", "N", "R", "C"}
Default == [D |-> NOTHING, N |-> FREE, R |-> WHATEVER, C |-> NO_CONTACT]
None(k) == [on |-> FALSE, type |-> Default[k], id |-> 0, fn |-> -1, any |-> FALSE]

Empty(m) == [reg |-> [k \in Kinds |-> [f \in 1..NF(m) |-> None(k)]], nfn |-> [k \in Kinds |-> 0], factor |-> 1]

(* operation: [op |-> "add", k, type, id, fun (0/1)] | [op |-> "all"] | [op |-> "factor", v] *)
On(m, f, id) == m.isb[f] /\ m.bid[f] = id
Add(m, s, k, type, id, hasfn) ==
    [s EXCEPT !.reg[k] = TLCEval([f \in 1..NF(m) |-> IF On(m, f, id)
                            THEN [on |-> TRUE, type |-> type, id |-> id, fn |-> IF hasfn THEN s.nfn[k] ELSE -1, any |-> FALSE] ELSE @[f]]),
              !.nfn[k] = IF hasfn THEN @ + 1 ELSE @]
AddAll(m, s) ==
    [s EXCEPT !.reg["D"] = TLCEval([f \in 1..NF(m) |-> IF m.isb[f]
                            THEN [on |-> TRUE, type |-> DIRICHLET, id |-> 0, fn |-> s.nfn["D"], any |-> TRUE] ELSE @[f]]),
              !.nfn["D"] = @ + 1]
SetFactor(s, v) == [s EXCEPT !.factor = v]
Apply(m, s, o) == CASE o.op = "add" -> Add(m, s, o.k, o.type, o.id, o.fun = 1)
                    [] o.op = "all" -> AddAll(m, s)
                    [] o.op = "factor" -> SetFactor(s, o.v)

(* ---- queries ---- *)
Binom(n, k) == CASE k = 0 -> 1 [] k = 1 -> n [] k = 2 -> (n * (n - 1)) \div 2 [] k = 3 -> (n * (n - 1) * (n - 2)) \div 6
ScalarFaceDofs(dim, deg) == Binom(deg + dim - 1, dim - 1)
Components(dim, type) == CASE type \in {DIRICHLET, CLAMPED} -> dim [] type \in {DX, DY} -> 1
                           [] type = DZ -> IF dim = 3 THEN 1 ELSE -1
                           [] type = DXDY -> 2 [] type \in {DXDZ, DYDZ} -> IF dim = 3 THEN 2 ELSE -1
                           [] type = NOTHING -> 0
(* number of imposed dofs of a face, -1 if the request must be rejected *)
Imposed(m, scalar, r, deg) ==
    IF ~r.on THEN 0
    ELSE IF scalar THEN (CASE r.type = DIRICHLET -> ScalarFaceDofs(m.dim, deg) [] r.type = NOTHING -> 0 [] OTHER -> -1)
    ELSE LET c == Components(m.dim, r.type) IN IF c < 0 THEN -1 ELSE c * ScalarFaceDofs(m.dim, deg)

Count(s, k) == Cardinality({f \in DOMAIN s.reg[k] : s.reg[k][f].on})
(* value of function number n of the harness in component c (1-based) *)
FnVal(n, c) == (n + 1) * c
Vals(m, scalar, n, factor) == [c \in 1..(IF scalar THEN 1 ELSE m.dim) |-> factor * FnVal(n, c)]
HasFace(m, s, k, c) == \E f \in Rng(m.cf[c]) : s.reg[k][f + 1].on
FacesOf(m, s, c, P(_)) == SelectSeq(m.cf[c], LAMBDA f : P(s.reg["C"][f + 1].type))

RegistryClauses(m, s, scalar, q) ==
    [ onFace |-> \A k \in Kinds : q.on[k] = [f \in 1..NF(m) |-> s.reg[k][f].on] /\ q.on2[k] = q.on[k],
      type   |-> \A k \in Kinds : q.type[k] = [f \in 1..NF(m) |-> s.reg[k][f].type] /\ q.type2[k] = q.type[k],
      number |-> \A k \in Kinds : \A f \in 1..NF(m) : (s.reg[k][f].on /\ ~s.reg[k][f].any) =>
                      q.id[k][f] = s.reg[k][f].id /\ q.id2[k][f] = s.reg[k][f].id,
      counts |-> /\ q.count = <<Count(s, "D"), Count(s, "N"), Count(s, "R"), Count(s, "C")>>
                 /\ q.total = SumSeq(q.count),
      funcs  |-> \A k \in {"D", "N", "R"} : \A f \in 1..NF(m) :
                    q.fn[k][f] = IF s.reg[k][f].on THEN Vals(m, scalar, s.reg[k][f].fn, s.factor) ELSE <<>>,
      cfunc  |-> \A f \in 1..NF(m) : q.fn["C"][f] = IF s.reg["C"][f].on /\ s.reg["C"][f].fn >= 0 THEN <<FnVal(s.reg["C"][f].fn, 1)>> ELSE <<>>,
      cells  |-> \A k \in Kinds : q.cell[k] = [c \in 1..NC(m) |-> HasFace(m, s, k, c)],
      contact|-> \A c \in 1..NC(m) :
                    /\ q.with[c] = FacesOf(m, s, c, LAMBDA t : t # NO_CONTACT)
                    /\ q.without[c] = FacesOf(m, s, c, LAMBDA t : t = NO_CONTACT)
                    /\ q.unknowns[c] = FacesOf(m, s, c, LAMBDA t : t # SIGNORINI_CELL)
                    /\ q.nwith[c] = Cardinality({f \in Rng(m.cf[c]) : s.reg["C"][f + 1].on})
                    /\ q.nwithout[c] = Len(m.cf[c]) - q.nwith[c],
      imposed|-> \A d \in DOMAIN q.imp : q.imp[d] = [f \in 1..NF(m) |-> Imposed(m, scalar, s.reg["D"][f], d - 1)] ]
=============================================================================
