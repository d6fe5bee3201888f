------------------------- MODULE MeshHierarchyTrace -------------------------
(* A hierarchy is a sequence of meshes, each the red refinement of the one
   before, inheriting boundary and domain numbers; locating a point gives, at
   every level, the cell that contains it. *)
EXTENDS MeshGen, TraceLib
VARIABLES l, ms, doms, hs, want
vars == <<l, ms, doms, hs, want>>
Is(ev) == l <= Len(Trace) /\ Trace[l].ev = ev /\ l' = l + 1
e == Trace[l]
Init == l = 1 /\ ms = <<>> /\ doms = <<>> /\ hs = <<>> /\ want = -1

OnSegment(p, a, b) == /\ Cross2(Sub2(b, a), Sub2(p, a)) = 0
                      /\ Min({a[1], b[1]}) <= p[1] /\ p[1] <= Max({a[1], b[1]})
                      /\ Min({a[2], b[2]}) <= p[2] /\ p[2] <= Max({a[2], b[2]})
(* boundary numbers and domains are those of the coarse entity *)
InheritClauses(m, n, dm, dn) ==
    LET par == ParentTable(m, n) IN
    [ boundaryIds |-> \A f \in 1..NF(n) : n.isb[f] =>
          \E g \in 1..NF(m) : /\ m.isb[g] /\ m.bid[g] = n.bid[f]
                              /\ \A i \in Rng(n.faces[f]) : OnSegment(Pt(n, i), Pt(m, m.faces[g][1]), Pt(m, m.faces[g][2])),
      domains     |-> \A c \in 1..NC(n) : \A p \in par[c] : dn[c] = dm[p] ]

Hierarchy == Is("Hierarchy") /\ Holds(l, [size |-> e.size = e.levels + 1])
             /\ ms' = <<>> /\ doms' = <<>> /\ hs' = <<>> /\ want' = e.levels
Level == /\ Is("Level") /\ want # -1 /\ e.level = Len(ms) /\ e.level <= want
         /\ IF ~WellFormed(e) THEN Reject(l, "malformed")
            ELSE LET own == TLCEval(Owners(e)) IN
            /\ Holds(l, TilingClauses(e, own, IF ms = <<>> THEN TotalMeas(e) ELSE TotalMeas(ms[Len(ms)]))
                        @@ [boundary |-> BoundaryIsOneSided(e, own)])
            /\ IF ms = <<>> THEN TRUE
               ELSE Holds(l, RefineClauses(ms[Len(ms)], e) @@ InheritClauses(ms[Len(ms)], e, doms[Len(ms)], e.dom))
         /\ ms' = Append(ms, e) /\ doms' = Append(doms, e.dom)
         /\ hs' = Append(hs, TLCEval([c \in 1..NC(e) |-> TLCEval(HalfSpaces(e, c))]))
         /\ UNCHANGED want
Ends == Is("Ends") /\ Len(ms) = want + 1
        /\ Holds(l, [coarse |-> e.coarse = NC(ms[1]), fine |-> e.fine = NC(ms[Len(ms)])])
        /\ UNCHANGED <<ms, doms, hs, want>>
StrictIn(h, x) == \A k \in DOMAIN h : DotN(h[k][1], x) > h[k][2]
Locate == /\ Is("Locate") /\ Len(ms) = want + 1
          /\ LET h == hs[e.level + 1]
                 closed == {c \in DOMAIN h : Inside(h[c], e.pt)}
                 strict == {c \in closed : StrictIn(h[c], e.pt)}
             IN Holds(l, [found |-> IF strict # {} THEN e.res + 1 \in strict
                                    ELSE IF closed = {} THEN e.res = -1
                                    ELSE e.res = -1 \/ e.res + 1 \in closed])
          /\ UNCHANGED <<ms, doms, hs, want>>
NoLevel == Is("NoLevel") /\ Holds(l, [rejected |-> e.level > want => e.throws]) /\ UNCHANGED <<ms, doms, hs, want>>
Next == Hierarchy \/ Level \/ Ends \/ Locate \/ NoLevel
Spec == Init /\ [][Next]_vars
View == l
=============================================================================
