---------------------------------- MODULE HHO ---------------------------------
(* The local operators of HHO methods. An interpolate of a polynomial p has for
   unknowns the L2 projection of p on the polynomials of degree cd on the cell
   and on those of degree fds[i] on the i-th face. The reconstructions are defined
   by integration by parts against a space of test functions (degree rd for a
   potential, gd for a gradient or a divergence); they return exactly what they
   reconstruct for the polynomials p whose projections are not seen by the test
   functions. This module gives the largest such degree, per operator. *)
EXTENDS PolySpaces
(* the cell projection of p is p, or the test functions see only degree n <= cd *)
CellOk(p, g, n) == p <= g.cd \/ n <= g.cd
FaceOk(p, g, n) == \A i \in DOMAIN g.fds : p <= g.fds[i] \/ n <= g.fds[i]
FacesAtLeast(g, n) == \A i \in DOMAIN g.fds : n <= g.fds[i]
Least(a, b) == IF a < b THEN a ELSE b
FaceMin(g) == Min(Rng(g.fds))
(* the potential is reconstructed with Neumann conditions against grad w, w of degree rd *)
ExactRec(p, g, rd) == p <= rd /\ CellOk(p, g, rd - 2) /\ FaceOk(p, g, rd - 1)
Reproduces(op, p, g) ==
    CASE op = "rec" -> ExactRec(p, g, g.rd)
      [] op = "fproj" -> p <= g.rd /\ (p <= g.cd \/ (g.rd - 2 <= g.cd /\ FacesAtLeast(g, g.rd - 1)))
      [] op = "harm" -> p <= Least(g.rd, g.cd + 2) /\ FaceOk(p, g, g.rd - 1)
      [] op = "harmproj" -> p <= Least(g.rd, g.cd + 2) /\ (p <= g.cd \/ FacesAtLeast(g, g.rd - 1))
      [] op = "sfl" -> p <= Least(g.rd, g.cd + 2) /\ ExactRec(p, g, FaceMin(g) + 1)
      [] op = "grad" -> p <= g.gd + 1 /\ CellOk(p, g, g.gd - 1) /\ FaceOk(p, g, g.gd)
      [] op = "rt" -> p <= g.gd /\ CellOk(p, g, g.gd - 1) /\ FaceOk(p, g, g.gd - 1)
      (* the normal traces of x o a are of degree gd - 1 on flat faces, those of
         its symmetric part are not *)
      [] op = "symrt" -> p <= g.gd /\ CellOk(p, g, g.gd - 1) /\ FaceOk(p, g, g.gd)
      (* curls with tangential traces in P(k-1)^2 + grad P(k+1) *)
      [] op = "ned" -> p = 0 \/ (p <= g.gd + 1 /\ CellOk(p, g, g.gd - 1) /\ \A i \in DOMAIN g.fds : p <= g.fds[i] - 1 \/ g.gd <= g.fds[i] - 1)
      (* gradients of polynomials of degree p have no curl *)
      [] op = "sequence" -> p <= FaceMin(g) + 1 /\ (p - 1 <= g.cd \/ g.gd - 1 <= g.cd)
      [] op = "cellface" -> p <= g.cd /\ p <= FaceMin(g)      \* nothing is projected
      [] op = "cell" -> p <= g.cd
(* constants are always reproduced *)
Exact(op, g) == Max({p \in 0..(g.rd + g.gd + 2) : Reproduces(op, p, g)})
GensOf(op, fam, g, d) == IF fam = "harm" THEN GensHarm(IF FacesAtLeast(g, g.rd - 1) THEN g.rd ELSE 0, Least(g.rd, g.cd + 2), d)
                         ELSE Gens(fam, Exact(op, g), d)
Combo(mem, coef, d, nc) == LET F == [i \in DOMAIN mem |-> Field(mem[i], d, nc, <<0, 0, 0>>)] IN
    [c \in 1..nc |-> FlattenSeq([i \in DOMAIN mem |-> PScale(coef[i], F[i][c])])]
(* unknowns of a cell *)
Unknowns(kind, g, nc, d) == CASE kind = "curl" -> 3 * DimP(g.cd, 3) + PSum([i \in DOMAIN g.fds |-> 2 * DimP(g.fds[i], 2)])
                              [] kind = "curlned" -> 3 * DimP(g.cd, 3) + PSum([i \in DOMAIN g.fds |-> Size("ned", g.fds[i], 3, 2)])
                              [] OTHER -> nc * (DimP(g.cd, d) + PSum([i \in DOMAIN g.fds |-> DimP(g.fds[i], d - 1)]))
(* fields of zero energy: constants, rigid motions, gradients (when the curl is exact on the cell polynomials) *)
KernelDim(kind, g, d) == CASE kind = "scalar" -> 1 [] kind = "vector" -> d [] kind = "sym" -> (d * (d + 1)) \div 2
                        [] kind = "zero" -> 0 [] kind \in {"curl", "curlned"} -> DimP(g.cd + 1, d) - 1
=============================================================================
