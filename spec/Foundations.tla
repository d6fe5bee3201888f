------------------------------ MODULE Foundations -----------------------------
(* What everything else stands on: exact numbers, points, identifiers, lines of
   a file, and the registry of polynomial degrees of a mesh.
   A rational is <<n, d>> in lowest terms with d > 0.
   A registry: for every cell the degrees of the cell unknown, the reconstruction
   and the gradient, for every face the degree of its unknown; each <<has, deg>>. *)
EXTENDS Integers, Sequences, FiniteSets
AbsI(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN AbsI(a) ELSE Gcd(AbsI(b), AbsI(a) % AbsI(b))
Norm(n, d) == LET g == Gcd(n, d) s == IF d < 0 THEN -1 ELSE 1 IN <<s * (n \div g), s * (d \div g)>>
(* \div rounds down, but g divides *)
Add(a, b) == Norm(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
Neg(a) == <<-a[1], a[2]>>
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == Norm(a[1] * b[1], a[2] * b[2])
Inv(a) == Norm(a[2], a[1])
Div(a, b) == Mul(a, Inv(b))
Less(a, b) == a[1] * b[2] < b[1] * a[2]
AbsR(a) == <<AbsI(a[1]), a[2]>>
(* what the code shows is the rational: positive denominator, equal value *)
Shows(r, a) == r[2] > 0 /\ r[1] * a[2] = a[1] * r[2]
Bool(x) == IF x THEN 1 ELSE 0
Step(op, a, b) == CASE op = "add" -> Add(a, b) [] op = "sub" -> Sub(a, b) [] op = "mul" -> Mul(a, b)
                    [] op = "div" -> Div(a, b) [] op = "muli" -> Mul(a, b) [] op = "divi" -> Div(a, b)
                    [] op = "neg" -> Neg(a) [] op = "abs" -> AbsR(a) [] op = "inv" -> Inv(a)
RECURSIVE Fact(_)
Fact(n) == IF n < 2 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE Binomial(_, _)
Binomial(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Binomial(n - 1, k - 1) + Binomial(n - 1, k)

(* the registry *)
Const(n, x) == [i \in 1..n |-> x]
NewRegistry(m, k, v) ==
    LET none == <<0, 0>>
        c == IF k = 0 THEN none ELSE <<1, v[1]>>
        f == IF k = 0 THEN none ELSE IF k = 1 THEN <<1, v[1]>> ELSE <<1, v[2]>>
        g == IF k = 3 THEN <<1, v[3]>> ELSE f
        r == IF k = 0 THEN none ELSE <<1, f[2] + 1>>
    IN [cells |-> Const(m.nc, c), faces |-> Const(m.nf, f), grad |-> Const(m.nc, g), rec |-> Const(m.nc, r)]
ApplyOne(m, R, e) ==
    LET i == e.i + 1 IN
    CASE e.op = "new" -> NewRegistry(m, e.k, e.v)
      [] e.op = "celldeg" -> [R EXCEPT !.cells[i][2] = e.v[1]]
      [] e.op = "facedeg" -> [R EXCEPT !.faces[i][2] = e.v[1]]
      [] e.op = "cellhas" -> [R EXCEPT !.cells[i][1] = e.v[1] % 2]
      [] e.op = "facehas" -> [R EXCEPT !.faces[i][1] = e.v[1] % 2]
      [] e.op = "cellinfo" -> [R EXCEPT !.cells[i] = <<e.v[2] % 2, e.v[1]>>]
      [] e.op = "faceinfo" -> [R EXCEPT !.faces[i] = <<e.v[2] % 2, e.v[1]>>]
ApplyOp(m, AB, e) == CASE e.op = "copy" -> <<AB[1], AB[1]>>
                       [] e.op = "swap" -> <<AB[2], AB[1]>>
                       [] OTHER -> <<ApplyOne(m, AB[1], e), AB[2]>>
FacesOf(m, R, c) == [j \in DOMAIN m.cf[c] |-> R.faces[m.cf[c][j] + 1]]
RegistryClauses(m, R, q) ==
    [cells |-> q.cells = R.cells, cellslist |-> q.cells2 = R.cells, celldegs |-> q.cells3 = R.cells,
     faces |-> q.faces = R.faces, faceslist |-> q.faces2 = R.faces, facedegs |-> q.faces3 = R.faces,
     cellfaces |-> \A c \in 1..m.nc : q.cf[c] = FacesOf(m, R, c),
     infocell |-> \A c \in 1..m.nc : q.ci[c] = <<R.cells[c], R.rec[c], R.grad[c]>>,
     infocell2 |-> \A c \in 1..m.nc : q.ci2[c] = <<R.cells[c], R.rec[c], R.grad[c]>>,
     infofaces |-> \A c \in 1..m.nc : q.cif[c] = FacesOf(m, R, c)]
(* degrees of a single cell, from the constructors *)
CellCtor(k, v, fs, nf) ==
    CASE k = 1 -> [i |-> <<<<1, v[1]>>, <<1, v[1] + 1>>, <<1, v[1]>>>>, f |-> Const(nf, <<1, v[1]>>)]
      [] k = 2 -> [i |-> <<<<1, v[1]>>, <<1, v[2] + 1>>, <<1, v[2]>>>>, f |-> Const(nf, <<1, v[2]>>)]
      [] k = 3 -> [i |-> <<<<1, v[1]>>, <<1, v[2] + 1>>, <<1, v[3]>>>>, f |-> Const(nf, <<1, v[2]>>)]
      [] k = 4 -> [i |-> <<<<1, v[1]>>, <<1, v[2]>>, <<1, v[3]>>>>, f |-> fs]
      [] k = 5 -> [i |-> <<<<v[2] % 2, v[1]>>, <<v[3] % 2, v[2]>>, <<v[1] % 2, v[3]>>>>, f |-> fs]

(* lines of a file: everything up to each newline; what follows the last one is not a line *)
Lines(lens) == [i \in DOMAIN lens |-> [j \in 1..lens[i] |-> (7 * i + 3 * j) % 26]]
=============================================================================
