------------------------------ MODULE PolySpaces -----------------------------
(* The polynomial spaces the bases of the code must span, each given by its
   dimension and by a set of fields that generate it.

   A generator is named by a sequence of integers, its first element the form:
     <<0, e.., c>>    m e_c                    (c-th component of a scalar/vector/matrix field)
     <<1, e..>>       m x                      (vector, x the position)
     <<2, e.., r>>    row r of the matrix is m x
     <<3, e.., r>>    m (e_r x^T + x e_r^T)
     <<4, e.., i, j>> m (E_ij + E_ji)
     <<5, e.., c>>    |N|^2 m e_c minus its normal part, N the normal of a face
     <<6, e..>>       same of grad m
     <<7, n, v, q>>   real (q = 0) or imaginary part of (a_v . x)^n, a_v isotropic: harmonic
     <<8, e..>>       grad m
   m is the monomial with the exponents e. *)
EXTENDS Poly, MeshLib
Cat(e, s) == [i \in 1..(Len(e) + Len(s)) |-> IF i <= Len(e) THEN e[i] ELSE s[i - Len(e)]]
(* isotropic vectors (real part, imaginary part) *)
Iso2 == << << <<1, 0>>, <<0, 1>> >> >>
Iso3 == << << <<1, 0, 0>>, <<0, 1, 0>> >>, << <<1, 0, 0>>, <<0, 0, 1>> >>, << <<0, 1, 0>>, <<0, 0, 1>> >>,
           << <<3, 4, 0>>, <<0, 0, 5>> >>, << <<3, 0, 4>>, <<0, 5, 0>> >>, << <<0, 3, 4>>, <<5, 0, 0>> >> >>
Iso(d) == IF d = 2 THEN Iso2 ELSE Iso3
LinP(v) == LET d == Len(v)  nz == SelectSeq([k \in 1..d |-> k], LAMBDA k : v[k] # 0) IN [i \in DOMAIN nz |-> <<v[nz[i]], Unit(d, nz[i])>>]
RECURSIVE CPow(_, _)
CPow(a, n) == IF n = 1 THEN <<LinP(a[1]), LinP(a[2])>>
              ELSE LET r == CPow(a, n - 1)  re == LinP(a[1])  im == LinP(a[2]) IN
                   <<PAdd(PMul(re, r[1]), PNeg(PMul(im, r[2]))), PAdd(PMul(re, r[2]), PMul(im, r[1]))>>
(* N N^T w and |N|^2 w *)
Tangential(w, N) == LET n2 == PSum([k \in DOMAIN N |-> N[k] * N[k]]) IN
    [i \in DOMAIN w |-> PAdd(PScale(n2, w[i]), FlattenSeq([k \in DOMAIN w |-> PScale(-N[i] * N[k], w[k])]))]
Field(g, d, nc, N) ==
    LET e == [k \in 1..d |-> g[k + 1]]  m == PMono(e)
        mx(k) == PMul(m, PVar(d, k))
        ix(i, j) == (((i - 1) * d) + j)
        mat(f(_, _)) == [q \in 1..(d * d) |-> f(((q - 1) \div d) + 1, ((q - 1) % d) + 1)]
    IN CASE g[1] = 0 -> [i \in 1..nc |-> IF i = g[d + 2] THEN m ELSE PZero]
         [] g[1] = 1 -> [i \in 1..d |-> mx(i)]
         [] g[1] = 2 -> mat(LAMBDA i, j : IF i = g[d + 2] THEN mx(j) ELSE PZero)
         [] g[1] = 3 -> mat(LAMBDA i, j : PAdd(IF i = g[d + 2] THEN mx(j) ELSE PZero, IF j = g[d + 2] THEN mx(i) ELSE PZero))
         [] g[1] = 4 -> mat(LAMBDA i, j : PAdd(IF i = g[d + 2] /\ j = g[d + 3] THEN m ELSE PZero, IF j = g[d + 2] /\ i = g[d + 3] THEN m ELSE PZero))
         [] g[1] = 5 -> Tangential([i \in 1..d |-> IF i = g[d + 2] THEN m ELSE PZero], N)
         [] g[1] = 6 -> Tangential(Grad(m, d), N)
         [] g[1] = 8 -> Grad(m, d)
         [] g[1] = 7 -> << CPow(Iso(d)[g[3]], g[2])[g[4] + 1] >>
Mk(t, E, S) == {Cat(<<t>>, Cat(e, s)) : e \in E, s \in S}
(* families: d the dimension of the ambient space, s that of the element *)
Gens(fam, k, d) ==
    CASE fam = "scal" -> Mk(0, ExpsLe(d, k), {<<1>>})
      [] fam = "vec" -> Mk(0, ExpsLe(d, k), {<<c>> : c \in 1..d})
      [] fam = "mat" -> Mk(0, ExpsLe(d, k), {<<c>> : c \in 1..(d * d)})
      [] fam = "sym" -> Mk(4, ExpsLe(d, k), {<<i, j>> : i \in 1..d, j \in 1..d})
      [] fam = "rt" -> Mk(0, ExpsLe(d, k - 1), {<<c>> : c \in 1..d}) \cup Mk(1, ExpsEq(d, k - 1), {<<>>})
      [] fam = "matrt" -> Mk(0, ExpsLe(d, k - 1), {<<c>> : c \in 1..(d * d)}) \cup Mk(2, ExpsEq(d, k - 1), {<<r>> : r \in 1..d})
      [] fam = "symrt" -> Mk(4, ExpsLe(d, k - 1), {<<i, j>> : i \in 1..d, j \in 1..d}) \cup Mk(3, ExpsEq(d, k - 1), {<<r>> : r \in 1..d})
      [] fam = "tang" -> Mk(5, ExpsLe(d, k), {<<c>> : c \in 1..d})
      [] fam = "grads" -> {g \in Mk(8, ExpsLe(d, k), {<<>>}) : \E i \in 1..d : g[i + 1] > 0}
      [] fam = "ned" -> Mk(5, ExpsLe(d, k - 1), {<<c>> : c \in 1..d}) \cup Mk(6, ExpsLe(d, k + 1), {<<>>})
(* harmonic tops: all polynomials up to degree p, harmonic ones above *)
GensHarm(k, p, d) == Mk(0, ExpsLe(d, p), {<<1>>}) \cup {<<7, n, v, q>> : n \in (p + 1)..k, v \in 1..Len(Iso(d)), q \in 0..1}
Size(fam, k, d, s) ==
    CASE fam = "scal" -> DimP(k, s)
      [] fam = "vec" -> d * DimP(k, s)
      [] fam = "mat" -> d * d * DimP(k, s)
      [] fam = "sym" -> ((d * (d + 1)) \div 2) * DimP(k, s)
      [] fam = "rt" -> d * DimP(k - 1, s) + DimP(k - 1, s - 1)
      [] fam = "matrt" -> d * (d * DimP(k - 1, s) + DimP(k - 1, s - 1))
      [] fam = "symrt" -> ((d * (d + 1)) \div 2) * DimP(k - 1, s) + d * DimP(k - 1, s - 1)
      [] fam = "tang" -> s * DimP(k, s)
      [] fam = "ned" -> s * DimP(k - 1, s) + (k + 2)
SizeHarm(k, p, d) == DimP(p, d) + (IF d = 2 THEN 2 * (k - p) ELSE ((k + 1) * (k + 1)) - ((p + 1) * (p + 1)))
NComp(fam, d) == CASE fam \in {"scal", "harm"} -> 1 [] fam \in {"vec", "rt", "tang", "ned", "grads"} -> d [] fam \in {"mat", "sym", "matrt", "symrt"} -> d * d
(* operators *)
Oper(op, F, d) == CASE op = "grad" -> Grad(F[1], d) [] op = "jac" -> Jac(F, d) [] op = "sgrad2" -> SymGrad2(F, d)
                    [] op = "div" -> Div(F, d) [] op = "curl" -> IF d = 2 THEN Curl2(F) ELSE Curl3(F)
                    [] op = "id" -> F
=============================================================================
