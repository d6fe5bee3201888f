------------------------------- MODULE MeshDoc -------------------------------
(* Abstract mesh documents: conforming polytopal meshes described by points,
   cells, boundary faces with numbers and cell domain numbers.  A document is a
   function of small parameters [kind, bx, by, nz, seed]; TLC enumerates them,
   checks that they are valid meshes and prints them, and the harnesses build
   the real meshes from the printed documents.

   kind: "g1" intervals, "tri", "cart2", "poly" (mixed convex and non-convex
   polygons with hanging nodes), "cpoly" (convex polygons with hanging nodes),
   "tet", "cart3", "prism" (polygonal prisms, generic three-dimensional cells) *)
EXTENDS MeshLib

H1(s, n) == (((s * 131 + n * 31337 + 17) % 65521) * 32719 + 12345) % 65521
Rand(s, n, k) == (H1(H1(s, n), n + 7) \div 3) % k
(* a pseudo-random permutation of 0..n-1, as a sequence *)
Perm(s, n) == IF s = 0 THEN [i \in 1..n |-> i - 1]
              ELSE LET key == TLCEval([i \in 0..(n - 1) |-> H1(s, i)])
                   IN SetToSortSeq(0..(n - 1), LAMBDA a, b : key[a] < key[b] \/ (key[a] = key[b] /\ a < b))

(* local 3x3 points of a block: index = 3*j + i *)
Pattern(p) ==
    CASE p = 0 -> << <<0,1,4,3>>, <<1,2,5,4>>, <<3,4,7,6>>, <<4,5,8,7>> >>
      [] p = 1 -> << <<0,1,4>>, <<0,4,3>>, <<1,2,5>>, <<1,5,4>>, <<3,4,7>>, <<3,7,6>>, <<4,5,8>>, <<4,8,7>> >>
      [] p = 2 -> << <<0,1,3>>, <<1,4,3>>, <<1,2,4>>, <<2,5,4>>, <<3,4,6>>, <<4,7,6>>, <<4,5,7>>, <<5,8,7>> >>
      [] p = 3 -> << <<0,1,4>>, <<1,2,4>>, <<2,5,4>>, <<5,8,4>>, <<8,7,4>>, <<7,6,4>>, <<6,3,4>>, <<3,0,4>> >>
      [] p = 4 -> << <<0,1,4,7,6,3>>, <<1,2,5,8,7,4>> >>             \* two rectangles, hanging nodes
      [] p = 5 -> << <<0,1,2,5,8,7,6,3>> >>                           \* whole block
      [] p = 6 -> << <<0,1,3>>, <<1,2,5,8,7,6,3>> >>                  \* cut corner
      [] p = 7 -> << <<0,1,3>>, <<2,5,1>>, <<5,8,7>>, <<7,6,3>>, <<1,5,7,3>> >>   \* diamond
      [] p = 8 -> << <<0,1,2,5,4,7,6,3>>, <<4,5,8,7>> >>              \* L shape and square
      [] p = 9 -> << <<0,1,4,5,8,7,6,3>>, <<1,2,5,4>> >>              \* L shape and square
      [] p = 10 -> << <<0,1,4,3>>, <<1,2,5,4>>, <<3,4,5,8,7,6>> >>
      [] p = 11 -> << <<0,2,8,6>> >>                                  \* whole block, no hanging nodes

Patterns(kind) == CASE kind = "tri" -> <<1, 2, 3>> [] kind = "tet" -> <<1, 2, 3>>
                    [] kind \in {"cart2", "cart3"} -> <<0>>
                    [] kind \in {"cpoly", "prism"} -> <<0, 1, 2, 3, 4, 5, 6, 7, 10>>
                    [] kind = "poly" -> <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10>>

(* base plane: cells as cycles over grid indices 0..(2bx+1)(2by+1)-1 *)
BaseCells(kind, bx, by, seed, pat) ==
    LET w == 2 * bx + 1
        g(i, j, q) == (2 * j + (q \div 3)) * w + 2 * i + (q % 3)
        ps == Patterns(kind)
        blk(i, j) == LET p == IF pat >= 0 THEN pat ELSE ps[Rand(seed, 10 + j * bx + i, Len(ps)) + 1]
                     IN [k \in DOMAIN Pattern(p) |-> [n \in DOMAIN Pattern(p)[k] |-> g(i, j, Pattern(p)[k][n])]]
    IN FlattenSeq([b \in 1..(bx * by) |-> blk((b - 1) % bx, (b - 1) \div bx)])

Steps(seed, tag, n) == IF seed = 0 THEN [i \in 0..n |-> i]
                       ELSE LET inc == [i \in 1..n |-> 1 + Rand(seed, tag + i, 3)]
                            IN [i \in 0..n |-> SumSeq([k \in 1..i |-> inc[k]])]

(* an invertible integer map for the kinds that are not axis-aligned *)
Matrix(kind, seed, dim) ==
    IF seed < 2 \/ kind \in {"g1", "cart2", "cart3"} THEN [r \in 1..dim |-> [c \in 1..dim |-> IF r = c THEN 1 ELSE 0]]
    ELSE IF dim = 2 THEN << <<1, Rand(seed, 3, 3) - 1>>, <<Rand(seed, 4, 2), 2>> >>
    ELSE << <<1, Rand(seed, 3, 2), 0>>, <<0, 1, Rand(seed, 4, 2)>>, <<Rand(seed, 5, 2), 0, 2>> >>
Apply(mx, p) == [r \in DOMAIN mx |-> SumSeq([c \in DOMAIN p |-> mx[r][c] * p[c]])]
AbsDet(mx) == Abs(IF Len(mx) = 1 THEN mx[1][1] ELSE IF Len(mx) = 2 THEN Cross2(mx[1], mx[2]) ELSE Det3(mx[1], mx[2], mx[3]))

(* keep the used points only and renumber them by a permutation *)
Renumber(pts, cells, cfaces, bnd, seed) ==
    LET used == UNION {Rng(cells[k]) : k \in DOMAIN cells}
        ord == SetToSortSeq(used, LAMBDA a, b : a < b)
        pm == Perm(IF seed = 0 THEN 0 ELSE seed + 5, Len(ord))
        new == TLCEval([i \in used |-> pm[CHOOSE k \in DOMAIN ord : ord[k] = i]])
        inv == TLCEval([n \in 0..(Len(ord) - 1) |-> CHOOSE i \in used : new[i] = n])
        mp(s) == [k \in DOMAIN s |-> new[s[k]]]
    IN [pts |-> [n \in 1..Len(ord) |-> pts[inv[n - 1]]],
        cells |-> [k \in DOMAIN cells |-> mp(cells[k])],
        cfaces |-> [k \in DOMAIN cfaces |-> [j \in DOMAIN cfaces[k] |-> mp(cfaces[k][j])]],
        bnd |-> [k \in DOMAIN bnd |-> [pts |-> mp(bnd[k].pts), id |-> bnd[k].id]]]

Shuffle(seq, seed) == LET pm == Perm(seed, Len(seq)) IN [k \in DOMAIN seq |-> seq[pm[k] + 1]]
Edge2(c, k) == <<c[k], c[(k % Len(c)) + 1]>>
CartOrder(q) == <<q[1], q[2], q[4], q[3]>>    \* cycle -> lexicographic

PlaneNo2 == << [lo |-> 3, hi |-> 1], [lo |-> 0, hi |-> 2] >>
PlaneNo3 == << [lo |-> 2, hi |-> 5], [lo |-> 1, hi |-> 4], [lo |-> 0, hi |-> 3] >>
(* a number per plane, a renamed set of numbers, or one number for all *)
BndName(seed, n) == IF seed < 2 THEN n ELSE IF (seed % 4) = 3 THEN seed % 3 ELSE (n * 2 + seed) % 13

Doc(par) ==
  LET kind == par.kind  seed == par.seed  bx == par.bx  by == par.by  nz == par.nz IN
  IF kind = "g1" THEN
      LET xs == Steps(seed, 100, bx) IN
      [dim |-> 1, kind |-> "gen", scale |-> 1, par |-> par,
       pts |-> [n \in 1..(bx + 1) |-> <<xs[n - 1]>>],
       cells |-> [k \in 1..bx |-> <<k - 1, k>>],
       cfaces |-> [k \in 1..bx |-> <<>>],
       bnd |-> << [pts |-> <<0>>, id |-> BndName(seed, 0)], [pts |-> <<bx>>, id |-> BndName(seed, 1)] >>,
       dom |-> [k \in 1..bx |-> IF seed = 0 THEN 0 ELSE Rand(seed, 200 + k, 3)],
       measure |-> xs[bx]]
  ELSE
  LET w == 2 * bx + 1
      hgt == 2 * by + 1
      xs == Steps(seed, 100, w - 1)
      ys == Steps(seed, 150, hgt - 1)
      base == Shuffle(BaseCells(kind, bx, by, seed, IF "pat" \in DOMAIN par THEN par.pat ELSE -1), seed)
      rot(c, k) == LET r == IF seed = 0 THEN 0 ELSE Rand(seed, 300 + k, Len(c))
                   IN [n \in DOMAIN c |-> c[((n - 1 + r) % Len(c)) + 1]]
      ax(g, a) == IF a = 1 THEN g % w ELSE g \div w
      side2(e) == \E a \in 1..2 : \A i \in Rng(e) : ax(i, a) \in {0} \/ \A i2 \in Rng(e) : ax(i2, a) = (IF a = 1 THEN w - 1 ELSE hgt - 1)
      plane2(e) == IF \A i \in Rng(e) : ax(i, 1) = 0 THEN 3
                   ELSE IF \A i \in Rng(e) : ax(i, 1) = w - 1 THEN 1
                   ELSE IF \A i \in Rng(e) : ax(i, 2) = 0 THEN 0
                   ELSE IF \A i \in Rng(e) : ax(i, 2) = hgt - 1 THEN 2 ELSE -1
      bedges == SelectSeq(FlattenSeq([k \in DOMAIN base |-> [n \in DOMAIN base[k] |-> Edge2(base[k], n)]]),
                          LAMBDA e : plane2(e) # -1)
      dims2 == kind \in {"tri", "cart2", "poly", "cpoly"}
      mx == Matrix(kind, seed, IF dims2 THEN 2 ELSE 3)
      dom(n) == [k \in 1..n |-> IF seed = 0 THEN 0 ELSE Rand(seed, 200 + k, 3)]
  IN IF dims2 THEN
      LET pts == TLCEval([g \in 0..(w * hgt - 1) |-> Apply(mx, <<xs[g % w], ys[g \div w]>>)])
          cells == [k \in DOMAIN base |-> IF kind = "cart2" THEN CartOrder(base[k]) ELSE rot(base[k], k)]
          bnd == [k \in DOMAIN bedges |-> [pts |-> bedges[k], id |-> BndName(seed, plane2(bedges[k]))]]
          rn == Renumber(pts, cells, [k \in DOMAIN cells |-> <<>>], Shuffle(bnd, seed), IF kind = "cart2" THEN 0 ELSE seed)
      IN [dim |-> 2, kind |-> IF kind = "tri" THEN "simplex" ELSE IF kind = "cart2" THEN "cart" ELSE "gen", scale |-> 1,
          par |-> par, pts |-> rn.pts, cells |-> rn.cells, cfaces |-> rn.cfaces, bnd |-> rn.bnd, dom |-> dom(Len(cells)),
          measure |-> 2 * xs[w - 1] * ys[hgt - 1] * AbsDet(mx)]
  ELSE
      LET zs == Steps(seed, 170, nz)
          lay == w * hgt
          pts == TLCEval([g \in 0..(lay * (nz + 1) - 1) |->
                   Apply(mx, <<xs[(g % lay) % w], ys[(g % lay) \div w], zs[g \div lay]>>)])
          up(s, l) == [n \in DOMAIN s |-> s[n] + l * lay]
          nb == Len(base)
          bot(k, l) == up(base[k], l)
          lat(k, l, n) == LET e == Edge2(base[k], n) IN <<e[1] + l * lay, e[2] + l * lay, e[2] + (l + 1) * lay, e[1] + (l + 1) * lay>>
          prismF(k, l) == << bot(k, l), bot(k, l + 1) >> \o [n \in DOMAIN base[k] |-> lat(k, l, n)]
          prism(k, l) == bot(k, l) \o bot(k, l + 1)
          srt(c) == SetToSortSeq(Rng(c), LAMBDA a, b : a < b)
          tets(k, l) == LET s == srt(base[k])  a == up(s, l)  b == up(s, l + 1) IN
                        << <<a[1], a[2], a[3], b[3]>>, <<a[1], a[2], b[2], b[3]>>, <<a[1], b[1], b[2], b[3]>> >>
          tetF(t) == << <<t[1], t[2], t[3]>>, <<t[1], t[2], t[4]>>, <<t[1], t[3], t[4]>>, <<t[2], t[3], t[4]>> >>
          cartV(k, l) == up(CartOrder(base[k]), l) \o up(CartOrder(base[k]), l + 1)
          nums == [n \in 1..(nb * nz) |-> <<((n - 1) % nb) + 1, (n - 1) \div nb>>]
          cells == IF kind = "tet" THEN FlattenSeq([n \in DOMAIN nums |-> tets(nums[n][1], nums[n][2])])
                   ELSE IF kind = "cart3" THEN [n \in DOMAIN nums |-> cartV(nums[n][1], nums[n][2])]
                   ELSE [n \in DOMAIN nums |-> prism(nums[n][1], nums[n][2])]
          cfs == IF kind = "tet" THEN [k \in DOMAIN cells |-> tetF(cells[k])]
                 ELSE [n \in DOMAIN nums |-> prismF(nums[n][1], nums[n][2])]
          plane3(f) == IF \A i \in Rng(f) : i \div lay = 0 THEN 0
                       ELSE IF \A i \in Rng(f) : i \div lay = nz THEN 3
                       ELSE LET p == plane2([n \in DOMAIN f |-> f[n] % lay]) IN
                            IF Cardinality({i % lay : i \in Rng(f)}) # 2 THEN -1
                            ELSE CASE p = 3 -> 2 [] p = 1 -> 5 [] p = 0 -> 1 [] p = 2 -> 4 [] OTHER -> -1
          allf == FlattenSeq(cfs)
          bf == SelectSeq(allf, LAMBDA f : plane3(f) # -1)
          bnd == [k \in DOMAIN bf |-> [pts |-> bf[k], id |-> BndName(seed, plane3(bf[k]))]]
          rn == Renumber(pts, cells, cfs, Shuffle(bnd, seed), IF kind = "cart3" THEN 0 ELSE seed)
      IN [dim |-> 3, kind |-> IF kind = "tet" THEN "simplex" ELSE IF kind = "cart3" THEN "cart" ELSE "gen", scale |-> 1,
          par |-> par, pts |-> rn.pts, cells |-> rn.cells, cfaces |-> rn.cfaces, bnd |-> rn.bnd, dom |-> dom(Len(cells)),
          measure |-> 6 * xs[w - 1] * ys[hgt - 1] * zs[nz] * AbsDet(mx)]

(* the document as a mesh value of MeshLib *)
DocFaces(d, k) == IF d.dim = 1 THEN {<<d.cells[k][1]>>, <<d.cells[k][2]>>}
                  ELSE IF d.dim = 2 THEN LET q == IF d.kind = "cart" THEN CartOrder(d.cells[k]) ELSE d.cells[k]
                                         IN {Edge2(q, n) : n \in DOMAIN q}
                  ELSE Rng(d.cfaces[k])
DocMesh(d) ==
    LET per == TLCEval([k \in DOMAIN d.cells |-> DocFaces(d, k)])
        all == UNION {per[k] : k \in DOMAIN per}
        sets == {Rng(f) : f \in all}
        es == SetToSeq(sets)
        idx == TLCEval([s \in sets |-> CHOOSE n \in DOMAIN es : es[n] = s])
        rep == TLCEval([n \in DOMAIN es |-> CHOOSE f \in all : Rng(f) = es[n]])
        bmap == TLCEval([n \in DOMAIN es |-> {d.bnd[k].id : k \in {j \in DOMAIN d.bnd : Rng(d.bnd[j].pts) = es[n]}}])
    IN [dim |-> d.dim, kind |-> d.kind, scale |-> d.scale, pts |-> d.pts, cells |-> d.cells, faces |-> rep,
        cf |-> [k \in DOMAIN per |-> SetToSeq({idx[Rng(f)] - 1 : f \in per[k]})],
        isb |-> [n \in DOMAIN es |-> bmap[n] # {}],
        bid |-> [n \in DOMAIN es |-> IF Cardinality(bmap[n]) = 1 THEN CHOOSE x \in bmap[n] : TRUE ELSE -1],
        bint |-> [n \in DOMAIN es |-> FALSE]]

DocClauses(d) ==
    LET m == TLCEval(DocMesh(d))  own == TLCEval(Owners(m)) IN
    [wf |-> WellFormed(m)] @@ TilingClauses(m, own, d.measure) @@ [bnd |-> BoundaryIsOneSided(m, own)]
=============================================================================
