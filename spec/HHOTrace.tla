------------------------------- MODULE HHOTrace -------------------------------
(* Local operators of the code against HHO.tla.
   Recon   an operator applied to the interpolate of a polynomial with random
           coefficients on all generators of the degree it must reproduce
   Kernel  a matrix applied to such an interpolate must vanish
   Form    a stabilised bilinear form: symmetric, positive, kernel as expected
   Equal   two ways of computing the same matrix
   (Gram)  energies of the powers of affine forms, as in PolySpacesTrace *)
EXTENDS PolySpacesTrace, HHO
Asked == /\ e.deg = (IF e.fam = "harm" THEN e.deg ELSE Exact(e.op, e.g))
         /\ Rng(e.mem) = GensOf(e.op, e.fam, e.g, e.d)
         /\ Len(e.coef) = Len(e.mem) /\ \A i \in DOMAIN e.coef : e.coef[i] # 0
Recon == /\ Is("Recon") /\ UNCHANGED m
         /\ LET P == TLCEval(Points)  F == TLCEval(Combo(e.mem, e.coef, e.d, NComp(e.fam, e.d)))
            IN Holds(l, [lattice |-> Independent(e.dirs) /\ e.n >= Exact(e.op, e.g),
                         asked |-> Asked,
                         reproduced |-> Same(e.val, Oper(e.oper, F, e.d), P)])
Kernel == /\ Is("Kernel") /\ UNCHANGED m
          /\ Holds(l, [asked |-> Asked,
                       size |-> Len(e.v) = e.size,
                       vanishes |-> \A i \in DOMAIN e.v : e.v[i] = 0])
Form == /\ Is("Form") /\ UNCHANGED m
        /\ Holds(l, [size |-> e.size = Unknowns(e.kind, e.g, e.nc, e.d),
                     symmetric |-> e.asym = 0,
                     positive |-> e.neg = 0,
                     kernel |-> e.rank = e.size - KernelDim(e.kind, e.g, e.d),
                     exact |-> (e.kind \in {"curl", "curlned"}) => Exact(e.op, e.g) >= e.g.cd])
Equal == /\ Is("Equal") /\ UNCHANGED m
         /\ Holds(l, [shape |-> e.ra = e.rb /\ e.ca = e.cb, equal |-> e.diff = 0])
HNext == Next \/ Recon \/ Kernel \/ Form \/ Equal
HSpec == Init /\ [][HNext]_<<l, m>>
=============================================================================
