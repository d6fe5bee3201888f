----------------------------- MODULE OutputTrace -----------------------------
EXTENDS Output, TraceLib
VARIABLES l, m, st, post
vars == <<l, m, st, post>>
Init == l = 1 /\ m = [dim |-> 0] /\ st = Fresh /\ post = <<>>
Is(ev) == l <= Len(Trace) /\ Trace[l].ev = ev /\ l' = l + 1
e == Trace[l]
Build == /\ Is("Build") /\ IF ~WellFormed(e) THEN Reject(l, "malformed") ELSE m' = e /\ st' = Fresh /\ post' = <<>>
Start == Is("Start") /\ st' = Fresh /\ UNCHANGED <<m, post>>
Do == /\ Is("Do") /\ Holds(l, [returned |-> e.ret = Ret(st, e.in)])
      /\ st' = Step(st, e.in) /\ UNCHANGED <<m, post>>
Content == Is("Content") /\ Holds(l, ContentClauses(m, st, e)) /\ UNCHANGED <<m, st, post>>
Post == Is("Post") /\ Holds(l, PostClauses(m, e)) /\ post' = e /\ UNCHANGED <<m, st>>
GmshPost == Is("GmshPost") /\ Holds(l, GmshPostClauses(m, post, e)) /\ UNCHANGED <<m, st, post>>
GmshMesh == Is("GmshMesh") /\ Holds(l, GmshMeshClauses(m, e)) /\ UNCHANGED <<m, st, post>>
Aspect == Is("Aspect") /\ Holds(l, AspectClauses(m, e)) /\ UNCHANGED <<m, st, post>>
Matlab == Is("Matlab") /\ Holds(l, MatlabClauses(m, e)) /\ UNCHANGED <<m, st, post>>
Netgen == Is("Netgen") /\ Holds(l, [loaded |-> e.ok]) /\ Holds(l, SameLoaded(m, e)) /\ UNCHANGED <<m, st, post>>
Sparse == Is("Sparse") /\ Holds(l, SparseClauses(e)) /\ UNCHANGED <<m, st, post>>
Conv == Is("Conv") /\ Holds(l, ConvClauses(e)) /\ UNCHANGED <<m, st, post>>
End == Is("End") /\ UNCHANGED <<m, st, post>>
Next == Build \/ Start \/ Do \/ Content \/ Post \/ GmshPost \/ GmshMesh \/ Aspect \/ Matlab \/ Netgen \/ Sparse \/ Conv \/ End
Spec == Init /\ [][Next]_vars
View == l
=============================================================================
