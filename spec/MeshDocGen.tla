------------------------------ MODULE MeshDocGen ------------------------------
(* Enumerates mesh documents, checks that each is a valid conforming mesh and
   prints it. *)
EXTENDS MeshDoc, Json, IOUtils
(* what to enumerate: ndjson file of parameter records *)
Params == ndJsonDeserialize(IOEnv.PARAMS)
VARIABLES i, doc
Init == i \in DOMAIN Params /\ doc = Doc(Params[i])
Next == FALSE /\ UNCHANGED <<i, doc>>
Spec == Init /\ [][Next]_<<i, doc>>
Valid == LET cl == DocClauses(doc) bad == {k \in DOMAIN cl : ~cl[k]}
         IN IF bad = {} THEN TRUE ELSE PrintT(<<"INVALID", Params[i], bad>>) /\ FALSE
Emit == PrintT("@@ " \o ToJson([n |-> i] @@ doc))
=============================================================================
