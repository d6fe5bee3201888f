------------------------------- MODULE TraceLib ------------------------------
(* Shared by all trace specifications: the recorded trace, rejection reports
   and the acceptance postcondition (every line was consumed, in order). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Reject(n, what) == PrintT("REJECT event " \o ToString(n) \o " (" \o Trace[n].ev \o "): " \o ToString(what)) /\ FALSE
(* all clauses of the record hold *)
Holds(n, clauses) == LET bad == {k \in DOMAIN clauses : ~clauses[k]}
                     IN IF bad = {} THEN TRUE ELSE Reject(n, bad)
Accepted == LET d == TLCGet("stats").diameter IN
            IF d - 1 = Len(Trace) THEN TRUE
            ELSE PrintT("REJECTED: accepted " \o ToString(d - 1) \o " of " \o ToString(Len(Trace)) \o
                        " events; first not explained: " \o ToString(d) \o " " \o Trace[d].ev \o
                        (IF "msg" \in DOMAIN Trace[d] THEN " " \o Trace[d].msg ELSE "") \o
                        (IF "err" \in DOMAIN Trace[d] THEN " " \o Trace[d].err ELSE "")) /\ FALSE
=============================================================================
