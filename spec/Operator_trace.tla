---------------------------- MODULE Operator_trace ----------------------------
(* Does the specification allow the recorded trace? The events of a group (a.gn *)
(* of them) happened at the same time: they are taken in any order, and what is *)
(* seen is judged after the last of them.                                       *)
EXTENDS Operator, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, did
TInit == Init0([coins |-> << >>, mks |-> << >>]) /\ l = 1 /\ did = {} /\ TLCSet(42, 1)
Group(e) == IF "gn" \in DOMAIN e.a THEN e.a.gn ELSE 1
TNext == /\ l <= Len(Trace)
         /\ LET n == Group(Trace[l]) IN
            \E i \in (l..(l + n - 1)) \ did :
              LET e == Trace[i]  all == did \cup {i} = l..(l + n - 1) IN
              /\ IF e.a.op = "reset" THEN Reset(e.a) ELSE Do(e.a, e.r)
              /\ IF all THEN l' = l + n /\ did' = {} ELSE l' = l /\ did' = did \cup {i}
              /\ IF all THEN \E o \in {Trace[l + n - 1].o} : Sees(o)' ELSE TRUE
TSpec == TInit /\ [][TNext]_<<ovars, l, did>>
Progress == TLCSet(42, IF l > TLCGet(42) THEN l ELSE TLCGet(42))
Done == PrintT(<<"MAXL", TLCGet(42), Len(Trace)>>)
===============================================================================
