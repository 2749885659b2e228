----------------------------- MODULE Restore_trace -----------------------------
(* Does the specification allow the recorded trace? *)
EXTENDS Restore, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
TInit == Fresh /\ l = 1 /\ TLCSet(42, 1)
TNext == /\ l <= Len(Trace)
         /\ \E e \in {Trace[l]} : Do(e.a, e.r, OutcomeOf(e.o)) /\ Sees(e.o)'
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<rvars, l>>
Progress == TLCSet(42, IF l > TLCGet(42) THEN l ELSE TLCGet(42))
Finish == PrintT(<<"MAXL", TLCGet(42), Len(Trace)>>)
===============================================================================
