----------------------------- MODULE Views_trace -----------------------------
EXTENDS Views, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
TInit == Init /\ l = 1 /\ TLCSet(42, 1)
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
              /\ IF e.a.op = "reset" THEN Reset(e.a) ELSE Do(e.a, e.r) /\ Refusable(e.a, e.r)
              /\ \E o \in {e.o} : Sees(o)'
TSpec == TInit /\ [][TNext]_<<vvars, l>>
Progress == TLCSet(42, IF l > TLCGet(42) THEN l ELSE TLCGet(42))
Finished == PrintT(<<"MAXL", TLCGet(42), Len(Trace)>>)
=============================================================================
