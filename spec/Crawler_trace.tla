----------------------------- MODULE Crawler_trace -----------------------------
EXTENDS Crawler, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
TInit == Init /\ l = 1 /\ TLCSet(42, 1)
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
              IF e.a.op = "reset" THEN Reset
              ELSE Ok(e.a, e.r) /\ Do(e.a) /\ \E o \in {e.o} : ObsOk(o)'
TSpec == TInit /\ [][TNext]_<<cvars, l>>
Progress == TLCSet(42, IF l > TLCGet(42) THEN l ELSE TLCGet(42))
Done == PrintT(<<"MAXL", TLCGet(42), Len(Trace)>>)
=============================================================================
