--------------------------- MODULE Unspents_trace ---------------------------
EXTENDS Unspents, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
TInit == Init /\ l = 1 /\ TLCSet(42, 1)
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
              IF e.a.op = "reset" THEN Reset(e.a.backend)
              ELSE Ok(e.a, e.r) /\ Do(e.a) /\ (e.a.op # "query" => Obs' = e.o)
TSpec == TInit /\ [][TNext]_<<uvars, l>>
Progress == TLCSet(42, IF l > TLCGet(42) THEN l ELSE TLCGet(42))
Done == PrintT(<<"MAXL", TLCGet(42), Len(Trace)>>)
=============================================================================
