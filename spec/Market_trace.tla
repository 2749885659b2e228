---------------------------- MODULE Market_trace ----------------------------
EXTENDS Market, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
TInit == Init /\ l = 1 /\ TLCSet(42, 1)
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
              IF e.a.op = "reset" THEN Reset(IF FeeOK(e.a.fee) THEN e.a.fee ELSE 25) /\ e.r.err = (IF FeeOK(e.a.fee) THEN "ok" ELSE "err")
              ELSE Ok(e.a, e.r) /\ DoR(e.a, e.r) /\ Obs' = e.o
TSpec == TInit /\ [][TNext]_<<mvars, l>>
Progress == TLCSet(42, IF l > TLCGet(42) THEN l ELSE TLCGet(42))
Done == PrintT(<<"MAXL", TLCGet(42), Len(Trace)>>)
=============================================================================
