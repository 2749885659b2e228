---------------------------- MODULE Trade_trace ----------------------------
EXTENDS Trade, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
TInit == Init /\ l = 1 /\ TLCSet(42, 1)
ToObs(o) == [o EXCEPT !.owns = {o.owns[i] : i \in 1..Len(o.owns)}]
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
              IF e.a.op = "reset" THEN Reset
              ELSE Ok(e.a, e.r) /\ Do(e.a) /\ Obs' = ToObs(e.o)
TSpec == TInit /\ [][TNext]_<<tvars, l>>
Progress == TLCSet(42, IF l > TLCGet(42) THEN l ELSE TLCGet(42))
Done == PrintT(<<"MAXL", TLCGet(42), Len(Trace)>>)
=============================================================================
