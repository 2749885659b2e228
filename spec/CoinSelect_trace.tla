-------------------------- MODULE CoinSelect_trace --------------------------
EXTENDS CoinSelect, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
TInit == Init /\ l = 1 /\ TLCSet(42, 1)
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
              \/ e.a.op = "reset" /\ Reset
              \/ e.a.op = "offer" /\ Offer(e.a)
              \/ e.a.op = "reveal" /\ Reveal
              \/ /\ e.a.op = "select" /\ Good(e.a.as, e.a.t, e.r)
                 /\ IF e.r.err = "ok" THEN Pay(e.a, Range(e.r.coins), e.r.change) ELSE UNCHANGED cvars
              \/ /\ e.a.op = "many" /\ UNCHANGED cvars
                 /\ \A i \in 1..Len(e.r.all) : LET x == e.r.all[i] IN Good(x.as, x.t, x)
TSpec == TInit /\ [][TNext]_<<cvars, l>>
Progress == TLCSet(42, IF l > TLCGet(42) THEN l ELSE TLCGet(42))
Done == PrintT(<<"MAXL", TLCGet(42), Len(Trace)>>)
=============================================================================
