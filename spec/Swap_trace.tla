------------------------------ MODULE Swap_trace ------------------------------
EXTENDS Swap, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
TInit == Init0(<< >>) /\ l = 1 /\ TLCSet(42, 1)
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
              /\ IF e.a.op = "reset" THEN Reset(e.a.coins)
                 ELSE Do(e.a, e.r) /\ Ok(e.a)
              /\ ("skip" \in DOMAIN e.o \/ \E o \in {e.o} : Sees(o)')
              /\ now' \in (e.o.now - 1)..(e.o.now + 1)
TSpec == TInit /\ [][TNext]_<<svars, l>>
Progress == TLCSet(42, IF l > TLCGet(42) THEN l ELSE TLCGet(42))
Done == PrintT(<<"MAXL", TLCGet(42), Len(Trace)>>)
===============================================================================
