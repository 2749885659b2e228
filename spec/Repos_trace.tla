----------------------------- MODULE Repos_trace -----------------------------
EXTENDS Repos, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
TInit == Init /\ l = 1 /\ TLCSet(42, 1)
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
              IF e.a.op = "reset" THEN Reset(e.a.be)
              ELSE IF e.a.op = "crash" THEN CrashOk(e.a.of, e.o) /\ UNCHANGED rvars
              ELSE /\ Do(e.a, "err" \notin DOMAIN e.r \/ e.r.err = "ok") /\ OkDo(e.a, e.r) /\ Inside(e.a, e.r)
                   /\ \E o \in {e.o} : Sees(o, db')
TSpec == TInit /\ [][TNext]_<<rvars, l>>
Progress == TLCSet(42, IF l > TLCGet(42) THEN l ELSE TLCGet(42))
Done == PrintT(<<"MAXL", TLCGet(42), Len(Trace)>>)
=============================================================================
