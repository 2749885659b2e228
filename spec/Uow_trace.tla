----------------------------- MODULE Uow_trace -----------------------------
EXTENDS Uow, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
TInit == Init /\ l = 1 /\ TLCSet(42, 1)
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET a == Trace[l].a  r == Trace[l].r IN
              CASE a.op = "reset" -> Reset(<< >>)
                [] a.op = "run" -> Start(a.cfg)
                [] a.op = "begin" -> Begin(a.s)
                [] a.op = "fn" -> Fn(a.out) /\ Sees(a.sees)
                [] a.op = "commit" -> Commit(a.s)
                [] a.op = "rollback" -> Rollback(a.s)
                [] a.op = "end" -> End /\ (r.err = "err") = bad
TSpec == TInit /\ [][TNext]_<<uowvars, l>>
Progress == TLCSet(42, IF l > TLCGet(42) THEN l ELSE TLCGet(42))
Done == PrintT(<<"MAXL", TLCGet(42), Len(Trace)>>)
=============================================================================
