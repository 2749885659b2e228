------------------------------- MODULE Uow_mc -------------------------------
EXTENDS Uow, Json
VARIABLES hist, out
CONSTANTS Max
B == BOOLEAN
Store == [key : {0, 9}, begin : B, commit : B, rollback : B]
Cfgs == {<<a>> : a \in Store} \cup {<<a, b>> : a, b \in Store} \cup
        {<<a, b, c>> : a \in {x \in Store : x.begin /\ x.rollback}, b \in {x \in Store : x.rollback}, c \in {x \in Store : x.rollback}} \cup
        {<<a, b, c>> : a, b, c \in {x \in Store : x.begin /\ x.commit /\ x.key = 0}} \cup {<< >>}
(* a key of its own for every store that does not share one *)
Named(c) == [i \in 1..Len(c) |-> [c[i] EXCEPT !.key = IF @ = 0 THEN i ELSE @]]
MCInit == Init /\ hist = << >> /\ out = ""
Go == \E c \in Cfgs, o \in {"ok", "err", "panic"} :
        /\ Len(hist) < Max
        /\ IF last = "none" THEN TRUE ELSE Len(c) = Len(cfg) /\ \A i \in 1..Len(c) : Named(c)[i].key = cfg[i].key
        /\ Start(Named(c)) /\ out' = o /\ hist' = Append(hist, [op |-> "run", cfg |-> Named(c), fn |-> o])
MCNext == Go \/ ((\E s \in St : Begin(s) \/ Commit(s) \/ Rollback(s)) /\ UNCHANGED <<hist, out>>) \/ (Fn(out) /\ UNCHANGED <<hist, out>>) \/ (End /\ UNCHANGED <<hist, out>>)
Spec == MCInit /\ [][MCNext]_<<uowvars, hist, out>>
(* after a run only its outcome and the shape of the unit matter *)
View == IF ph = "idle" THEN <<last, Len(hist), [i \in 1..Len(cfg) |-> cfg[i].key], comm = begun, roll = begun>> ELSE <<cfg, ph, begun, comm, tried, roll, bad, out, Len(hist), last>>
Emit == (ph = "idle" /\ ph' = "begin") => PrintT("SCRIPT " \o ToJson(hist'))
=============================================================================
