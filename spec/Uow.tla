-------------------------------- MODULE Uow ---------------------------------
(* A unit of work over several stores. One run begins a transaction for every *)
(* store (stores with the same key share one), calls the function, and then   *)
(* commits all transactions, or rolls back all of them when anything before   *)
(* failed. The same unit may run again and again.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES cfg,    \* the stores of the unit: [key, begin, commit, rollback], the last three: does the call succeed?
          ph,     \* "idle" | "begin" | "fn"
          begun, comm, tried, roll,   \* stores whose transaction was begun, committed, tried to commit, rolled back
          bad, last
uowvars == <<cfg, ph, begun, comm, tried, roll, bad, last>>
St == 1..Len(cfg)
Holder(s) == CHOOSE h \in begun : cfg[h].key = cfg[s].key
Init == cfg = << >> /\ ph = "idle" /\ begun = {} /\ comm = {} /\ tried = {} /\ roll = {} /\ bad = FALSE /\ last = "none"
Reset(c) == cfg' = c /\ ph' = "idle" /\ begun' = {} /\ comm' = {} /\ tried' = {} /\ roll' = {} /\ bad' = FALSE /\ last' = "none"

Start(c) == ph = "idle" /\ cfg' = c /\ ph' = "begin" /\ begun' = {} /\ comm' = {} /\ tried' = {} /\ roll' = {} /\ bad' = FALSE /\ UNCHANGED last
Begin(s) ==
  /\ ph = "begin" /\ ~bad /\ s \in St /\ \A h \in begun : cfg[h].key # cfg[s].key
  /\ IF cfg[s].begin THEN begun' = begun \cup {s} /\ UNCHANGED bad ELSE bad' = TRUE /\ UNCHANGED begun
  /\ UNCHANGED <<cfg, ph, comm, tried, roll, last>>
Fn(out) ==
  /\ ph = "begin" /\ ~bad /\ \A s \in St : \E h \in begun : cfg[h].key = cfg[s].key
  /\ ph' = "fn" /\ bad' = (out # "ok")
  /\ UNCHANGED <<cfg, begun, comm, tried, roll, last>>
Commit(s) ==
  /\ ph = "fn" /\ ~bad /\ s \in begun \ comm
  /\ tried' = tried \cup {s}
  /\ IF cfg[s].commit THEN comm' = comm \cup {s} /\ UNCHANGED bad ELSE bad' = TRUE /\ UNCHANGED comm
  /\ UNCHANGED <<cfg, ph, begun, roll, last>>
Rollback(s) ==
  /\ bad /\ s \in begun \ roll /\ roll' = roll \cup {s}
  /\ UNCHANGED <<cfg, ph, begun, comm, tried, bad, last>>
End ==
  /\ ph # "idle" /\ IF bad THEN roll = begun ELSE ph = "fn" /\ comm = begun
  /\ ph' = "idle" /\ last' = (IF bad THEN "failed" ELSE "ok")
  /\ UNCHANGED <<cfg, begun, comm, tried, roll, bad>>

(* what the function finds in the context of every store: the transaction of the store that holds its key *)
Sees(q) == \A s \in St : q[s] = Holder(s)
-----------------------------------------------------------------------------
AllOrNone == ph = "idle" => comm \in {{}, begun} \/ \E s \in begun : ~cfg[s].commit
NeverBoth == (\A s \in begun : cfg[s].commit) => comm \cap roll = {}
EndedOnce == (ph = "idle" /\ last = "ok") => comm = begun /\ roll = {}
Undone    == (ph = "idle" /\ last = "failed") => roll = begun
NoneIfFnFails == (bad /\ tried = {}) => comm = {}
=============================================================================
