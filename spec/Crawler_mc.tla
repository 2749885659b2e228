----------------------------- MODULE Crawler_mc -----------------------------
EXTENDS Crawler, Json
VARIABLE hist
CONSTANTS SimDepth
Small == SimDepth = 0
Ks == IF Small THEN {"t1", "a1"} ELSE Keys
Add(k) == [op |-> "add", k |-> k]
Del(k) == [op |-> "del", k |-> k]
Actions ==
  {Add(k) : k \in Ks} \cup {Del(k) : k \in Ks} \cup {[op |-> "step", n |-> n] : n \in {2, 9, 70}} \cup {[op |-> "stop"]} \cup
  {[op |-> "answer", k |-> "t1", v |-> v] : v \in {"un", "conf", "err", "slow"}} \cup
  {[op |-> "answer", k |-> "a1", v |-> v] : v \in {"1", "0", "err"}} \cup
  (IF Small THEN {} ELSE {[op |-> "answer", k |-> "t2", v |-> v] : v \in {"un", "conf", "err", "slow"}} \cup {[op |-> "answer", k |-> "a2", v |-> v] : v \in {"2", "1", "slow", "err"}}) \cup
  {[op |-> "burst", q |-> <<Add("t1"), Del("t1")>>], [op |-> "burst", q |-> <<Add("a1"), Del("a1"), Add("a1"), Add("a1")>>],
   [op |-> "burst", q |-> <<Del("t1"), Add("t1"), Del("t1"), Del("t1")>>],
   [op |-> "par", q |-> <<Add("t1"), Add("t1"), Add("a1"), Add("t2"), Del("a2")>>, fin |-> << >>],
   [op |-> "par", q |-> <<Del("t1"), Del("t1"), Del("a1"), Add("a2")>>, fin |-> << >>]}
MCInit == Init /\ hist = << >>
MCNext == \E a \in Actions : Do(a) /\ hist' = Append(hist, a)
Spec == MCInit /\ [][MCNext]_<<cvars, hist>>
View == <<on, obs, ans, [k \in Keys |-> Min(2, fail[k]) + (IF fail[k] = Lim THEN 9 ELSE 0)], [k \in Keys |-> Min(rest[k], 1)], [k \in Keys |-> Min(tail[k], 1)], late>>
Emit == PrintT("SCRIPT " \o ToJson(hist'))
EmitSim == Len(hist) = SimDepth => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
