--------------------------- MODULE SecureStore_mc ---------------------------
EXTENDS SecureStore, Json
VARIABLE hist
CONSTANTS SimDepth, Max
Ps == {"p1", "p2"}
Bs == {"", "b1", "b_2"}
Ks == {"k1", "k_2"}
Small == SimDepth = 0
Vs == IF Small THEN {"v1"} ELSE {"v1", "v2", "v3"}
Put(b, k, v) == [op |-> "put", b |-> b, k |-> k, v |-> v]
Actions ==
  {[op |-> "unlock", p |-> p] : p \in Ps \cup {"nil"}} \cup {[op |-> "lock"], [op |-> "reopen"], [op |-> "list"]} \cup
  {[op |-> "change", p |-> p, np |-> q] : p \in Ps, q \in {"p2", "p3"}} \cup
  {[op |-> "change", p |-> "p1", np |-> "nil"], [op |-> "change", p |-> "nil", np |-> "p1"]} \cup
  {[op |-> o, b |-> b] : o \in {"mkb", "rmb"}, b \in (Bs \cup {"enckey", "k1"})} \cup
  {Put(b, k, v) : b \in Bs, k \in Ks, v \in Vs} \cup
  {Put("", "b1", "v2"), Put("b1", "enckey", "v1"), Put("b1", "", "v1"), Put("b1", "k1", ""), Put("b9", "k1", "v1")} \cup
  {[op |-> "del", b |-> b, k |-> k] : b \in Bs, k \in Ks \cup {"b1"}} \cup {[op |-> "del", b |-> "", k |-> "enckey"]} \cup
  {[op |-> "get", b |-> b, k |-> k] : b \in Bs \cup {"b9"}, k \in {"k1", "k_2"}} \cup {[op |-> "get", b |-> "", k |-> "enckey"]} \cup
  {[op |-> "all", b |-> b] : b \in Bs \cup {"k1"}} \cup
  {[op |-> "par", q |-> <<[op |-> "change", p |-> "p1", np |-> "p2"], Put("", "k1", "v2"), Put("b1", "k_2", "v3"), Put("b_2", "k1", "v1")>>],
   [op |-> "par", q |-> <<[op |-> "change", p |-> "p2", np |-> "p1"], Put("", "k_2", "v2"), [op |-> "del", b |-> "b1", k |-> "k1"]>>]}
MCInit == Init /\ hist = << >>
MCNext == \E a \in Actions : Do(a) /\ Cardinality(st'.kv) <= Max /\ hist' = Append(hist, a)
Spec == MCInit /\ [][MCNext]_<<svars, hist>>
View == svars
Emit == PrintT("SCRIPT " \o ToJson(hist'))
EmitSim == Len(hist) = SimDepth => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
