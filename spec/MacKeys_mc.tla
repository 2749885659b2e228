----------------------------- MODULE MacKeys_mc -----------------------------
EXTENDS MacKeys, Json
VARIABLE hist
CONSTANTS SimDepth, MaxN, MaxM
Ps == {"p1", "p2"}
Bake(id) == [op |-> "bake", id |-> id]
Actions ==
  {[op |-> "unlock", p |-> p] : p \in Ps \cup {"nil"}} \cup {[op |-> o] : o \in {"close", "reopen", "renew", "list"}} \cup
  {[op |-> "change", p |-> p, np |-> q] : p \in Ps, q \in {"p1", "p2", "p3"}} \cup
  {[op |-> "change", p |-> "p1", np |-> "nil"], [op |-> "change", p |-> "nil", np |-> "p1"]} \cup
  {Bake(id) : id \in {"0", "1", "", "enckey"}} \cup
  {[op |-> "delete", id |-> id] : id \in {"0", "1", "", "enckey"}} \cup
  {[op |-> "get", id |-> id] : id \in {"0", "1", "enckey"}} \cup
  {[op |-> "par", q |-> <<Bake("0"), Bake("1"), Bake("1"), Bake("0")>>],
   [op |-> "par", q |-> <<[op |-> "change", p |-> "p1", np |-> "p2"], Bake("0"), Bake("1"), [op |-> "validate", m |-> 1]>>]}
MCInit == Init /\ hist = << >>
ParOk(a) == a.op = "par" /\ a.q[1].op = "change" => Default \in DOMAIN st.keys
MCNext == \E a \in Actions : (open = "closed" => a.op # "close") /\ ParOk(a) /\ Do(a) /\ st'.n <= MaxN /\ Len(macs') <= MaxM /\ hist' = Append(hist, a)
Spec == MCInit /\ [][MCNext]_<<mvars, hist>>
View == mvars
Emit == PrintT("SCRIPT " \o ToJson(hist'))
EmitSim == Len(hist) = SimDepth => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
