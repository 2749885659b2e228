---------------------------- MODULE Unspents_mc ----------------------------
EXTENDS Unspents, Json
VARIABLE hist
CONSTANTS Keys, Trades, MaxRestarts
C(k, cf) == [k |-> k, v |-> IF k = "k1" THEN 5 ELSE IF k = "k2" THEN 7 ELSE 11, as |-> IF k = "k2" THEN "U" ELSE "L",
         ad |-> IF k = "k3" THEN "a2" ELSE "a1", cf |-> cf, fp |-> "f"]
KeyLists == {<<k>> : k \in Keys} \cup {<<"k1", "k2">>}
Actions ==
  {[op |-> "add", cs |-> <<C(k, cf)>>] : k \in Keys, cf \in BOOLEAN} \cup
  {[op |-> "spend", ks |-> ks] : ks \in KeyLists} \cup
  {[op |-> "confirm", ks |-> ks] : ks \in KeyLists} \cup
  {[op |-> "lock", ks |-> ks, t |-> t] : ks \in KeyLists, t \in Trades} \cup
  {[op |-> "unlock", ks |-> ks] : ks \in KeyLists} \cup
  {[op |-> "restart"]}
Readd(a) == a.op = "add" => \A i \in 1..Len(a.cs) : a.cs[i].k \notin gone
MCInit == Init /\ hist = << >>
MCNext == \E a \in Actions : Readd(a) /\ Do(a) /\ hist' = Append(hist, a)
Spec == MCInit /\ [][MCNext]_<<uvars, hist>>
View == uvars
Emit == PrintT("SCRIPT " \o ToJson(hist'))
\* simulation: print the behaviour when it reaches the chosen depth
CONSTANT SimDepth
EmitSim == Len(hist) = SimDepth => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
