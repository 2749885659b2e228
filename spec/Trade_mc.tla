------------------------------ MODULE Trade_mc ------------------------------
EXTENDS Trade, Json
VARIABLE hist
CONSTANTS MaxNow, SimDepth
Actions ==
  {[op |-> "propose", valid |-> v, n |-> 1] : v \in BOOLEAN} \cup
  {[op |-> "accept", valid |-> v, n |-> 2, dur |-> d] : v \in BOOLEAN, d \in {10, 5}} \cup
  {[op |-> "complete", valid |-> v, hex |-> h, n |-> 3] : v \in BOOLEAN, h \in BOOLEAN} \cup
  {[op |-> "settle", time |-> s] : s \in {100, 200}} \cup
  {[op |-> "fail", n |-> 4], [op |-> "expire"], [op |-> "tick", d |-> 5]}
MCInit == Init /\ hist = << >>
MCNext == \E a \in Actions : (a.op = "tick" => now < MaxNow) /\ (a.op = "fail" => code # Empty) /\ Do(a) /\ hist' = Append(hist, a)
Spec == MCInit /\ [][MCNext]_<<tvars, hist>>
View == tvars
Emit == PrintT("SCRIPT " \o ToJson(hist'))
EmitSim == Len(hist) = SimDepth => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
