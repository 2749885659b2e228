------------------------------ MODULE Perms_mc ------------------------------
EXTENDS Perms, Json
VARIABLE hist
CONSTANTS SimDepth
Ps == {"p1", "p2"}
\* "probe" stands for one round of calls of every method with every kind of macaroon
Actions == {[op |-> "start", auth |-> x, broken |-> FALSE] : x \in BOOLEAN} \cup {[op |-> "start", auth |-> TRUE, broken |-> TRUE], [op |-> "stop"], [op |-> "probe"]} \cup
  {[op |-> o, p |-> p] : o \in {"init", "unlock"}, p \in Ps} \cup
  {[op |-> "change", p |-> p, np |-> q] : p \in Ps, q \in Ps}
MCInit == Init /\ hist = << >>
MCNext == \E a \in Actions : (IF a.op = "start" THEN ~up ELSE up) /\ Do(a) /\ hist' = Append(hist, a)
Spec == MCInit /\ [][MCNext]_<<pvars, hist>>
View == pvars
Emit == PrintT("SCRIPT " \o ToJson(hist'))
EmitSim == Len(hist) = SimDepth => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
