------------------------------ MODULE Market_mc ------------------------------
EXTENDS Market, Json
VARIABLE hist
CONSTANT SimDepth
Q(amt, isBase, isBuy) == [op |-> "quote", bb |-> <<5000>>, qb |-> <<0, 2>>, amt |-> amt, isBase |-> isBase, isBuy |-> isBuy]
Actions ==
  {[op |-> "fund", assets |-> s, baseAsset |-> "L"] : s \in {<<"L", "U">>, <<"U", "L">>, <<"L", "L">>, <<"U", "X">>, <<"L", "U", "X">>, << >>, <<"L", "U", "U">>}} \cup
  {[op |-> "open"], [op |-> "close"]} \cup
  {[op |-> "strategy", s |-> s] : s \in {"balanced", "pluggable"}} \cup
  {[op |-> "fee", f |-> f] : f \in {-1, 0, 25, 9999, 10000}} \cup
  {[op |-> "fixed", b |-> b, q |-> q, negb |-> FALSE, negq |-> FALSE] : b \in {<< >>, <<5>>}, q \in {<< >>, <<7>>}} \cup
  {[op |-> "fixed", b |-> << >>, q |-> <<7>>, negb |-> TRUE, negq |-> FALSE], [op |-> "fixed", b |-> <<5>>, q |-> << >>, negb |-> FALSE, negq |-> TRUE],
   [op |-> "fixed", b |-> << >>, q |-> << >>, negb |-> TRUE, negq |-> TRUE]} \cup
  {[op |-> "bprice", p |-> p] : p \in {<< >>, <<0, 2500>>}} \cup
  {[op |-> "qprice", p |-> p] : p \in {<< >>, <<0, 0, 4>>}} \cup
  {Q(amt, b, y) : amt \in {<<40>>}, b \in BOOLEAN, y \in BOOLEAN}
\* in the design model a quote is any reply the rules allow; only its refusal matters to the state
MCInit == Init /\ hist = << >>
MCNext == \E a \in Actions : DoR(a, [err |-> "err"]) /\ hist' = Append(hist, a)
Spec == MCInit /\ [][MCNext]_<<mvars, hist>>
View == mvars
Emit == PrintT("SCRIPT " \o ToJson(hist'))
EmitSim == Len(hist) = SimDepth => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
