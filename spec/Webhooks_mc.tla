---------------------------- MODULE Webhooks_mc ----------------------------
EXTENDS Webhooks, Json
VARIABLE hist
CONSTANTS SimDepth, MaxHooks, MaxIds
Small == SimDepth = 0
Ts == IF Small THEN {"TRADE_SETTLED", "*"} ELSE Topics
Es == IF Small THEN {"e1", "e2"} ELSE Ends
Ps == {"p1", "p2"}
Sub(t, e, s) == [op |-> "sub", t |-> t, e |-> e, s |-> s, k |-> 0]
Uns(i) == [op |-> "unsub", id |-> i]
Pb(t, k) == [op |-> "pub", t |-> t, n |-> k]
RECURSIVE Num(_, _)
Num(q, k) == IF q = << >> THEN << >>
             ELSE IF Head(q).op = "sub" /\ CanSub(Head(q)) THEN <<[Head(q) EXCEPT !.k = k + 1]>> \o Num(Tail(q), k + 1)
             ELSE <<Head(q)>> \o Num(Tail(q), k)
Par(q) == [op |-> "par", q |-> Num(q, n)]
Actions ==
  {Sub(t, e, IF e = "e1" THEN "s1" ELSE "") : t \in Ts, e \in Es} \cup
  {Sub("TRADE_SETTLED", "e1", "s2"), Sub("NOPE", "e1", ""), Sub("*", "badurl", "s1")} \cup
  {Uns(i) : i \in 1..MaxIds} \cup {Uns(99)} \cup
  {Pb(t, 1) : t \in {"TRADE_SETTLED", "ACCOUNT_LOW_BALANCE", "*", "NOPE"}} \cup {Pb("TRADE_SETTLED", 12)} \cup
  {[op |-> "behave", e |-> "e1", b |-> b] : b \in {"ok", "bad", "cut"}} \cup (IF Small THEN {} ELSE {[op |-> "behave", e |-> "e2", b |-> b] : b \in {"ok", "created"}}) \cup
  {[op |-> o, p |-> p] : o \in {"init", "unlock"}, p \in Ps} \cup {[op |-> "lock"], [op |-> "reopen"]} \cup
  (IF Small THEN {} ELSE {[op |-> "change", p |-> p, np |-> q] : p \in Ps, q \in Ps}) \cup
  {Par(<<Sub("TRADE_SETTLED", "e1", "s1"), Sub("TRADE_SETTLED", "e2", ""), Pb("TRADE_SETTLED", 1)>>),
   Par(<<Uns(1), Uns(2), Sub("TRADE_SETTLED", "e2", ""), Pb("TRADE_SETTLED", 1)>>),
   Par(<<Sub("*", "e2", ""), Sub("*", "e1", "s1"), Uns(1)>>)}
MCInit == Init /\ hist = << >>
MCNext == \E a \in Actions : Do(a) /\ Cardinality(hooks') <= MaxHooks /\ n' <= MaxIds /\ hist' = Append(hist, a)
Spec == MCInit /\ [][MCNext]_<<wvars, hist>>
View == wvars
Emit == PrintT("SCRIPT " \o ToJson(hist'))
EmitSim == Len(hist) = SimDepth => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
