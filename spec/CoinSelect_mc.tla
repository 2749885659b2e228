--------------------------- MODULE CoinSelect_mc ---------------------------
EXTENDS CoinSelect, Json
VARIABLE hist
CONSTANTS SimDepth, MaxCoins, MaxSteps, Vals, Targets
N == Len(hist) + 1
Id(n) == "c" \o ToString(n)
B(n) == Nat2Big(n)
Offers == /\ Cardinality(DOMAIN pool) < MaxCoins
          /\ \E v \in Vals, as \in Assets, h \in {FALSE, TRUE} :
               /\ (h => v = 5)
               /\ LET a == [op |-> "offer", id |-> Id(N), v |-> B(v), as |-> as, hidden |-> h] IN
                  Offer(a) /\ hist' = Append(hist, a)
Reveals == Hidden /\ Reveal /\ hist' = Append(hist, [op |-> "reveal"])
Selects == \E t \in Targets, as \in Assets :
             LET a == [op |-> "select", as |-> as, t |-> B(t), chid |-> Id(N)] IN
             /\ hist' = Append(hist, a)
             /\ IF Possible(as, B(t))
                THEN \E S \in SUBSET OfAsset(as) : Covers(S, as, B(t)) /\ Pay(a, S, Sub(SumOf(S), B(t)))
                ELSE UNCHANGED cvars
Ready == (SimDepth = 0 => Len(hist) < MaxSteps)
MCInit == Init /\ hist = << >>
MCNext == Ready /\ (Offers \/ Reveals \/ Selects)
Spec == MCInit /\ [][MCNext]_<<cvars, hist>>
RECURSIVE BigInt(_)
BigInt(a) == IF a = << >> THEN 0 ELSE a[1] + 10000 * BigInt(Tail(a))
\* two pools with the same coins are the same, whatever the coins' names
Count(v, as, h) == Cardinality({k \in DOMAIN pool : pool[k].hidden = h /\ pool[k].as = as /\ BigInt(pool[k].v) = v})
View == <<[v \in 1..60, as \in Assets, h \in BOOLEAN |-> Count(v, as, h)], IF SimDepth = 0 THEN Len(hist) ELSE 0>>
Emit == PrintT("SCRIPT " \o ToJson(hist'))
EmitSim == Len(hist) = SimDepth => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
