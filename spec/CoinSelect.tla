----------------------------- MODULE CoinSelect -----------------------------
(* Paying from a pool of coins: a selection covers the target with distinct   *)
(* offered coins of the asset, the excess comes back as change. Selections    *)
(* that run at the same time ("many") are each judged on their own.           *)
EXTENDS BigNat, FiniteSets
VARIABLES pool,      \* id -> [v: BigNat, as, hidden]
          offered,   \* asset -> total ever offered (BigNat)
          paid       \* asset -> total paid out (BigNat)
cvars == <<pool, offered, paid>>
Assets == {"L", "U"}
Init == pool = << >> /\ offered = [x \in Assets |-> << >>] /\ paid = [x \in Assets |-> << >>]
Reset == pool' = << >> /\ offered' = [x \in Assets |-> << >>] /\ paid' = [x \in Assets |-> << >>]

RECURSIVE SumOf(_)
SumOf(S) == IF S = {} THEN << >> ELSE LET k == CHOOSE k \in S : TRUE IN Add(pool[k].v, SumOf(S \ {k}))
OfAsset(x) == {k \in DOMAIN pool : pool[k].as = x}
Hidden == \E k \in DOMAIN pool : pool[k].hidden
Range(s) == {s[i] : i \in 1..Len(s)}

Offer(a) == /\ pool' = [k \in DOMAIN pool \cup {a.id} |-> IF k = a.id THEN [v |-> a.v, as |-> a.as, hidden |-> a.hidden] ELSE pool[k]]
            /\ offered' = [offered EXCEPT ![a.as] = Add(@, a.v)]
            /\ UNCHANGED paid
\* coins whose amounts are not known make the whole list unusable until they are revealed
Reveal == /\ pool' = [k \in DOMAIN pool |-> [pool[k] EXCEPT !.hidden = FALSE]] /\ UNCHANGED <<offered, paid>>

Possible(as, t) == ~Hidden /\ Leq(t, SumOf(OfAsset(as)))
Covers(S, as, t) == S \subseteq OfAsset(as) /\ Leq(t, SumOf(S))
\* n coins are as few as a total within ten times the target allows (judged on pools small enough to enumerate)
Fewest(n, as, t) ==
  (n > 1 /\ Cardinality(OfAsset(as)) <= 8) =>
    \A S \in SUBSET OfAsset(as) :
      (Cardinality(S) < n /\ Leq(t, SumOf(S))) => ~Leq(SumOf(S), Mul(t, Nat2Big(10)))
\* r.coins chosen for target t of asset as, with change r.change
Good(as, t, r) ==
  IF IsZero(t) THEN TRUE
  ELSE IF Possible(as, t)
  THEN /\ r.err = "ok" /\ Cardinality(Range(r.coins)) = Len(r.coins)
       /\ Covers(Range(r.coins), as, t) /\ Eq(Add(t, r.change), SumOf(Range(r.coins)))
       /\ Fewest(Len(r.coins), as, t)
  ELSE r.err = "err" /\ r.coins = << >>
Pay(a, S, chg) == \* the selected coins leave, the change comes back under the name a.chid
  /\ pool' = [k \in (DOMAIN pool \ S) \cup (IF IsZero(chg) THEN {} ELSE {a.chid}) |->
                IF k = a.chid THEN [v |-> chg, as |-> a.as, hidden |-> FALSE] ELSE pool[k]]
  /\ paid' = [paid EXCEPT ![a.as] = Add(@, a.t)]
  /\ UNCHANGED offered
-----------------------------------------------------------------------------
Conserved == \A x \in Assets : Eq(offered[x], Add(paid[x], SumOf(OfAsset(x))))
=============================================================================
