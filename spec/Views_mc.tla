------------------------------ MODULE Views_mc ------------------------------
EXTENDS Views, Json
VARIABLE hist
CONSTANTS Depth, SimDepth
M(acc, q) == [acc |-> acc, q |-> q]
Worlds == {[op |-> "reset", big |-> b, mks |-> ms] : b \in BOOLEAN, ms \in {<<M(5, "Q1"), M(6, "Q2")>>, <<M(5, "Q1"), M(6, "-"), M(7, "Q2")>>}}
C == Cardinality(DOMAIN coins) + 1
T == Cardinality(DOMAIN trades) + 1
W == Cardinality(DOMAIN wallet) + 1
Ids == DOMAIN coins
Live(n, code) == n \in DOMAIN trades /\ trades[n].code = code /\ ~trades[n].failed
Market ==
  {[op |-> "dep", q |-> q, n |-> n] : q \in Quotes \cup {"X"}, n \in {0, 2}} \cup {[op |-> "depfee", n |-> n] : n \in {0, 1, 3}} \cup
  {[op |-> "pct", q |-> q, bps |-> x] : q \in Quotes, x \in {0, 100, 9999}} \cup
  {[op |-> "fixed", q |-> q, fb |-> 7, fq |-> 11] : q \in Quotes} \cup
  {[op |-> "price", q |-> q, bp |-> x[1], qp |-> x[2]] : q \in Quotes, x \in {<<"0.1", "10">>, <<"0.0000187", "53475.94">>}} \cup
  {[op |-> "strat", q |-> q, strat |-> s] : q \in Quotes, s \in {"bal", "plug"}} \cup
  {[op |-> o, q |-> q] : o \in {"open", "close"}, q \in Quotes} \cup {[op |-> "drop", acc |-> x] : x \in {6, 7}}
Coin == IF C > 6 THEN {} ELSE
  {[op |-> "coin", id |-> C, acc |-> acc, asset |-> as, amt |-> 1000 * C + C, conf |-> cf, chg |-> ch] :
     acc \in {0, 5, 6} \cap DOMAIN ext, as \in {"B", "Q1", "Q2"}, cf \in BOOLEAN, ch \in BOOLEAN}
CoinStep ==
  {[op |-> "lock", ids |-> <<i>>, by |-> 1] : i \in {i \in Ids : Kind(coins[i]) = "free"}} \cup
  {[op |-> "unlock", ids |-> <<i>>] : i \in {i \in Ids : Kind(coins[i]) = "lock"}} \cup
  {[op |-> "spend", ids |-> <<i>>] : i \in {i \in Ids : ~coins[i].spent}} \cup
  {[op |-> "spend", ids |-> <<i, i + 1>>] : i \in {i \in Ids : ~coins[i].spent /\ i + 1 \in Ids /\ ~coins[i + 1].spent}} \cup
  {[op |-> "confirm", ids |-> <<i>>] : i \in {i \in Ids : ~coins[i].conf}}
Other(q, p) == IF p = "B" THEN q ELSE "B"
Trading == (IF T > 4 THEN {} ELSE
  {[op |-> "trade", n |-> T, q |-> q, p |-> p, ap |-> 5000 * T + 19, r |-> Other(q, p), ar |-> 300 * T + 7, bps |-> b, fb |-> x, fq |-> 2 * x,
    bp |-> IF b = 0 THEN "0.0000187" ELSE "0.25", qp |-> IF b = 0 THEN "53475.94" ELSE "4", t |-> t] : q \in Quotes, p \in {"B", "Q1", "Q2"}, b \in {25, 0, 9999}, x \in {0, 13}, t \in {100, 200, 1700000000}})
TradeStep ==
  {[op |-> "accept", n |-> n, t |-> 1000 + n, exp |-> 2000 + n] : n \in {n \in DOMAIN trades : Live(n, 1)}} \cup
  {[op |-> "complete", n |-> n, t |-> 3000 + n] : n \in {n \in DOMAIN trades : Live(n, 2)}} \cup
  {[op |-> "settle", n |-> n, t |-> 4000 + n] : n \in {n \in DOMAIN trades : Live(n, 3)}} \cup
  {[op |-> "fail", n |-> n, code |-> 3, msg |-> "too bad"] : n \in {n \in DOMAIN trades : trades[n].code \in 1..3 /\ ~trades[n].failed}} \cup
  {[op |-> "expire", n |-> n] : n \in {n \in DOMAIN trades : Live(n, 2)}}
Hook == {[op |-> "hook", act |-> x, at |-> e, sec |-> s] : x \in 0..2, e \in {"http://a", "http://b"}, s \in BOOLEAN} \cup
        {[op |-> "unhook", id |-> i] : i \in {"h1", "h2", "h3"}}
Own == (IF W > 3 THEN {} ELSE {[op |-> "wcoin", id |-> W, asset |-> as, amt |-> 2000 * W + W, conf |-> cf] : as \in {"B", "Q1"}, cf \in BOOLEAN}) \cup
       {[op |-> "wconfirm", id |-> i] : i \in {i \in DOMAIN wallet : ~wallet[i].conf}}
\* which kind of step comes next is drawn first, so that the many variants of one kind do not crowd out the others
Next1 == (IF locked THEN {"market", "trade", "tradestep", "hook", "unlock"}
          ELSE {"market", "coin", "coinstep", "trade", "tradestep", "hook", "own", "lock"})
Choices(k) == CASE k = "market" -> Market [] k = "coin" -> Coin [] k = "coinstep" -> CoinStep [] k = "trade" -> {a \in Trading : a.p \in {"B", a.q}}
                [] k = "tradestep" -> TradeStep [] k = "hook" -> Hook [] k = "own" -> Own [] k = "lock" -> {[op |-> "vlock"]} [] k = "unlock" -> {[op |-> "vunlock"]}
Guess(a) == \* the answer expected
  CASE a.op \in {"dep", "depfee"} -> [ok |-> Due(a), n |-> IF a.n = 0 THEN 1 ELSE a.n, dup |-> FALSE]
    [] a.op = "pct" -> [ok |-> Due(a), shown |-> IF Known(a.q) THEN [Fees(Of(a.q)) EXCEPT !.bps = a.bps] ELSE << >>]
    [] a.op = "fixed" -> [ok |-> Due(a), shown |-> IF Known(a.q) THEN [Fees(Of(a.q)) EXCEPT !.fb = a.fb, !.fq = a.fq] ELSE << >>]
    [] a.op \in {"price", "strat", "close", "unhook"} -> [ok |-> Due(a)]
    [] a.op = "open" -> [ok |-> Known(a.q) /\ ~locked]
    [] a.op = "drop" -> [ok |-> a.acc \in DOMAIN mk]
    [] a.op = "hook" -> [ok |-> Cardinality(hooks) < 3, id |-> CHOOSE i \in {"h1", "h2", "h3", "h4"} : ~\E h \in hooks : h.id = i]
    [] OTHER -> [ok |-> TRUE]
MCInit == /\ Init /\ hist = << >>
Start == hist = << >> /\ \E w \in Worlds : Reset(w) /\ hist' = <<w>>
MCNext == \/ Start
          \/ \E k \in {"market", "coin", "coinstep", "trade", "tradestep", "hook", "own", "lock", "unlock"} :
               /\ hist # << >> /\ Len(hist) <= Depth /\ k \in Next1
               /\ \E a \in Choices(k) : Do(a, Guess(a)) /\ hist' = Append(hist, a)
Spec == MCInit /\ [][MCNext]_<<vvars, hist>>
View == <<vvars, IF SimDepth = 0 THEN Len(hist) ELSE 0>>
Emit == Len(hist') > Depth => PrintT("SCRIPT " \o ToJson(hist'))
\* in simulation one successor is drawn per kind of step
SimNext == \/ Start
           \/ /\ hist # << >>
              /\ \E k \in {x \in Next1 : Choices(x) # {}} : \E a \in {RandomElement(Choices(k))} :
                   Do(a, Guess(a)) /\ hist' = Append(hist, a)
SimSpec == MCInit /\ [][SimNext]_<<vvars, hist>>
EmitSim == Len(hist) = SimDepth => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
