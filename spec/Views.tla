------------------------------- MODULE Views -------------------------------
(* What the operator, the wallet's owner and traders are shown, against what  *)
(* the daemon holds: markets, coins, addresses, trades, webhooks, and the     *)
(* wallet's coins on the chain. Every step is followed by a look at           *)
(* everything there is to see.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES mk,      \* account -> market
          coins,   \* id -> coin held
          ext,     \* account -> number of its addresses that were given out
          trades,  \* number -> trade
          hooks,   \* webhooks
          wallet,  \* id -> coin of the wallet on the chain
          locked,  \* the wallet is locked
          big      \* amounts are counted in units of 10^12, fees of a trade in units of 10^8
vvars == <<mk, coins, ext, trades, hooks, wallet, locked, big>>
Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x[2] + Sum(S \ {x})
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Quotes == {"Q1", "Q2"}
NewMarket(q) == [q |-> q, open |-> FALSE, bps |-> 25, fb |-> 0, fq |-> 0, strat |-> "bal", bp |-> "0", qp |-> "0"]
Init == /\ mk = << >> /\ coins = << >> /\ ext = << >> /\ trades = << >> /\ hooks = {} /\ wallet = << >> /\ locked = FALSE /\ big = FALSE
Reset(a) == /\ mk' = [m \in {x.acc : x \in Range(a.mks)} |-> NewMarket((CHOOSE x \in Range(a.mks) : x.acc = m).q)]
            /\ ext' = [m \in {0, 1} \cup {x.acc : x \in Range(a.mks)} |-> 1]
            /\ coins' = << >> /\ trades' = << >> /\ hooks' = {} /\ wallet' = << >> /\ locked' = FALSE /\ big' = a.big
Known(q) == \E m \in DOMAIN mk : mk[m].q = q
Of(q) == CHOOSE m \in DOMAIN mk : mk[m].q = q
-----------------------------------------------------------------------------
(* steps; r.ok: the request was accepted *)
Edit(q, x) == /\ mk' = [mk EXCEPT ![Of(q)] = x] /\ UNCHANGED <<coins, ext, trades, hooks, wallet, locked, big>>
Coins(c) == coins' = c /\ UNCHANGED <<mk, ext, trades, hooks, wallet, locked, big>>
Trades(t) == trades' = t /\ UNCHANGED <<mk, coins, ext, hooks, wallet, locked, big>>
Step(n, x) == Trades([trades EXCEPT ![n] = x])
Given(m, a, r) == /\ r.n = (IF a.n = 0 THEN 1 ELSE a.n) /\ ~r.dup
                  /\ ext' = [ext EXCEPT ![m] = @ + r.n] /\ UNCHANGED <<mk, coins, trades, hooks, wallet, locked, big>>
Fees(m) == [base |-> "B", q |-> mk[m].q, bps |-> mk[m].bps, fb |-> mk[m].fb, fq |-> mk[m].fq]
Do(a, r) ==
  IF ~r.ok THEN UNCHANGED vvars ELSE
  CASE a.op = "dep"    -> Known(a.q) /\ Given(Of(a.q), a, r)
    [] a.op = "depfee" -> Given(0, a, r)
    [] a.op = "pct"    -> Known(a.q) /\ Edit(a.q, [mk[Of(a.q)] EXCEPT !.bps = a.bps]) /\ r.shown = [Fees(Of(a.q)) EXCEPT !.bps = a.bps]
    [] a.op = "fixed"  -> Known(a.q) /\ Edit(a.q, [mk[Of(a.q)] EXCEPT !.fb = a.fb, !.fq = a.fq]) /\ r.shown = [Fees(Of(a.q)) EXCEPT !.fb = a.fb, !.fq = a.fq]
    [] a.op = "price"  -> Known(a.q) /\ Edit(a.q, [mk[Of(a.q)] EXCEPT !.bp = a.bp, !.qp = a.qp])
    [] a.op = "strat"  -> Known(a.q) /\ \E zero \in BOOLEAN :
                            Edit(a.q, [mk[Of(a.q)] EXCEPT !.strat = a.strat, !.bp = IF zero THEN "0" ELSE @, !.qp = IF zero THEN "0" ELSE @])
    [] a.op = "open"   -> Known(a.q) /\ Edit(a.q, [mk[Of(a.q)] EXCEPT !.open = TRUE])
    [] a.op = "close"  -> Known(a.q) /\ Edit(a.q, [mk[Of(a.q)] EXCEPT !.open = FALSE])
    [] a.op = "drop"   -> /\ a.acc \in DOMAIN mk /\ mk' = [m \in DOMAIN mk \ {a.acc} |-> mk[m]]
                          /\ UNCHANGED <<coins, ext, trades, hooks, wallet, locked, big>>
    [] a.op = "coin"   -> /\ coins' = Put(coins, a.id, [acc |-> a.acc, as |-> a.asset, amt |-> a.amt, conf |-> a.conf, spent |-> FALSE, lock |-> FALSE])
                          /\ ext' = [ext EXCEPT ![a.acc] = @ + (IF a.chg THEN 0 ELSE 1)]
                          /\ UNCHANGED <<mk, trades, hooks, wallet, locked, big>>
    [] a.op = "lock"    -> Coins([i \in DOMAIN coins |-> IF i \in Range(a.ids) THEN [coins[i] EXCEPT !.lock = TRUE] ELSE coins[i]])
    [] a.op = "unlock"  -> Coins([i \in DOMAIN coins |-> IF i \in Range(a.ids) THEN [coins[i] EXCEPT !.lock = FALSE] ELSE coins[i]])
    [] a.op = "spend"   -> Coins([i \in DOMAIN coins |-> IF i \in Range(a.ids) THEN [coins[i] EXCEPT !.spent = TRUE] ELSE coins[i]])
    [] a.op = "confirm" -> Coins([i \in DOMAIN coins |-> IF i \in Range(a.ids) THEN [coins[i] EXCEPT !.conf = TRUE] ELSE coins[i]])
    [] a.op = "trade"   -> Trades(Put(trades, a.n, [q |-> a.q, p |-> a.p, ap |-> a.ap, r |-> a.r, ar |-> a.ar, bps |-> a.bps, fb |-> a.fb, fq |-> a.fq,
                             bp |-> a.bp, qp |-> a.qp, code |-> 1, failed |-> FALSE, fcode |-> 0, fmsg |-> "", t |-> <<a.t, 0, 0, 0, 0>>]))
    [] a.op = "accept"   -> Step(a.n, [trades[a.n] EXCEPT !.code = 2, !.t[2] = a.t, !.t[5] = a.exp])
    [] a.op = "complete" -> Step(a.n, [trades[a.n] EXCEPT !.code = 3, !.t[3] = a.t])
    [] a.op = "settle"   -> Step(a.n, [trades[a.n] EXCEPT !.code = 4, !.t[4] = a.t])
    [] a.op = "fail"     -> Step(a.n, [trades[a.n] EXCEPT !.failed = TRUE, !.fcode = a.code, !.fmsg = a.msg])
    [] a.op = "expire"   -> Step(a.n, [trades[a.n] EXCEPT !.code = 5, !.failed = TRUE])
    [] a.op = "hook"     -> /\ ~\E h \in hooks : h.id = r.id
                            /\ hooks' = hooks \cup {[id |-> r.id, act |-> a.act, at |-> a.at, sec |-> a.sec]}
                            /\ UNCHANGED <<mk, coins, ext, trades, wallet, locked, big>>
    [] a.op = "unhook"   -> /\ \E h \in hooks : h.id = a.id
                            /\ hooks' = {h \in hooks : h.id # a.id} /\ UNCHANGED <<mk, coins, ext, trades, wallet, locked, big>>
    [] a.op = "wcoin"    -> /\ wallet' = Put(wallet, a.id, [as |-> a.asset, amt |-> a.amt, conf |-> a.conf])
                            /\ UNCHANGED <<mk, coins, ext, trades, hooks, locked, big>>
    [] a.op = "wconfirm" -> /\ wallet' = [wallet EXCEPT ![a.id].conf = TRUE] /\ UNCHANGED <<mk, coins, ext, trades, hooks, locked, big>>
    [] a.op = "vlock"    -> locked' = TRUE /\ UNCHANGED <<mk, coins, ext, trades, hooks, wallet, big>>
    [] a.op = "vunlock"  -> locked' = FALSE /\ UNCHANGED <<mk, coins, ext, trades, hooks, wallet, big>>
\* asking for what can be done is not refused
Due(a) ==
  CASE a.op = "dep" -> Known(a.q) /\ ~locked [] a.op = "depfee" -> ~locked
    [] a.op = "close" -> Known(a.q) /\ ~locked [] a.op = "hook" -> TRUE [] a.op = "unhook" -> \E h \in hooks : h.id = a.id
    [] a.op \in {"pct", "fixed", "strat"} -> Known(a.q) /\ ~mk[Of(a.q)].open /\ ~locked
    [] a.op = "price" -> Known(a.q) /\ ~locked
    [] OTHER -> FALSE
Refusable(a, r) == ~r.ok => ~Due(a)
-----------------------------------------------------------------------------
(* what is seen *)
\* a list that shows each member of S once
Lists(l, S) == Len(l) = Cardinality(S) /\ Range(l) = S
Held(m, x) == Sum({<<i, coins[i].amt>> : i \in {j \in DOMAIN coins : coins[j].acc = m /\ coins[j].as = x /\ coins[j].conf /\ ~coins[j].spent}})
Kind(c) == IF c.spent THEN "spent" ELSE IF c.lock THEN "lock" ELSE "free"
SeeMarkets(v) == v.ok => Lists(v.l, {[acc |-> m, q |-> mk[m].q, open |-> mk[m].open, bps |-> mk[m].bps, fb |-> mk[m].fb, fq |-> mk[m].fq,
                                      strat |-> mk[m].strat, bp |-> mk[m].bp, qp |-> mk[m].qp] : m \in DOMAIN mk})
\* traders are offered the open markets, and none while the wallet is locked
SeeOffered(v) == v.ok => ~locked /\ Lists(v.l, {Fees(m) : m \in {x \in DOMAIN mk : mk[x].open}})
SeeBalance(v) == v.ok => /\ Known(v.q) /\ v.n = 1
                         /\ LET m == Of(v.q) IN <<v.b, v.a, v.bps, v.fb, v.fq>> = <<Held(m, "B"), Held(m, v.q), mk[m].bps, mk[m].fb, mk[m].fq>>
SeeDeposit(v) == v.ok => Known(v.q) /\ v.n = ext[Of(v.q)] /\ v.distinct = v.n /\ v.known
Collected(n) == LET t == trades[n] IN IF big THEN t.ap * t.bps ELSE (t.ap * t.bps) \div 10000
Done(q) == {n \in DOMAIN trades : trades[n].q = q /\ trades[n].code \in {3, 4} /\ ~trades[n].failed}
SeeFees(v) == v.ok =>
  /\ Known(v.q)
  /\ Lists(v.l, {[n |-> n, bps |-> trades[n].bps, as |-> trades[n].p, amt |-> Collected(n),
                  price |-> IF trades[n].p = "B" THEN trades[n].bp ELSE trades[n].qp] : n \in Done(v.q)})
  /\ Lists(v.tot, {[as |-> x, amt |-> Sum({<<n, Collected(n)>> : n \in {k \in Done(v.q) : trades[k].p = x}})] : x \in {trades[n].p : n \in Done(v.q)}})
SeeUtxos(v) == v.ok => Lists(v.l, {[id |-> i, acc |-> coins[i].acc, kind |-> Kind(coins[i]), as |-> coins[i].as, amt |-> coins[i].amt] : i \in DOMAIN coins})
SeeFeeBalance(v) == v.ok => v.v = Held(0, "B")
Url(n) == LET t == trades[n] IN
  IF t.code = 4 /\ ~t.failed THEN [tx |-> n, outs |-> {[as |-> t.r, amt |-> t.ar, ok |-> TRUE], [as |-> t.p, amt |-> t.ap, ok |-> TRUE]}]
  ELSE [tx |-> 0, outs |-> {}]
Trade(n) == LET t == trades[n] IN
  [n |-> n, code |-> t.code, failed |-> t.failed, fee |-> [base |-> "B", q |-> t.q, bps |-> t.bps, fb |-> t.fb, fq |-> t.fq], bp |-> t.bp, qp |-> t.qp,
   p |-> t.p, ap |-> t.ap, r |-> t.r, ar |-> t.ar, fcode |-> t.fcode, fmsg |-> t.fmsg, t |-> t.t, utc |-> t.t, url |-> Url(n)]
SeeTrades(v) == v.ok =>
  /\ Lists([i \in DOMAIN v.l |-> [v.l[i] EXCEPT !.url.outs = Range(@)]], {Trade(n) : n \in DOMAIN trades})
  /\ \A i \in DOMAIN v.l : Len(v.l[i].url.outs) = Cardinality(Range(v.l[i].url.outs))
  /\ \A i \in 1..(Len(v.l) - 1) : v.l[i].t[1] <= v.l[i + 1].t[1]
SeeHooks(v) == v.ok => Lists(v.l, {[id |-> h.id, at |-> h.at, sec |-> h.sec] : h \in {x \in hooks : x.act = v.act}})
OwnSum(x, cs) == Sum({<<i, wallet[i].amt>> : i \in {j \in DOMAIN wallet : wallet[j].as = x /\ wallet[j].conf \in cs}})
SeeWallet(v) == v.ok => Lists(v.l, {[as |-> x, tot |-> OwnSum(x, BOOLEAN), conf |-> OwnSum(x, {TRUE}), unconf |-> OwnSum(x, {FALSE})] :
                                      x \in {wallet[i].as : i \in DOMAIN wallet}})
Sees(o) == /\ SeeMarkets(o.markets) /\ SeeOffered(o.offered) /\ SeeUtxos(o.utxos) /\ SeeFeeBalance(o.feebal) /\ SeeTrades(o.trades) /\ SeeWallet(o.wallet)
           /\ \A i \in DOMAIN o.balances : SeeBalance(o.balances[i])
           /\ \A i \in DOMAIN o.deposits : SeeDeposit(o.deposits[i])
           /\ \A i \in DOMAIN o.fees : SeeFees(o.fees[i])
           /\ \A i \in DOMAIN o.hooks : SeeHooks(o.hooks[i])
           \* nothing is hidden while the wallet is unlocked
           /\ ~locked => /\ o.markets.ok /\ o.offered.ok /\ o.utxos.ok /\ o.feebal.ok /\ o.trades.ok /\ o.wallet.ok
                         /\ \A i \in DOMAIN o.balances : Known(o.balances[i].q) => o.balances[i].ok
                         /\ \A i \in DOMAIN o.deposits : Known(o.deposits[i].q) => o.deposits[i].ok
                         /\ \A i \in DOMAIN o.fees : Known(o.fees[i].q) => o.fees[i].ok
                         /\ \A i \in DOMAIN o.hooks : o.hooks[i].ok
-----------------------------------------------------------------------------
\* the views agree with each other: what is shown per account adds up to what is held, reports add up to their entries
KindsPartition == \A i \in DOMAIN coins : Cardinality({k \in {"free", "lock", "spent"} : Kind(coins[i]) = k}) = 1
BalanceIsHeld == \A m \in DOMAIN ext, x \in {"B", "Q1", "Q2"} : Held(m, x) <= Sum({<<i, coins[i].amt>> : i \in {j \in DOMAIN coins : coins[j].acc = m /\ Kind(coins[j]) # "spent"}})
OneMarketPerQuote == \A m, n \in DOMAIN mk : (mk[m].q = mk[n].q /\ mk[m].q # "-") => m = n
CompletedOnly == \A q \in Quotes : \A n \in Done(q) : trades[n].t[3] > 0
=============================================================================
