------------------------------- MODULE Operator -------------------------------
(* The operator's side of the daemon: markets and their accounts, deposits    *)
(* and their claims, payments out, over the wallet's coins and the chain.     *)
(* Account 0 pays network fees, account 1 is the wallet's, the markets have   *)
(* accounts from 5 on; account -1 is somebody else. "B" is the base asset.    *)
(* A coin is an output of a transaction that pays the wallet (or, for claims  *)
(* of what is not ours, somebody else); coins and transactions are numbered   *)
(* in the order in which they are made.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES mk,      \* account -> market
          nx,      \* account -> <<number of external, of internal addresses>>
          coins,   \* number -> [acc, ch, asset, amt, tx, gone, in, conf, spent, lock]
          txs,     \* number -> [ins, chain, mined, sent]
          watch,   \* transactions to be followed until they are mined
          on,      \* the chain is being watched
          locked   \* the wallet is locked
ovars == <<mk, nx, coins, txs, watch, on, locked>>

Accounts == {0, 1} \cup 5..12
Quotes == {"Q1", "Q2", "Q3"}
NewFee == 25
FeeFloor == 20000
Market(q) == [q |-> q, open |-> FALSE, fee |-> NewFee, fb |-> 0, fq |-> 0, strat |-> "bal", bp |-> 0, qp |-> 0]
NewCoin(acc, ch, asset, amt, tx, in, conf) ==
  [acc |-> acc, ch |-> ch, asset |-> asset, amt |-> amt, tx |-> tx, gone |-> FALSE, in |-> in, conf |-> conf, spent |-> FALSE, lock |-> 0]

Range(s) == {s[i] : i \in DOMAIN s}
Occ(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x[2] + Sum(S \ {x})
Amount(S) == Sum({<<i, coins[i].amt>> : i \in S})

(* a world: coins already in the wallet (each a mined transaction of its own) and markets [acc, q] with an address each at least *)
Ext(w, acc) == LET n == Cardinality({i \in DOMAIN w.coins : w.coins[i].acc = acc})
                   m == IF \E x \in Range(w.mks) : x.acc = acc THEN 1 ELSE 0 IN IF n > m THEN n ELSE m
Start(w) == [mk |-> [m \in {x.acc : x \in Range(w.mks)} |-> Market((CHOOSE x \in Range(w.mks) : x.acc = m).q)],
             nx |-> [acc \in Accounts |-> <<Ext(w, acc), 0>>],
             coins |-> [i \in DOMAIN w.coins |-> LET c == w.coins[i] IN NewCoin(c.acc, 0, c.asset, c.amt, i, TRUE, TRUE)],
             txs |-> [i \in DOMAIN w.coins |-> [ins |-> {}, chain |-> TRUE, mined |-> TRUE, sent |-> FALSE]]]
Init0(w) == LET s == Start(w) IN mk = s.mk /\ nx = s.nx /\ coins = s.coins /\ txs = s.txs /\ watch = {} /\ on = TRUE /\ locked = FALSE
Reset(w) == LET s == Start(w) IN mk' = s.mk /\ nx' = s.nx /\ coins' = s.coins /\ txs' = s.txs /\ watch' = {} /\ on' = TRUE /\ locked' = FALSE

Has(q) == \E m \in DOMAIN mk : mk[m].q = q
Of(q) == CHOOSE m \in DOMAIN mk : mk[m].q = q
Known(a) == a.base = "ok" /\ a.q \in Quotes /\ Has(a.q)
Used(acc) == nx[acc][1] > 0
Avail(i) == coins[i].in /\ coins[i].conf /\ ~coins[i].spent /\ coins[i].lock = 0
Mined(i) == txs[coins[i].tx].mined
OnChain(i) == txs[coins[i].tx].chain
(* the coins of the wallet account are looked up on the chain, all others in the utxo set *)
Spendable(i) == IF coins[i].acc = 1 THEN OnChain(i) /\ Mined(i) /\ ~coins[i].gone ELSE Avail(i)
Avails(acc, asset) == {i \in DOMAIN coins : coins[i].acc = acc /\ coins[i].asset = asset /\ Spendable(i)}
Balance(acc, asset) == Amount(Avails(acc, asset))

-------------------------------------------------------------------------------
(* addresses *)
Count(n) == IF n <= 0 THEN 1 ELSE n
Gives(r, acc, n) == r.addrs = [i \in 1..n |-> [acc |-> acc, ch |-> 0, ix |-> nx[acc][1] + i - 1]]
Derive(acc, n) == nx' = [nx EXCEPT ![acc] = <<@[1] + n, @[2]>>]
Refused(r) == r.res = "err" /\ UNCHANGED ovars
DepositNew(a, r) ==
  IF locked THEN Refused(r)
  ELSE /\ r.res = "ok" /\ r.addrs # << >>
       /\ LET acc == r.addrs[1].acc IN
            /\ acc >= 5 /\ acc \in Accounts /\ ~Used(acc) /\ acc \notin DOMAIN mk     \* an account is never given to a second market
            /\ Gives(r, acc, Count(a.n)) /\ Derive(acc, Count(a.n))
            /\ mk' = [m \in DOMAIN mk \cup {acc} |-> IF m = acc THEN Market("-") ELSE mk[m]]
       /\ UNCHANGED <<coins, txs, watch, on, locked>>
DepositOld(a, r) ==
  IF ~Known(a) \/ locked THEN Refused(r)
  ELSE r.res = "ok" /\ Gives(r, Of(a.q), Count(a.n)) /\ Derive(Of(a.q), Count(a.n)) /\ UNCHANGED <<mk, coins, txs, watch, on, locked>>
Address(acc, n, r) ==
  IF locked THEN Refused(r)
  ELSE r.res = "ok" /\ Gives(r, acc, n) /\ Derive(acc, n) /\ UNCHANGED <<mk, coins, txs, watch, on, locked>>

(* the world: somebody pays addresses of the wallet; transactions are mined *)
Pay(a) ==
  LET t == Len(txs) + 1 IN
  /\ txs' = Append(txs, [ins |-> {}, chain |-> TRUE, mined |-> a.mined, sent |-> FALSE])
  /\ coins' = coins \o [i \in DOMAIN a.outs |-> LET o == a.outs[i] IN NewCoin(o.acc, 0, o.asset, o.amt, t, FALSE, FALSE)]
  /\ UNCHANGED <<mk, nx, watch, on, locked>>
Mine(a) ==   \* (a payment that was not pushed is published by the operator)
  LET t == a.tx  seen == on /\ t \in watch IN
  /\ txs' = [txs EXCEPT ![t].chain = TRUE, ![t].mined = TRUE]
  /\ watch' = IF seen THEN watch \ {t} ELSE watch
  /\ coins' = [i \in DOMAIN coins |->
       LET c == IF i \in txs[t].ins THEN [coins[i] EXCEPT !.gone = TRUE] ELSE coins[i] IN
       IF seen /\ c.tx = t /\ c.acc >= 0 THEN [c EXCEPT !.in = TRUE, !.conf = TRUE]
       ELSE IF seen /\ i \in txs[t].ins THEN [c EXCEPT !.spent = TRUE, !.lock = 0] ELSE c]
  /\ UNCHANGED <<mk, nx, on, locked>>
(* the coins are read from the chain again *)
Loaded(i) == coins[i].acc >= 0 /\ OnChain(i) /\ ~coins[i].gone
Load == /\ coins' = [i \in DOMAIN coins |-> IF Loaded(i) THEN [coins[i] EXCEPT !.in = TRUE, !.conf = @ \/ Mined(i)] ELSE coins[i]]
        /\ watch' = watch \cup {coins[i].tx : i \in {j \in DOMAIN coins : Loaded(j) /\ ~Mined(j)}}
Reload(a, r) == IF a.down # "" /\ (\E acc \in Accounts : Used(acc)) THEN Refused(r) ELSE r.res = "ok" /\ Load /\ UNCHANGED <<mk, nx, txs, on, locked>>
Restart == /\ on' = FALSE /\ locked' = TRUE /\ UNCHANGED <<mk, nx, txs>>
           /\ coins' = [i \in DOMAIN coins |-> IF Loaded(i) THEN [coins[i] EXCEPT !.in = TRUE, !.conf = @ \/ Mined(i)] ELSE coins[i]]
           /\ watch' = {coins[i].tx : i \in {j \in DOMAIN coins : Loaded(j) /\ ~Mined(j)}}

-------------------------------------------------------------------------------
(* claims: pts are coins; 0: of an unknown transaction, -1: past the last output, -2: a negative index *)
Owned(i, acc) == i > 0 /\ coins[i].acc = acc /\ coins[i].ch = 0 /\ OnChain(i) /\ Mined(i)
AllOwned(a, acc) == a.pts # << >> /\ \A k \in DOMAIN a.pts : Owned(a.pts[k], acc)
Assets(a) == {coins[i].asset : i \in Range(a.pts)}
Add(S) == [i \in DOMAIN coins |-> IF i \in S THEN [coins[i] EXCEPT !.in = TRUE, !.conf = TRUE] ELSE coins[i]]
Once(a) == Cardinality(Range(a.pts)) = Len(a.pts)
Candidates(q) == IF Has(q) THEN {Of(q)} ELSE {m \in DOMAIN mk : mk[m].q = "-"}
Bindable(a, m) == AllOwned(a, m) /\ (mk[m].q = "-" => Assets(a) = {"B", a.q})
CanClaim(a) == a.down = "" /\ a.base = "ok" /\ a.q \in Quotes \cup {"X"} /\ \E m \in Candidates(a.q) : Bindable(a, m)
Claim(a, r) ==
  IF r.res = "ok"
  THEN /\ CanClaim(a) /\ ~locked
       /\ LET m == CHOOSE m \in Candidates(a.q) : Bindable(a, m) IN mk' = [mk EXCEPT ![m].q = a.q]
       /\ coins' = Add(Range(a.pts)) /\ UNCHANGED <<nx, txs, watch, on, locked>>
  ELSE Refused(r) /\ ~(CanClaim(a) /\ ~locked /\ Once(a))
CanClaimFee(a) == a.down = "" /\ AllOwned(a, 0)
ClaimFee(a, r) ==
  IF r.res = "ok" THEN CanClaimFee(a) /\ ~locked /\ coins' = Add(Range(a.pts)) /\ UNCHANGED <<mk, nx, txs, watch, on, locked>>
  ELSE Refused(r) /\ ~(CanClaimFee(a) /\ ~locked /\ Once(a))

-------------------------------------------------------------------------------
(* one market *)
Priced(x) == x.bp # 0 /\ x.qp # 0
Edit(m, x, r) == r.res = "ok" /\ mk' = [mk EXCEPT ![m] = x] /\ UNCHANGED <<nx, coins, txs, watch, on, locked>>
Open(a, r) ==
  IF Known(a) /\ Used(0) /\ (LET x == mk[Of(a.q)] IN x.open \/ x.strat = "bal" \/ Priced(x)) /\ ~(locked /\ r.res = "err")
  THEN Edit(Of(a.q), [mk[Of(a.q)] EXCEPT !.open = TRUE], r)
  ELSE Refused(r)
Close(a, r) == IF Known(a) THEN Edit(Of(a.q), [mk[Of(a.q)] EXCEPT !.open = FALSE], r) ELSE Refused(r)
Shut(a) == Known(a) /\ ~mk[Of(a.q)].open
Shown(a, r) == LET x == mk[Of(a.q)] IN r.shows = <<a.q, IF a.op = "pct" THEN a.fee ELSE x.fee, IF a.op = "fixed" THEN a.fb ELSE x.fb, IF a.op = "fixed" THEN a.fq ELSE x.fq>>
Pct(a, r) == IF Shut(a) /\ a.fee \in 0..9999 THEN Edit(Of(a.q), [mk[Of(a.q)] EXCEPT !.fee = a.fee], r) /\ Shown(a, r) ELSE Refused(r)
Fixed(a, r) == IF Shut(a) /\ (<<a.fb, a.fq>> = <<0, 0>> \/ (a.fb > 0 /\ a.fq > 0)) THEN Edit(Of(a.q), [mk[Of(a.q)] EXCEPT !.fb = a.fb, !.fq = a.fq], r) /\ Shown(a, r) ELSE Refused(r)
Price(a, r) == IF Known(a) /\ a.bp > 0 /\ a.qp > 0 THEN Edit(Of(a.q), [mk[Of(a.q)] EXCEPT !.bp = a.bp, !.qp = a.qp], r) ELSE Refused(r)
Strategy(a, r) ==
  IF Shut(a) /\ a.strat \in {"bal", "plug"}
  THEN LET x == mk[Of(a.q)] IN \E zero \in BOOLEAN :      \* prices supplied before may be forgotten, the strategy has to be priced anyway
         (zero => a.strat = "plug") /\ Edit(Of(a.q), [x EXCEPT !.strat = a.strat, !.bp = IF zero THEN 0 ELSE @, !.qp = IF zero THEN 0 ELSE @], r)
  ELSE Refused(r)
Drop(a, r) ==
  IF a.acc \in DOMAIN mk THEN r.res = "ok" /\ mk' = [m \in DOMAIN mk \ {a.acc} |-> mk[m]] /\ UNCHANGED <<nx, coins, txs, watch, on, locked>>
  ELSE Refused(r)

-------------------------------------------------------------------------------
(* payments out: reqs are the outputs asked for [to, acc, ch, ix, asset, amt] (to: an address of somebody else, or 0) *)
Rate(a) == IF a.rate < 100 THEN 100 ELSE a.rate
FeeOk(a, t) == t.fees = 1 /\ 2000 * t.fee >= t.size * Rate(a) /\ 100 * t.fee <= t.size * Rate(a)
Wanted(a) == {o.asset : o \in Range(a.reqs)}
Total(a, asset) == Sum({<<i, a.reqs[i].amt>> : i \in {j \in DOMAIN a.reqs : a.reqs[j].asset = asset}})
Shape(o) == [to |-> o.to, acc |-> o.acc, ch |-> o.ch, ix |-> o.ix, asset |-> o.asset, amt |-> o.amt]
TxOk(a, acc, t) ==
  LET own == Range(t.ins)  fc == {i \in own : coins[i].acc = 0 /\ (acc # 0)}  src == own \ fc
      given == [i \in DOMAIN t.outs |-> Shape(t.outs[i])]
      asked == [i \in DOMAIN a.reqs |-> Shape(a.reqs[i])]
      change == SelectSeq(given, LAMBDA o : o \notin Range(asked))
      due == {<<acc, as, Amount({i \in src : coins[i].asset = as}) - Total(a, as)>> : as \in Wanted(a)} \cup {<<0, "B", Amount(fc) - t.fee>>}
  IN /\ own \subseteq DOMAIN coins /\ Cardinality(own) = Len(t.ins) /\ \A i \in own : Spendable(i)
     /\ \A i \in src : coins[i].acc = acc /\ coins[i].asset \in Wanted(a)
     /\ \A i \in fc : coins[i].asset = "B"
     /\ t.extra = 0 /\ t.tally /\ FeeOk(a, t) /\ Range(t.signed) = own
     /\ \A o \in Range(asked) : Occ(given, o) = Occ(asked, o)
     /\ \A d \in due : d[3] >= 0
     /\ {<<o.acc, o.asset, o.amt>> : o \in Range(change)} = {d \in due : d[3] > 0}
     /\ Len(change) = Cardinality({d \in due : d[3] > 0})
     /\ \A o \in Range(change) : o.to = 0 /\ o.ch = 1 /\ o.ix >= nx[o.acc][2]
Far(t, acc) == LET ix == {o.ix + 1 : o \in {x \in Range(t.outs) : x.to = 0 /\ x.acc = acc /\ x.ch = 1}} \cup {nx[acc][2]} IN CHOOSE i \in ix : \A j \in ix : j <= i
(* an attempt may use up change addresses, at most one for every asset and one for the fees *)
Upto(acc, low, n) == {[nx EXCEPT ![acc][2] = i, ![0][2] = j] : i \in low[1]..(nx[acc][2] + n), j \in low[2]..(nx[0][2] + 1)}
Payment(a, acc, r, can, must) ==
  IF r.res = "ok"
  THEN /\ can /\ TxOk(a, acc, r.tx)
       /\ LET t == Len(txs) + 1  own == Range(r.tx.ins)
              got == SelectSeq(r.tx.outs, LAMBDA o : o.to = 0) IN
          /\ txs' = Append(txs, [ins |-> own, chain |-> a.push, mined |-> FALSE, sent |-> a.push])
          /\ watch' = IF a.push THEN watch \cup {t} ELSE watch
          /\ coins' = [i \in DOMAIN coins |-> IF i \in own THEN [coins[i] EXCEPT !.spent = coins[i].in, !.lock = 0, !.gone = a.push] ELSE coins[i]]
                      \o [i \in DOMAIN got |-> NewCoin(got[i].acc, got[i].ch, got[i].asset, got[i].amt, t, TRUE, FALSE)]
          /\ nx' \in Upto(acc, <<Far(r.tx, acc), Far(r.tx, 0)>>, Cardinality(Wanted(a)))
       /\ UNCHANGED <<mk, on, locked>>
  ELSE /\ r.res = "err" /\ ~must
       /\ nx' \in (IF acc \in Accounts THEN Upto(acc, <<nx[acc][2], nx[0][2]>>, 3) ELSE {nx})
       /\ UNCHANGED <<mk, coins, txs, watch, on, locked>>
Enough(a, acc) == \A as \in Wanted(a) : Balance(acc, as) >= Total(a, as)
FeesPaid == Balance(0, "B") > 0
Withdraw(a, r) ==
  LET acc == IF Known(a) THEN Of(a.q) ELSE -1
      can == Known(a) /\ ~locked /\ a.addr # "bad" /\ Enough(a, acc) /\ FeesPaid /\ ~(a.push /\ a.down # "")
      must == can /\ a.reqs # << >> /\ a.addr # "plain" /\ Balance(acc, "B") > 0 /\ Balance(acc, a.q) > 0 /\ Balance(0, "B") >= FeeFloor
  IN Payment(a, acc, r, can, must)
Send(a, r) ==
  LET can == ~locked /\ (\A o \in Range(a.reqs) : o.amt > 0 /\ o.addr # "bad") /\ Enough(a, 1) /\ FeesPaid /\ ~(a.push /\ a.down # "")
      must == can /\ a.reqs # << >> /\ (\A o \in Range(a.reqs) : o.addr # "plain") /\ Balance(0, "B") >= FeeFloor
  IN Payment(a, 1, r, can, must)

-------------------------------------------------------------------------------
(* what a balance query tells *)
Held(acc, asset) == {i \in DOMAIN coins : coins[i].in /\ coins[i].conf /\ ~coins[i].spent /\ coins[i].acc = acc /\ coins[i].asset = asset}
FeeBalance(r) == IF locked \/ ~Used(0) THEN r.res = "err" ELSE r.res = "ok" /\ r.n = Amount(Held(0, "B"))
There(acc, asset, mined) == Amount({i \in DOMAIN coins : coins[i].acc = acc /\ coins[i].asset = asset /\ OnChain(i) /\ ~coins[i].gone /\ (Mined(i) = mined)})
WalletBalance(r) ==
  IF locked \/ ~Used(1) THEN r.res = "err"
  ELSE r.res = "ok" /\ {<<x.asset, x.conf, x.unconf, x.total>> : x \in Range(r.bal)} =
         {<<as, There(1, as, TRUE), There(1, as, FALSE), There(1, as, TRUE) + There(1, as, FALSE)>> : as \in {coins[i].asset : i \in {j \in DOMAIN coins : coins[j].acc = 1 /\ OnChain(j) /\ ~coins[j].gone}}}

Locks(S, k) == coins' = [i \in DOMAIN coins |-> IF i \in S THEN [coins[i] EXCEPT !.lock = k] ELSE coins[i]]
Do(a, r) ==
  CASE a.op = "new" -> DepositNew(a, r)
    [] a.op = "deposit" -> DepositOld(a, r)
    [] a.op = "fee" -> Address(0, Count(a.n), r)
    [] a.op = "addr" -> Address(1, 1, r)
    [] a.op = "pay" -> Pay(a)
    [] a.op = "mine" -> Mine(a)
    [] a.op = "reload" -> Reload(a, r)
    [] a.op = "restart" -> Restart
    [] a.op = "claim" -> Claim(a, r)
    [] a.op = "claimfee" -> ClaimFee(a, r)
    [] a.op = "open" -> Open(a, r)
    [] a.op = "close" -> Close(a, r)
    [] a.op = "pct" -> Pct(a, r)
    [] a.op = "fixed" -> Fixed(a, r)
    [] a.op = "price" -> Price(a, r)
    [] a.op = "strat" -> Strategy(a, r)
    [] a.op = "drop" -> Drop(a, r)
    [] a.op = "withdraw" -> Withdraw(a, r)
    [] a.op = "send" -> Send(a, r)
    [] a.op = "reserve" -> Locks({i \in Range(a.ids) : coins[i].in /\ ~coins[i].spent /\ coins[i].lock = 0}, a.k) /\ UNCHANGED <<mk, nx, txs, watch, on, locked>>
    [] a.op = "release" -> Locks(Range(a.ids), 0) /\ UNCHANGED <<mk, nx, txs, watch, on, locked>>
    [] a.op = "lock" -> locked' = TRUE /\ UNCHANGED <<mk, nx, coins, txs, watch, on>>
    [] a.op = "unlock" -> locked' = FALSE /\ on' = TRUE /\ UNCHANGED <<mk, nx, coins, txs, watch>>
    [] a.op = "feebal" -> FeeBalance(r) /\ UNCHANGED ovars
    [] a.op = "walletbal" -> WalletBalance(r) /\ UNCHANGED ovars

-------------------------------------------------------------------------------
(* what can be seen *)
SeesMarkets(o) ==
  /\ {<<x.acc, x.q, x.open, x.fee, x.fb, x.fq, x.strat, x.bp, x.qp>> : x \in Range(o.markets)} =
       {<<m, mk[m].q, mk[m].open, mk[m].fee, mk[m].fb, mk[m].fq, mk[m].strat, mk[m].bp, mk[m].qp>> : m \in DOMAIN mk}
  /\ Len(o.markets) = Cardinality(DOMAIN mk)
  /\ o.byq = [i \in 1..4 |-> LET q == <<"Q1", "Q2", "Q3", "X">>[i] IN IF Has(q) THEN Of(q) ELSE -1]
  /\ \A x \in Range(o.byacc) : x.q = IF x.acc \in DOMAIN mk THEN mk[x.acc].q ELSE "none"
  /\ {x.q : x \in Range(o.tradable)} = {mk[m].q : m \in {k \in DOMAIN mk : mk[k].open}}
  /\ ~locked => \A x \in Range(o.lists) : Has(x.q) /\ x.n = nx[Of(x.q)][1] /\ x.own
  /\ ~locked => {x.q : x \in Range(o.lists)} = {mk[m].q : m \in {k \in DOMAIN mk : mk[k].q \in Quotes}}
SeesCoins(o) ==
  /\ {<<c.id, c.acc, c.asset, c.amt, c.conf, c.spent, IF c.spent THEN 0 ELSE c.lock>> : c \in Range(o.coins)} =
       {<<i, coins[i].acc, coins[i].asset, coins[i].amt, coins[i].conf, coins[i].spent, IF coins[i].spent THEN 0 ELSE coins[i].lock>> : i \in {j \in DOMAIN coins : coins[j].in}}
  /\ Len(o.coins) = Cardinality({j \in DOMAIN coins : coins[j].in})
  /\ o.listed     \* ListUtxos shows the same, by account and state
Flat(f) == [i \in 1..20 |-> LET acc == <<0, 1, 5, 6, 7, 8, 9, 10, 11, 12>>[((i - 1) \div 2) + 1] IN f[acc][IF i % 2 = 1 THEN 1 ELSE 2]]
Sees(o) ==
  /\ SeesMarkets(o) /\ SeesCoins(o) /\ o.next = Flat(nx)
  /\ Range(o.sent) = {t \in DOMAIN txs : txs[t].sent} /\ Len(o.sent) = Cardinality(Range(o.sent))
  /\ Range(o.watched) = IF on THEN watch ELSE {}

-------------------------------------------------------------------------------
OnePair == \A m, n \in DOMAIN mk : m # n /\ mk[m].q # "-" => mk[m].q # mk[n].q
OwnAccount == \A m \in DOMAIN mk : m >= 5 /\ Used(m)
OpenIsBound == \A m \in DOMAIN mk : mk[m].open => mk[m].q \in Quotes \cup {"X"}
ReservedUnspent == \A i \in DOMAIN coins : coins[i].lock # 0 => ~coins[i].spent
GoneIsSpent == \A i \in DOMAIN coins : coins[i].gone /\ coins[i].in /\ coins[i].acc # 1 => coins[i].spent
InIsOurs == \A i \in DOMAIN coins : coins[i].in => coins[i].acc >= 0
ConfirmedIsMined == \A i \in DOMAIN coins : coins[i].conf => Mined(i)
OneSpender == \A t, u \in DOMAIN txs : t # u /\ txs[t].chain /\ txs[u].chain => txs[t].ins \cap txs[u].ins = {}
PairForever == [][\A m \in DOMAIN mk \cap DOMAIN mk' : mk[m].q # "-" => mk'[m].q = mk[m].q]_ovars
NeverReused == [][\A m \in DOMAIN mk' \ DOMAIN mk : ~Used(m)]_ovars
SpentForever == [][\A i \in DOMAIN coins : coins[i].spent => coins'[i].spent]_ovars
===============================================================================
