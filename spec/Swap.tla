--------------------------------- MODULE Swap ---------------------------------
(* Trades between proposal and settlement: the trade service, the chain       *)
(* listener and the stores behind them. A trade is named by its slot k. A     *)
(* coin is named by its number: first the coins of the reset, then the        *)
(* wallet's outputs of every accepted transaction in output order; such an    *)
(* output is "in" the wallet only once the transaction was sent or confirmed. *)
(* Account 0 pays network fees, account 4+m holds market m, "B" is the base   *)
(* asset and Qm the quote asset of market m.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES open,      \* markets open for trading
          locked,    \* the wallet is locked
          coins,     \* number -> [acc, asset, amt, in, conf, spent, lock]
          next,      \* <<external, internal>> next index of accounts 0, 5, 6, flattened
          tr,        \* slot -> [st, failed, exp, time, ins, outs, sent, pub]
          want,      \* slots whose transaction has to be watched, and 10 + n for deposit n
          dep,       \* the coin that deposit n brings, 0 when it was not made
          on,        \* the chain is being watched
          now
svars == <<open, locked, coins, next, tr, want, dep, on, now>>

Slots == 1..9
None == [st |-> "none", failed |-> FALSE, exp |-> 0, time |-> 0, ins |-> {}, outs |-> {}, sent |-> FALSE, pub |-> 0, leak |-> FALSE, mined |-> FALSE]
Duration == 120
Grace == 60           \* an expired trade may keep its coins a little longer
Q(m) == IF m = 1 THEN "Q1" ELSE "Q2"
FeeFloor == 5000      \* with this much for network fees no proposal can fail for lack of it

Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x[2] + Sum(S \ {x})

NewCoin(c) == [acc |-> c.acc, asset |-> c.asset, amt |-> c.amt, in |-> TRUE, conf |-> c.conf, spent |-> FALSE, lock |-> 0]
Count(cs, acc) == Cardinality({i \in DOMAIN cs : cs[i].acc = acc})
Start(cs) == [open |-> {1, 2}, locked |-> FALSE, coins |-> [i \in DOMAIN cs |-> NewCoin(cs[i])],
              next |-> <<Count(cs, 0), 0, Count(cs, 5), 0, Count(cs, 6), 0>>, tr |-> [k \in Slots |-> None], want |-> {}, dep |-> <<0, 0>>, on |-> FALSE, now |-> 0]
Reset(cs) == LET s == Start(cs) IN
  /\ open' = s.open /\ locked' = s.locked /\ coins' = s.coins /\ next' = s.next /\ tr' = s.tr /\ want' = s.want /\ dep' = s.dep /\ on' = s.on /\ now' = s.now
Init0(cs) == LET s == Start(cs) IN
  /\ open = s.open /\ locked = s.locked /\ coins = s.coins /\ next = s.next /\ tr = s.tr /\ want = s.want /\ dep = s.dep /\ on = s.on /\ now = s.now

Avail(i) == coins[i].in /\ coins[i].conf /\ ~coins[i].spent /\ coins[i].lock = 0
Of(acc, asset) == {i \in DOMAIN coins : Avail(i) /\ coins[i].acc = acc /\ coins[i].asset = asset}
Amount(S) == Sum({<<i, coins[i].amt>> : i \in S})
Balance(acc, asset) == Amount(Of(acc, asset))

-------------------------------------------------------------------------------
(* proposals: a holds the request (pays ap of p, receives ar of r), its base and quote amounts, the quotes q1 (quote amount
   for that base amount) and q2 (base amount for that quote amount), -1 when there is none, the balances bq quoted with q1, and
   the times from and to between which it ran *)
Near(x, q) == q >= 0 /\ x - q <= q \div 10 /\ q - x <= q \div 10
PriceOk(a) == Near(a.quote, a.q1) \/ Near(a.base, a.q2)
Acc(a) == 4 + a.m
KnownMarket(a) == a.kind \notin {"wrongbase", "unknown"}
Pair(a) == IF a.dir = "buy" THEN a.p = Q(a.m) /\ a.r = "B" ELSE a.p = "B" /\ a.r = Q(a.m)
WellFormed(a) == a.kind \notin {"badpset", "badkey", "nokey", "nilkeys", "nooutkey", "nocoin"}
Funded(a) == Balance(Acc(a), a.r) >= a.ar /\ Balance(0, "B") > 0
CanAccept(a) == ~locked /\ KnownMarket(a) /\ a.m \in open /\ Pair(a) /\ PriceOk(a) /\ WellFormed(a) /\ Funded(a)
(* a proposal that ran along with others was quoted before them, and may have run when the coins of a cancelled trade were still held *)
Par(a) == "par" \in DOMAIN a
MustAccept(a) == CanAccept(a) /\ Balance(0, "B") >= FeeFloor /\ (Par(a) => ~a.lax /\ Balance(Acc(a), a.r) >= 2 * a.ar)
QuoteDue(a) == LET b == Balance(Acc(a), "B") \div 10  q == Balance(Acc(a), Q(a.m)) \div 10 IN
                 ~locked /\ a.m \in open /\ a.base \in 100000..b /\ a.quote \in 100000..q /\ (Par(a) => ~a.lax)
QuoteOk(a) ==
  /\ QuoteDue(a) => a.q1 >= 0 /\ a.q2 >= 0
  /\ ~Par(a) /\ a.q1 >= 0 => a.bq = <<Balance(Acc(a), "B"), Balance(Acc(a), Q(a.m))>>

(* the accepted transaction t *)
Own(t) == {i \in Range(t.ins) : i # 0}
Pos(acc) == IF acc = 0 THEN 1 ELSE IF acc = 5 THEN 3 ELSE 5
OutsOk(a, t, mk, fc) ==
  LET acc == Acc(a)
      want1 == {[acc |-> acc, ch |-> 0, ix |-> next[Pos(acc)], asset |-> a.p, amt |-> a.ap]}
      want2 == IF Amount(mk) > a.ar THEN {[acc |-> acc, ch |-> 1, ix |-> next[Pos(acc) + 1], asset |-> a.r, amt |-> Amount(mk) - a.ar]} ELSE {}
      want3 == IF Amount(fc) > t.fee THEN {[acc |-> 0, ch |-> 1, ix |-> next[2], asset |-> "B", amt |-> Amount(fc) - t.fee]} ELSE {}
      got == {[acc |-> o.acc, ch |-> o.ch, ix |-> o.ix, asset |-> o.asset, amt |-> o.amt] : o \in Range(t.outs)}
  IN got = want1 \cup want2 \cup want3 /\ Len(t.outs) = Cardinality(got)
FeeOk(t) == t.fee > 0 /\ t.fee <= t.size /\ 20 * t.fee >= t.size
TxOk(a, t) ==
  LET own == Own(t)  mk == {i \in own : coins[i].acc = Acc(a)}  fc == own \ mk IN
  /\ own \subseteq DOMAIN coins /\ \A i \in own : Avail(i)
  /\ Cardinality(own) = Len(SelectSeq(t.ins, LAMBDA i : i # 0))
  /\ \A i \in mk : coins[i].asset = a.r
  /\ \A i \in fc : coins[i].acc = 0 /\ coins[i].asset = "B"
  /\ Amount(mk) >= a.ar /\ Amount(fc) >= t.fee /\ FeeOk(t) /\ t.fees = 1
  /\ t.extra = 0 /\ t.missing = 0 /\ t.wrong = << >> /\ t.tally
  /\ Range(t.signed) = own /\ Len(t.signed) = Cardinality(own)
  /\ OutsOk(a, t, mk, fc)

(* indices may be used up by change that is not needed, at most one each *)
Next(a, t) == LET p == Pos(Acc(a))
                  used(acc) == \E o \in Range(t.outs) : o.acc = acc /\ o.ch = 1
                  opt(acc) == IF used(acc) THEN {1} ELSE {0, 1}
              IN {[next EXCEPT ![p] = @ + 1, ![p + 1] = @ + x, ![2] = @ + y] : x \in opt(Acc(a)), y \in opt(0)}
Propose(a, r) ==
  IF r.res = "acc" THEN
    /\ CanAccept(a) /\ r.names /\ TxOk(a, r.tx) /\ r.exp \in (a.from + Duration)..(a.to + Duration)
    /\ LET t == r.tx  own == Own(t)  n == Len(coins) IN
       /\ coins' = [i \in 1..(n + Len(t.outs)) |->
            IF i <= n THEN (IF i \in own THEN [coins[i] EXCEPT !.lock = a.k] ELSE coins[i])
            ELSE LET o == t.outs[i - n] IN [acc |-> o.acc, asset |-> o.asset, amt |-> o.amt, in |-> FALSE, conf |-> FALSE, spent |-> FALSE, lock |-> 0]]
       /\ tr' = [tr EXCEPT ![a.k] = [None EXCEPT !.st = "acc", !.exp = r.exp, !.ins = own, !.outs = (n + 1)..(n + Len(t.outs))]]
       /\ next' \in Next(a, t)
    /\ want' = want \cup {a.k} /\ UNCHANGED <<open, locked, on, now>>
  ELSE
    /\ ~MustAccept(a)
    /\ \/ r.res = "rej" /\ r.names
       \/ r.res = "err" /\ (locked \/ ~KnownMarket(a) \/ ~Funded(a) \/ (Par(a) /\ a.lax))
    /\ tr' = [tr EXCEPT ![a.k] = [None EXCEPT !.st = "rej"]]
    /\ UNCHANGED <<open, locked, coins, next, want, on, now>>

-------------------------------------------------------------------------------
Live(k) == (tr[k].st = "acc" /\ ~tr[k].failed) \/ tr[k].st = "comp"
FinalKinds == {"pset", "hex"}
Spendable(k) == \A i \in tr[k].ins : ~coins[i].spent
(* coins can be spent without the daemon knowing it yet, by a transaction that it could not record *)
Taken(k) == \E j \in Slots : tr[j].mined /\ tr[j].ins \cap tr[k].ins # {}
CanComplete(a) == tr[a.k].st = "acc" /\ ~tr[a.k].failed /\ now < tr[a.k].exp /\ a.kind \in FinalKinds
Spend(cs, S) == [i \in DOMAIN cs |-> IF i \in S /\ cs[i].in THEN [cs[i] EXCEPT !.spent = TRUE, !.lock = 0] ELSE cs[i]]
Unlock(cs, K) == [i \in DOMAIN cs |-> IF cs[i].lock \in K THEN [cs[i] EXCEPT !.lock = 0] ELSE cs[i]]
Receive(cs, S, conf) == [i \in DOMAIN cs |-> IF i \in S THEN [cs[i] EXCEPT !.in = TRUE, !.conf = @ \/ conf] ELSE cs[i]]
Complete(a, r) ==
  /\ r.res = "fail" => r.names
  /\ IF CanComplete(a) /\ Spendable(a.k) /\ ~Taken(a.k)
     THEN /\ r.res = "ok"
          /\ tr' = [tr EXCEPT ![a.k].st = "comp", ![a.k].sent = TRUE]
          /\ coins' = Receive(Spend(coins, tr[a.k].ins), tr[a.k].outs, FALSE)
          /\ UNCHANGED <<open, locked, next, want, on, now>>
     ELSE /\ r.res \in (IF tr[a.k].st \in {"comp", "settled"} /\ a.kind # "nil" THEN {"ok", "fail", "err"} ELSE {"fail", "err"})
          /\ UNCHANGED svars

Cancel(a, r) ==
  /\ r.res \in {"fail", "err"} /\ (r.res = "fail" => r.names)
  /\ IF a.kind = "ok" /\ tr[a.k].st = "acc" /\ ~tr[a.k].failed
     THEN /\ r.res = "fail"
          /\ tr' = [tr EXCEPT ![a.k].failed = TRUE] /\ coins' = Unlock(coins, {a.k}) /\ want' = want \ {a.k}
          /\ UNCHANGED <<open, locked, next, on, now>>
     ELSE IF a.kind = "ok" /\ tr[a.k].leak
     THEN /\ coins' \in {coins, Unlock(coins, {a.k})}
          /\ UNCHANGED <<open, locked, next, tr, want, on, now>>
     ELSE UNCHANGED svars

Confirm(a) ==
  IF a.k = 0 \/ tr[a.k].st \notin {"acc", "comp"} THEN UNCHANGED svars
  ELSE LET t == tr[a.k] IN
    /\ tr' = [tr EXCEPT ![a.k].st = "settled", ![a.k].failed = FALSE, ![a.k].time = a.at, ![a.k].pub = @ + 1]
    /\ coins' = Receive(Spend(coins, t.ins), t.outs, TRUE)
    /\ want' = want \ {a.k} /\ UNCHANGED <<open, locked, next, on, now>>

(* a store access fails while an action is dealt with (r.hit): a proposal is then accepted in full or not at all, and what it is
   turned down for holds no coins *)
ProposeHit(a, r) ==
  IF r.res = "acc" THEN Propose(a, r)
  ELSE /\ r.res \in {"rej", "err"} /\ (r.res = "rej" => r.names)
       /\ tr' = [tr EXCEPT ![a.k] = [None EXCEPT !.st = "void"]]
       /\ LET p == Pos(Acc(a)) IN \E x, y, z \in {0, 1} : next' = [next EXCEPT ![p] = @ + x, ![p + 1] = @ + y, ![2] = @ + z]
       /\ UNCHANGED <<open, locked, coins, want, on, now>>
(* of a transaction found confirmed either everything is recorded, or the trade is not settled, subscribers are told nothing,
   and the transaction goes on being watched, so that it is dealt with once more *)
Parts(S) == SUBSET S
ConfirmHit(a) ==
  IF a.k = 0 \/ tr[a.k].st \notin {"acc", "comp"} THEN UNCHANGED svars
  ELSE LET t == tr[a.k] IN
    \/ \E n \in {0, 1} :
         /\ tr' = [tr EXCEPT ![a.k].st = "settled", ![a.k].failed = FALSE, ![a.k].time = a.at, ![a.k].pub = @ + n]
         /\ coins' = Receive(Spend(coins, t.ins), t.outs, TRUE)
         /\ want' = want \ {a.k} /\ UNCHANGED <<open, locked, next, on, now>>
    \/ /\ \E I \in Parts(t.ins), O \in Parts(t.outs) : coins' = Receive(Spend(coins, I), O, TRUE)
       /\ tr' = [tr EXCEPT ![a.k].mined = TRUE]
       /\ UNCHANGED <<open, locked, next, want, on, now>>
(* the coins of a cancelled trade may stay locked until the daemon starts again *)
CancelHit(a, r) ==
  /\ r.res \in {"fail", "err"} /\ (r.res = "fail" => r.names)
  /\ IF r.res = "fail" /\ a.kind = "ok" /\ tr[a.k].st = "acc" /\ ~tr[a.k].failed
     THEN /\ \E leak \in BOOLEAN : /\ tr' = [tr EXCEPT ![a.k].failed = TRUE, ![a.k].leak = leak]
                                   /\ coins' = IF leak THEN coins ELSE Unlock(coins, {a.k})
          /\ want' = want \ {a.k} /\ UNCHANGED <<open, locked, next, on, now>>
     ELSE UNCHANGED svars

(* time passes: accepted trades past their deadline expire, at the latest when the grace period ends *)
Pass(dt) ==
  LET late == {k \in Slots : tr[k].st = "acc" /\ now + dt > tr[k].exp}
      due == {k \in late : ~tr[k].failed /\ now + dt >= tr[k].exp + Grace} IN
  \E K \in {X \in SUBSET late : due \subseteq X} :
     /\ tr' = [k \in Slots |-> IF k \in K THEN [tr[k] EXCEPT !.st = "exp"] ELSE tr[k]]
     /\ coins' = Unlock(coins, K) /\ want' = want \ K
     /\ now' = now + dt
(* a deposit is found confirmed: its coin is the wallet's, or, when a store access fails, it is asked for once more *)
Deposit(a, r) ==
  LET new == dep[a.n] = 0
      c == IF new THEN Len(coins) + 1 ELSE dep[a.n]
      cs == IF new THEN Append(coins, [acc |-> 5, asset |-> "B", amt |-> a.amt, in |-> FALSE, conf |-> FALSE, spent |-> FALSE, lock |-> 0]) ELSE coins
  IN /\ dep' = [dep EXCEPT ![a.n] = c]
     /\ \/ coins' = Receive(cs, {c}, TRUE) /\ want' = want \ {10 + a.n}
        \/ /\ "hit" \in DOMAIN r /\ r.hit
           /\ \E O \in Parts({c}) : coins' = Receive(cs, O, TRUE)
           /\ want' = want \cup {10 + a.n}
     /\ UNCHANGED <<open, locked, next, tr, on, now>>
StartedIn == 10
Act(a, r) ==
  CASE "hit" \in DOMAIN r /\ r.hit /\ a.op = "propose" -> ProposeHit(a, r)
    [] "hit" \in DOMAIN r /\ r.hit /\ a.op = "confirm" -> ConfirmHit(a)
    [] "hit" \in DOMAIN r /\ r.hit /\ a.op = "fail" -> CancelHit(a, r)
    [] a.op = "propose" -> Propose(a, r)
    [] a.op = "complete" -> Complete(a, r)
    [] a.op = "fail" -> Cancel(a, r)
    [] a.op = "confirm" -> Confirm(a)
    [] a.op = "tick" -> Pass(a.dt) /\ UNCHANGED <<open, locked, next, on>>
    [] a.op = "observe" -> on' = TRUE /\ Pass(StartedIn) /\ UNCHANGED <<open, locked, next>>
    [] a.op = "open" -> open' = open \cup {a.m} /\ UNCHANGED <<locked, coins, next, tr, want, on, now>>
    [] a.op = "close" -> open' = open \ {a.m} /\ UNCHANGED <<locked, coins, next, tr, want, on, now>>
    [] a.op = "lock" -> locked' = TRUE /\ UNCHANGED <<open, coins, next, tr, want, on, now>>
    [] a.op = "unlock" -> locked' = FALSE /\ UNCHANGED <<open, coins, next, tr, want, on, now>>
    \* the daemon stops and starts again over the same stores: it goes on following the trades that are pending
    [] a.op = "restart" -> /\ want' = {k \in Slots : Live(k)} /\ on' = FALSE
                           /\ tr' = [k \in Slots |-> [tr[k] EXCEPT !.pub = 0, !.leak = FALSE]]
                           /\ coins' = Unlock(coins, {k \in Slots : tr[k].leak})
                           /\ UNCHANGED <<open, locked, next, now>>
Do(a, r) == IF a.op = "deposit" THEN Deposit(a, r) ELSE Act(a, r) /\ UNCHANGED dep
Ok(a) == a.op = "propose" => QuoteOk(a)

-------------------------------------------------------------------------------
(* what can be seen of the state *)
Code(s) == CASE s = "acc" -> 2 [] s = "comp" -> 3 [] s = "settled" -> 4 [] s = "exp" -> 5 [] OTHER -> 0
SeesTrade(k, x) ==
  LET t == tr[k] IN
  IF t.st = "rej" THEN x.failed /\ x.st <= 1
  ELSE IF t.st = "void" THEN x.failed
  ELSE /\ x.st = Code(t.st)
       /\ (t.st \in {"acc", "comp"} => x.failed = t.failed /\ x.exp = t.exp)
       /\ (t.st = "settled" => ~x.failed /\ x.time = t.time)
       /\ (t.st \in {"comp", "settled"} => x.hex)
SeesTrades(ts) ==
  /\ \A i \in DOMAIN ts : ts[i].k \in Slots /\ tr[ts[i].k].st # "none" /\ SeesTrade(ts[i].k, ts[i])
  /\ \A i, j \in DOMAIN ts : ts[i].k = ts[j].k => i = j
  /\ \A k \in Slots : tr[k].st \in {"acc", "comp", "settled", "exp"} => \E i \in DOMAIN ts : ts[i].k = k
SeesCoins(cs) ==
  {<<c.id, c.acc, c.asset, c.amt, c.conf, c.spent, IF c.spent THEN 0 ELSE c.lock>> : c \in Range(cs)} =
    {<<i, coins[i].acc, coins[i].asset, coins[i].amt, coins[i].conf, coins[i].spent, coins[i].lock>> : i \in {j \in DOMAIN coins : coins[j].in}}
(* what subscribers are told of the settled trades: the swap as requested, and what its market holds *)
Held(acc, asset) == Amount({i \in DOMAIN coins : coins[i].in /\ coins[i].conf /\ ~coins[i].spent /\ coins[i].acc = acc /\ coins[i].asset = asset})
SeesTold(ms) == \A i \in DOMAIN ms :
  /\ ms[i].k \in Slots /\ tr[ms[i].k].st = "settled" /\ ms[i].m \in {1, 2} /\ ms[i].same
  /\ ms[i].calm => ms[i].bal = <<Held(4 + ms[i].m, "B"), Held(4 + ms[i].m, Q(ms[i].m))>>
Sees(o) ==
  /\ SeesCoins(o.coins) /\ SeesTrades(o.trades) /\ o.next = next
  /\ o.watched = SelectSeq(<<1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12>>, LAMBDA k : on /\ k \in want)
  /\ SeesTold(o.told)
  /\ Range(o.sent) = {k \in Slots : tr[k].sent}
  /\ {<<p.k, p.n>> : p \in Range(o.pub)} = {<<k, tr[k].pub>> : k \in {j \in Slots : tr[j].pub > 0}}

-------------------------------------------------------------------------------
OneHolder == \A k, j \in Slots : k < j /\ Live(k) /\ Live(j) => tr[k].ins \cap tr[j].ins = {}
LocksAreLive == \A i \in DOMAIN coins : coins[i].lock # 0 => LET k == coins[i].lock IN
                  i \in tr[k].ins /\ tr[k].st = "acc" /\ (tr[k].failed => tr[k].leak)
Reserved == \A k \in Slots : tr[k].st = "acc" /\ ~tr[k].failed => \A i \in tr[k].ins : coins[i].lock = k \/ coins[i].spent
FailedNotSent == \A k \in Slots : tr[k].failed => ~tr[k].sent
PublishedOnce == \A k \in Slots : tr[k].pub <= 1 /\ (tr[k].pub = 1 => tr[k].st = "settled")
WatchedIsPending == \A k \in want \cap Slots : Live(k)
Inv == OneHolder /\ LocksAreLive /\ Reserved /\ FailedNotSent /\ PublishedOnce /\ WatchedIsPending
===============================================================================
