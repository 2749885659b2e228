-------------------------------- MODULE Restore --------------------------------
(* Initialising the wallet from its seed. The chain has used some addresses of  *)
(* the wallet; restoring must find them again, with their coins, as long as no   *)
(* Gap addresses in a row are unused. A restoration that fails leaves nothing,   *)
(* and the wallet can be initialised again.                                      *)
(* Account 0 pays network fees, 1 is the wallet's, markets have those from 5 on. *)
(* A use of an address is [acc, ch, ix, n, asset, amt, conf]: n numbers the coin *)
(* that is there, 0 if everything received there has been spent.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES used,    \* the uses of the wallet's addresses
          phase,   \* "none" or "init"
          pass,    \* the passphrase of the wallet
          open,    \* unlocked
          next,    \* account -> <<number of external, of internal addresses>>
          coins,   \* the coins in the utxo set
          conf,    \* those taken for confirmed
          mks,     \* market account -> quote asset, "-" if it has no funds
          stale    \* coins left by an initialisation that died
rvars == <<used, phase, pass, open, next, coins, conf, mks, stale>>

Gap == 20
Fee == 25
Markets == 5..8
Accounts == {0, 1} \cup Markets
None == [acc \in Accounts |-> <<0, 0>>]

Range(s) == {s[i] : i \in DOMAIN s}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Last(S) == IF S = {} THEN -1 ELSE Max(S)
(* those that are found: no g unused ones in a row before *)
Reach(S, g) == {x \in S : ~\E y \in 0..x : y + g <= x /\ (y..(y + g - 1)) \cap S = {}}
(* as the daemon looks for them: one by one, until g in a row are unused *)
RECURSIVE Scan(_, _, _, _)
Scan(S, g, i, first) == IF first >= 0 /\ i - first >= g THEN first - 1
                        ELSE IF i \in S THEN Scan(S, g, i + 1, -1) ELSE Scan(S, g, i + 1, IF first < 0 THEN i ELSE first)

At(acc, ch) == {u.ix : u \in {v \in used : v.acc = acc /\ v.ch = ch}}
NextOK(S, n) == LET l == Last(Reach(S, Gap)) IN n = l + 1 \/ (n > l + 1 /\ n - 1 \in S)
Found(nx) == {u \in used : u.n > 0 /\ u.ix < nx[u.acc][u.ch + 1]}
Ids(U) == {u.n : u \in U}
Ours == {u \in used : u.n > 0}
MinedIn(U, ids) == {u.n : u \in {v \in U : v.n > 0 /\ v.n \in ids /\ v.conf}}
Mined(ids) == MinedIn(used, ids)
Assets(nx, acc) == {u.asset : u \in {v \in Found(nx) : v.acc = acc}}
PairOK(A, q) == IF "B" \in A /\ Cardinality(A) = 2 THEN q \in A \ {"B"} ELSE q = "-" \/ ("B" \in A /\ q \in A \ {"B"})
ConfIn(U, s, old) == MinedIn(U, s.coins \ old) \subseteq s.conf /\ s.conf \subseteq MinedIn(U, s.coins)
ConfOK(s, old) == ConfIn(used, s, old)

(* outcome s = [next, coins, conf, mks] *)
Same(s) == s.next = next /\ s.coins = coins /\ s.conf = conf /\ s.mks = mks
Take(s) == next' = s.next /\ coins' = s.coins /\ conf' = s.conf /\ mks' = s.mks
Restored(s) ==
  /\ \A acc \in Accounts : \A ch \in {0, 1} : NextOK(At(acc, ch), s.next[acc][ch + 1])
  /\ Ids({u \in Found(s.next) : u.acc # 1}) \subseteq s.coins /\ s.coins \subseteq Ids(Found(s.next)) \cup coins
  /\ ConfOK(s, stale)
  /\ DOMAIN s.mks = {m \in Markets : s.next[m] # <<0, 0>>}
  /\ \A m \in DOMAIN s.mks : PairOK(Assets(s.next, m), s.mks[m])
Nothing(s) == s.next = next /\ s.mks = mks /\ coins \subseteq s.coins /\ s.coins \subseteq Ids(Ours) /\ s.conf \subseteq Mined(s.coins)

(* at the start the coins of all known addresses are looked up *)
Restart(s) ==
  /\ s.next = next /\ s.mks = mks
  /\ IF phase = "none" THEN Same(s)
     ELSE coins \cup Ids({u \in Found(next) : u.acc # 1}) \subseteq s.coins /\ s.coins \subseteq coins \cup Ids(Found(next)) /\ ConfOK(s, {})
  /\ Take(s) /\ open' = FALSE /\ stale' = (IF phase = "none" THEN stale ELSE {}) /\ UNCHANGED <<used, phase, pass>>

Done(a, s) == phase' = "init" /\ pass' = a.pass /\ open' = FALSE /\ Take(s) /\ UNCHANGED <<used, stale>>
Failed(s) == Nothing(s) /\ Take(s) /\ stale' = s.coins /\ open' = FALSE /\ UNCHANGED <<used, phase, pass>>
InitWallet(a, r, s) ==
  LET ok == Range(r.res) \subseteq {"ok", "err"}
      good == ok /\ "ok" \in Range(r.res) /\ (Len(r.res) = 1 => r.res = <<"ok">>)
      bad == r.res = <<"err">>
      full == IF a.restore THEN Restored(s) ELSE Same(s)
      win == full /\ Done(a, s)
      lose == Failed(s)
  IN IF phase = "init" THEN IF a.fault = "crash" THEN Restart(s) ELSE Same(s) /\ ok /\ UNCHANGED rvars
     ELSE IF a.fault = "words" THEN bad /\ lose
     ELSE IF a.fault = "crash" THEN win \/ lose
     ELSE IF ~a.restore \/ a.fault = "none" THEN good /\ win
     ELSE IF a.fault = "down" THEN bad /\ lose
     ELSE IF a.fault = "leave" THEN ok /\ (win \/ lose)
     ELSE (good /\ win) \/ (bad /\ lose)

Unlock(a, r, s) ==
  LET right == phase = "init" /\ (open \/ a.pass = pass) IN
  /\ r.res = IF right THEN "ok" ELSE "err"
  /\ open' = (open \/ right)
  /\ s.next = next /\ s.coins = coins /\ s.mks = mks /\ (IF right /\ ~open THEN ConfOK(s, stale) /\ conf \subseteq s.conf ELSE s.conf = conf)
  /\ Take(s) /\ UNCHANGED <<used, phase, pass, stale>>

Derive(a, r, s) ==
  LET known == IF a.acc \in Markets THEN a.acc \in DOMAIN mks /\ mks[a.acc] # "-" ELSE TRUE IN
  IF known /\ open
  THEN r.res = "ok" /\ r.ix = next[a.acc][1] /\ next' = [next EXCEPT ![a.acc] = <<@[1] + 1, @[2]>>] /\ UNCHANGED <<used, phase, pass, open, coins, conf, mks, stale>>
  ELSE r.res = (IF known THEN "err" ELSE "none") /\ UNCHANGED rvars

Use(a) == used' = used \cup Range(a.used) /\ UNCHANGED <<phase, pass, open, next, coins, conf, mks, stale>>
Mine(a, s) ==
  /\ used' = {IF u.n = a.n THEN [u EXCEPT !.conf = TRUE] ELSE u : u \in used}
  /\ s.coins = coins
  /\ IF open THEN ConfIn(used', s, stale) /\ conf \subseteq s.conf ELSE s.conf = conf
  /\ conf' = s.conf /\ UNCHANGED <<phase, pass, open, next, coins, mks, stale>>

Fresh == used = {} /\ phase = "none" /\ pass = "" /\ open = FALSE /\ next = None /\ coins = {} /\ conf = {} /\ mks = << >> /\ stale = {}
Reset == used' = {} /\ phase' = "none" /\ pass' = "" /\ open' = FALSE /\ next' = None /\ coins' = {} /\ conf' = {} /\ mks' = << >> /\ stale' = {}

Do(a, r, s) == CASE a.op = "reset" -> Reset
                 [] a.op = "use" -> Use(a)
                 [] a.op = "mine" -> Mine(a, s)
                 [] a.op = "init" -> InitWallet(a, r, s)
                 [] a.op = "unlock" -> Unlock(a, r, s)
                 [] a.op = "derive" -> Derive(a, r, s)
                 [] a.op = "restart" -> Restart(s)

(* what is seen *)
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x.amt + Sum(S \ {x})
OutcomeOf(o) ==
  [next |-> [acc \in Accounts |-> IF \E x \in Range(o.next) : x.acc = acc THEN LET x == CHOOSE x \in Range(o.next) : x.acc = acc IN <<x.e, x.i>> ELSE <<0, 0>>],
   coins |-> Range(o.coins), conf |-> Range(o.conf),
   mks |-> [m \in {x.acc : x \in Range(o.mks)} |-> (CHOOSE x \in Range(o.mks) : x.acc = m).q]]
Sees(o) ==
  /\ o.phase = phase /\ o.vault = (phase = "init") /\ o.open = open
  /\ \A x \in Range(o.next) : x.acc \in Accounts /\ x.ok
  /\ OutcomeOf(o) = [next |-> next, coins |-> coins, conf |-> conf, mks |-> mks]
  /\ Len(o.coins) = Cardinality(coins) /\ Len(o.mks) = Cardinality(DOMAIN mks)
  /\ \A x \in Range(o.mks) : x.fee = Fee /\ ~x.open /\ x.b = IF x.q = "-" THEN "-" ELSE "B"
  /\ LET W == {u \in Found(next) : u.acc = 1}
         B == {[a |-> u.asset, n |-> Sum({v \in W : v.asset = u.asset /\ v.conf})] : u \in W} IN
     IF ~open THEN TRUE ELSE IF next[1] = <<0, 0>> THEN Range(o.bal) \subseteq {[a |-> "err", n |-> 0]} ELSE Range(o.bal) = B

-------------------------------------------------------------------------------
OpenIsInit == open => phase = "init"
CoinsOurs == coins \subseteq Ids(Ours)
ConfMined == conf \subseteq Mined(coins)
EmptyBefore == phase = "none" => next = None /\ DOMAIN mks = {}
MarketsUsed == \A m \in DOMAIN mks : next[m] # <<0, 0>>
(* once initialised, the wallet stays what it is and gives no address twice *)
Kept == [][phase = "init" /\ phase' = "init" => pass' = pass /\ \A acc \in Accounts : next'[acc][1] >= next[acc][1] /\ next'[acc][2] >= next[acc][2]]_rvars
===============================================================================
