------------------------------- MODULE Swap_mc --------------------------------
(* Bounded worlds for model checking and for generating scripts. The prices of *)
(* the model are simplified (2 quote units for 1 base unit); the driver        *)
(* computes the real amounts of a script from the real quotes.                 *)
EXTENDS Swap, Json
VARIABLE hist
CONSTANTS SimDepth,  \* 0: small world for exhaustive search
          Faults,    \* the store accesses that may fail, counted from the start of an action
          Plain,     \* all the other actions
          Free       \* any covering coins may be selected (design check), or one choice of them (script generation)
Small == SimDepth = 0

C(acc, asset, amt, conf) == [acc |-> acc, asset |-> asset, amt |-> amt, conf |-> conf]
Rich == << C(0, "B", 90000, TRUE), C(0, "B", 40000, TRUE), C(0, "B", 70000, TRUE), C(5, "B", 10000000, TRUE), C(5, "B", 6000000, TRUE),
           C(5, "Q1", 20000000, TRUE), C(5, "Q1", 12000000, TRUE), C(6, "B", 9000000, TRUE), C(6, "Q2", 18000000, TRUE), C(6, "B", 3000000, FALSE) >>
Poor == << C(0, "B", 450, TRUE), C(0, "B", 430, TRUE), C(0, "B", 800, TRUE), C(0, "B", 300, TRUE), C(0, "B", 5200, FALSE), C(5, "B", 4000000, TRUE),
           C(5, "B", 6000000, TRUE), C(5, "B", 5000000, TRUE), C(5, "Q1", 16000000, TRUE), C(5, "Q1", 14000000, TRUE), C(6, "Q2", 8000000, TRUE), C(6, "B", 4000000, TRUE) >>
One  == << C(0, "B", 60000, TRUE), C(5, "B", 8000000, TRUE), C(5, "Q1", 16000000, TRUE), C(6, "B", 8000000, TRUE), C(6, "Q2", 16000000, TRUE) >>
R0(cs, f, p) == [op |-> "reset", coins |-> cs, fee |-> f, plug |-> p]
Resets == IF Small THEN {R0(One, 25, FALSE), R0(Rich, 0, TRUE)}
          ELSE {R0(cs, f, p) : cs \in {Rich, Poor, One}, f \in {0, 25, 300}, p \in BOOLEAN}

P(k, m, d, kind, size, off, fq) == [op |-> "propose", k |-> k, m |-> m, dir |-> d, kind |-> kind, size |-> size, off |-> off, fq |-> fq, steal |-> 0]
Ks == IF Small THEN {1, 2} ELSE 1..6
Proposals ==
  IF Small THEN UNION {
     {P(k, 1, d, "ok", 1000000, 100, FALSE) : d \in {"buy", "sell"}} \cup
     (IF k = 1 THEN {P(1, 1, d, x, 1000000, 100, FALSE) : d \in {"buy", "sell"}, x \in {"swapped", "foreignR", "foreignP", "wrongbase", "unknown"}} \cup
       {P(1, 1, "buy", x, 1000000, 100, FALSE) : x \in {"badpset", "badkey", "nokey", "nilkeys", "nooutkey", "nocoin"}} \cup
       {P(1, 1, d, "ok", 700000, o, fq) : d \in {"buy", "sell"}, o \in {88, 91, 109, 113}, fq \in BOOLEAN} \cup
       {P(1, 1, d, "ok", s, 100, FALSE) : d \in {"buy", "sell"}, s \in {12000000, 17000000, 8000000, 7900000}}
      ELSE {P(2, 1, "sell", "ok", 2000000, 100, TRUE), P(2, 2, "buy", "ok", 1000000, 100, FALSE), P(2, 1, "buy", "ok", 6500000, 100, FALSE)}) : k \in Ks}
  ELSE {P(k, m, d, "ok", s, o, fq) : k \in Ks, m \in {1, 2}, d \in {"buy", "sell"}, s \in {900000, 2500000, 7000000}, o \in {100, 93, 107}, fq \in BOOLEAN}
CompleteKinds == {"pset", "hex", "unsigned", "tampered", "tamperedhex", "stripped", "otherhex", "garbage", "emptytx", "noid", "badid", "down", "nil"}
Dts == IF Small THEN {119, 120, 200} ELSE {30, 119, 150, 400}
Faulty ==
  {[op |-> "confirm", k |-> k, at |-> 1000 + k, fault |-> f] : k \in Ks, f \in Faults} \cup
  {[op |-> "fail", k |-> k, kind |-> "ok", fault |-> f] : k \in Ks, f \in Faults \cap 1..3} \cup
  {[op |-> "deposit", n |-> n, amt |-> 1500000 + n, fault |-> f] : n \in {1, 2}, f \in Faults} \cup
  {[op |-> "propose", k |-> k, m |-> 1, dir |-> d, kind |-> "ok", size |-> 2000000, off |-> 100, fq |-> FALSE, steal |-> 0, fault |-> f] :
     k \in Ks, d \in {"buy", "sell"}, f \in Faults}
Dep(n) == [op |-> "deposit", n |-> n, amt |-> 1500000 + n]
Basic == {P(k, 1, d, "ok", 2000000, 100, FALSE) : k \in Ks, d \in {"buy", "sell"}} \cup
         {[op |-> "complete", k |-> k, kind |-> "pset"] : k \in Ks} \cup {[op |-> "fail", k |-> k, kind |-> "ok"] : k \in Ks} \cup
         {[op |-> "confirm", k |-> k, at |-> 1000 + k] : k \in Ks} \cup {[op |-> x] : x \in {"observe", "restart"}} \cup {[op |-> "tick", dt |-> 200], Dep(1)}
Actions == Faulty \cup IF ~Plain THEN Basic ELSE
  Proposals \cup {[op |-> "complete", k |-> k, kind |-> x] : k \in Ks, x \in IF Small THEN CompleteKinds ELSE {"pset", "hex", "down", "tampered"}} \cup
  {[op |-> "fail", k |-> k, kind |-> x] : k \in Ks, x \in IF Small THEN {"ok", "noid", "badid"} ELSE {"ok"}} \cup
  {[op |-> "confirm", k |-> k, at |-> 1000 + k] : k \in Ks \cup {0}} \cup
  {[op |-> "tick", dt |-> d] : d \in Dts} \cup {[op |-> x] : x \in {"lock", "unlock", "observe", "restart"}} \cup
  {[op |-> x, m |-> 1] : x \in {"open", "close"}} \cup {Dep(1), Dep(2)}

(* what the model knows of a proposal's amounts *)
Price == 2
Full(a) ==
  IF a.op # "propose" THEN a
  ELSE LET base == IF a.fq THEN ((a.size \div Price) \div 100) * a.off ELSE a.size
           quote == IF a.fq THEN a.size ELSE ((a.size * Price) \div 100) * a.off
           out == IF a.dir = "buy" THEN base ELSE quote
           has == Balance(Acc(a), IF a.dir = "buy" THEN "B" ELSE Q(a.m)) > out
           quoted == KnownMarket(a) /\ a.m \in open /\ ~locked /\ has
           p0 == IF a.dir = "buy" THEN Q(a.m) ELSE "B"
           r0 == IF a.dir = "buy" THEN "B" ELSE Q(a.m)
           swap == a.kind = "swapped"
       IN [op |-> "propose", k |-> a.k, m |-> a.m, dir |-> a.dir, kind |-> a.kind, from |-> now, to |-> now, base |-> base, quote |-> quote,
           q1 |-> IF quoted THEN base * Price ELSE -1, q2 |-> IF quoted THEN quote \div Price ELSE -1,
           bq |-> <<Balance(Acc(a), "B"), Balance(Acc(a), Q(a.m))>>,
           p |-> IF swap THEN r0 ELSE IF a.kind = "foreignP" THEN "X" ELSE p0, r |-> IF swap THEN p0 ELSE IF a.kind = "foreignR" THEN "X" ELSE r0,
           ap |-> IF (a.dir = "buy") # swap THEN quote ELSE base, ar |-> IF (a.dir = "buy") # swap THEN base ELSE quote]
Covers(S, n) == Amount(S) >= n /\ \A i \in S : Amount(S \ {i}) < n
Fee == 600
Choices(acc, asset, n) == LET all == {S \in SUBSET Of(acc, asset) : Covers(S, n)} IN IF Free \/ all = {} THEN all ELSE {CHOOSE S \in all : \A T \in all : Cardinality(S) <= Cardinality(T)}
RECURSIVE Seqs(_)
Seqs(S) == IF S = {} THEN << >> ELSE LET i == CHOOSE i \in S : \A j \in S : i <= j IN <<i>> \o Seqs(S \ {i})
Tx(a, mk, fc) ==
  LET acc == Acc(a)  o(c, h, x, as, n) == [acc |-> c, ch |-> h, ix |-> x, asset |-> as, amt |-> n, vout |-> 0]
  IN [ins |-> <<0>> \o Seqs(mk) \o Seqs(fc), signed |-> Seqs(mk \cup fc), wrong |-> << >>, extra |-> 0, missing |-> 0, fees |-> 1, fee |-> Fee, size |-> 6000, tally |-> TRUE,
      outs |-> <<o(acc, 0, next[Pos(acc)], a.p, a.ap)>>
               \o (IF Amount(mk) > a.ar THEN <<o(acc, 1, next[Pos(acc) + 1], a.r, Amount(mk) - a.ar)>> ELSE << >>)
               \o (IF Amount(fc) > Fee THEN <<o(0, 1, next[2], "B", Amount(fc) - Fee)>> ELSE << >>)]
Replies(a, hit) ==
  IF hit THEN [hit : {TRUE}, res : CASE a.op = "propose" -> {"err"} [] a.op = "fail" -> {"fail", "err"} [] OTHER -> {"ok"}, names : {TRUE}] ELSE
  CASE a.op = "propose" ->
         LET acc == IF CanAccept(a) THEN {[res |-> "acc", names |-> TRUE, exp |-> now + Duration, tx |-> Tx(a, mk, fc)] : mk \in Choices(Acc(a), a.r, a.ar), fc \in Choices(0, "B", Fee)} ELSE {}
         IN acc \cup (IF acc # {} /\ ~Free THEN {} ELSE {[res |-> x, names |-> TRUE] : x \in {"rej", "err"}})
    [] a.op \in {"complete", "fail"} -> {[res |-> x, names |-> TRUE] : x \in {"ok", "fail", "err"}}
    [] OTHER -> {[res |-> "ok"]}

MCInit == \E x \in Resets : Init0(x.coins) /\ hist = <<x>>
Enabled(a) == CASE a.op = "propose" -> tr[a.k].st = "none" /\ (\A j \in Ks : j < a.k => tr[j].st # "none")
                [] a.op = "confirm" -> on /\ ~locked /\ (IF a.k = 0 THEN TRUE ELSE tr[a.k].st \in {"acc", "comp", "settled"} /\ (tr[a.k].st = "acc" => tr[a.k].mined \/ (Spendable(a.k) /\ ~Taken(a.k))))
                [] a.op = "deposit" -> on /\ ~locked /\ (a.n = 2 => dep[1] # 0)
                [] a.op = "complete" -> ~locked /\ (\E x \in {tr[a.k].st} : x # "none") /\ (Small => a.k = 1 \/ a.kind \in {"pset", "down"})
                [] a.op = "fail" -> tr[a.k].st # "none" /\ (Small => a.k = 1 \/ a.kind = "ok")
                [] a.op = "observe" -> ~on
                [] a.op = "open" -> a.m \notin open
                [] a.op = "close" -> a.m \in open /\ (Small \/ Len(hist) % 7 = 3)
                [] a.op = "lock" -> ~locked /\ (Small \/ Len(hist) % 7 = 4)
                [] a.op = "unlock" -> locked
                [] OTHER -> TRUE
Few == IF Small THEN Cardinality({k \in Slots : tr[k].st \in {"acc", "comp"}}) <= 2 /\ now <= 400 /\ Len(hist) <= 5 ELSE TRUE
MCNext == \E a \in Actions : /\ Enabled(a)
                             /\ \E f \in {Full(a)} : \E r \in Replies(f, "fault" \in DOMAIN a) : Do(f, r)
                             /\ hist' = Append(hist, a)
Spec == MCInit /\ [][MCNext]_<<svars, hist>>
Whole(S) == {{}, S}
View == <<hist[1].plug, open, locked, tr, want, dep, on, {<<i, coins[i].lock, coins[i].spent, coins[i].conf>> : i \in DOMAIN coins}, IF now > 360 THEN 360 ELSE now>>
Emit == PrintT("SCRIPT " \o ToJson(hist'))
EmitSim == Len(hist) = SimDepth => PrintT("SCRIPT " \o ToJson(hist))
===============================================================================
