------------------------------ MODULE Operator_mc ------------------------------
(* Bounded worlds for model checking and for generating scripts. A script says  *)
(* what the operator asks for; which coins a payment takes is up to the code.   *)
EXTENDS Operator, Json
VARIABLE hist
CONSTANTS SimDepth,  \* 0: small world for exhaustive search
          Depth      \* number of actions in a history
Small == SimDepth = 0

C(acc, asset, amt) == [acc |-> acc, asset |-> asset, amt |-> amt]
M(acc, q) == [acc |-> acc, q |-> q]
Empty == [op |-> "reset", coins |-> << >>, mks |-> << >>]
Full == [op |-> "reset",
         coins |-> << C(0, "B", 100000), C(0, "B", 60000), C(1, "B", 500000), C(1, "Q1", 300000), C(1, "B", 200000), C(5, "B", 1000000), C(5, "Q1", 2000000),
                      C(5, "B", 400000), C(6, "B", 900000), C(6, "Q2", 800000) >>,
         mks |-> << M(5, "Q1"), M(6, "Q2"), M(7, "-"), M(8, "-") >>]
Scarce == [op |-> "reset", coins |-> << C(0, "B", 700), C(0, "B", 900), C(1, "B", 50000), C(5, "B", 30000), C(5, "Q1", 40000), C(5, "Q1", 35000) >>,
           mks |-> << M(5, "Q1"), M(6, "-") >>]
Resets == {Empty, Full, Scarce}

O(acc, asset, amt) == [acc |-> acc, asset |-> asset, amt |-> amt]
T(addr, asset, amt) == [addr |-> addr, asset |-> asset, amt |-> amt]
A(x) == [op |-> x]
Ids == 1..(IF Small THEN 12 ELSE 20)
Big == 1000000000
Deposits == {[op |-> "new", n |-> n] : n \in {0, 2}} \cup {[op |-> "deposit", base |-> b, q |-> q, n |-> 1] : b \in {"ok", "other"}, q \in {"Q1", "Q3", "bad"}} \cup
            {[op |-> "deposit", base |-> "ok", q |-> "Q1", n |-> n] : n \in {-1, 3}} \cup {[op |-> "fee", n |-> n] : n \in {0, 2}} \cup {A("addr")}
Pays == {[op |-> "pay", outs |-> o, mined |-> m] : m \in BOOLEAN,
         o \in {<< O(5, "B", 700000), O(5, "Q1", 500000) >>, << O(7, "B", 600000), O(7, "Q3", 400000), O(6, "B", 5000) >>, << O(6, "B", 700000), O(6, "Q1", 50000), O(6, "Q2", 50000) >>, << O(0, "B", 80000) >>,
                << O(1, "B", 90000), O(-1, "B", 3000), O(1, "Q2", 70000) >>, << O(8, "B", 3000), O(8, "Q3", 4000) >>,
                << O(7, "B", 2000), O(7, "Q3", 4000), O(7, "Q2", 6000) >>}}
World == Pays \cup {[op |-> "mine", tx |-> t] : t \in 1..(IF Small THEN 12 ELSE 18)} \cup {[op |-> "reload", down |-> d] : d \in {"", "unspents"}} \cup {A("restart"), A("lock"), A("unlock")}
Pt == {1, 11, 12, 13, 0, -1, -2}
Claims ==
  {[op |-> "claim", base |-> "ok", q |-> q, pts |-> p, down |-> ""] : q \in {"Q1", "Q3", "bad"}, p \in {<<11, 12>>, <<11>>, <<12>>, <<11, 12, 13>>, <<11, 11>>, << >>, <<1, 2>>, <<6, 7>>}} \cup
  {[op |-> "claim", base |-> "ok", q |-> "Q3", pts |-> <<11, i>>, down |-> ""] : i \in Pt} \cup
  {[op |-> "claim", base |-> "other", q |-> "Q3", pts |-> <<11, 12>>, down |-> ""]} \cup
  {[op |-> "claim", base |-> "ok", q |-> "Q3", pts |-> <<11, 12>>, down |-> d] : d \in {"tx", "status"}} \cup
  {[op |-> "claimfee", pts |-> p, down |-> d] : p \in {<<11>>, <<11, 11>>, <<12>>, << >>, <<0>>, <<-1>>, <<-2>>, <<1>>, <<3>>}, d \in {"", "status"}}
Pairs == {<<"ok", "Q1">>, <<"ok", "Q3">>, <<"other", "Q1">>, <<"bad", "Q1">>, <<"ok", "bad">>, <<"ok", "X">>}
Edits ==
  {[op |-> x, base |-> p[1], q |-> p[2]] : x \in {"open", "close"}, p \in Pairs} \cup
  {[op |-> "pct", base |-> p[1], q |-> p[2], fee |-> 40] : p \in Pairs} \cup {[op |-> "pct", base |-> "ok", q |-> "Q1", fee |-> f] : f \in {0, -1, 9999, 10000}} \cup
  {[op |-> "fixed", base |-> p[1], q |-> p[2], fb |-> 7, fq |-> 9] : p \in Pairs} \cup
  {[op |-> "fixed", base |-> "ok", q |-> "Q1", fb |-> f[1], fq |-> f[2]] : f \in {<<0, 0>>, <<0, 5>>, <<5, 0>>, <<-1, 5>>, <<5, -1>>, <<-2, -2>>}} \cup
  {[op |-> "price", base |-> p[1], q |-> p[2], bp |-> 2, qp |-> 3] : p \in Pairs} \cup {[op |-> "price", base |-> "ok", q |-> "Q1", bp |-> f[1], qp |-> f[2]] : f \in {<<0, 1>>, <<1, 0>>, <<-1, 1>>}} \cup
  {[op |-> "strat", base |-> p[1], q |-> p[2], strat |-> "plug"] : p \in Pairs} \cup {[op |-> "strat", base |-> "ok", q |-> "Q1", strat |-> s] : s \in {"bal", "bogus"}} \cup
  {[op |-> "drop", acc |-> m] : m \in {0, 5, 7, 9}}
W(b, q, wb, wq, addr, push, rate, down) == [op |-> "withdraw", base |-> b, q |-> q, wb |-> wb, wq |-> wq, addr |-> addr, push |-> push, rate |-> rate, down |-> down]
S(outs, push, rate, down) == [op |-> "send", outs |-> outs, push |-> push, rate |-> rate, down |-> down]
Payouts ==
  {W(p[1], p[2], 1000, 2000, "f1", TRUE, 100, "") : p \in Pairs} \cup
  {W("ok", "Q1", x[1], x[2], "f1", TRUE, 100, "") : x \in {<<0, 0>>, <<300000, 0>>, <<0, 300000>>, <<1000000, 2000000>>, <<1400000, 2000000>>, <<1400001, 5>>, <<5, 2000001>>, <<30000, 40000>>, <<1, 36000>>, <<Big, 1>>, <<1, Big>>}} \cup
  {W("ok", "Q1", 5000, 6000, ad, pu, ra, dn) : ad \in {"f1", "own", "plain", "bad"}, pu \in BOOLEAN, ra \in {0, 150}, dn \in {""}} \cup
  {W("ok", "Q1", 5000, 6000, "f2", pu, 100, "broadcast") : pu \in BOOLEAN} \cup
  {S(o, TRUE, 100, "") : o \in {<< >>, <<T("f1", "B", 1000)>>, <<T("f1", "B", 1000), T("f2", "Q1", 2000)>>, <<T("f1", "B", 450000), T("f2", "B", 250000)>>, <<T("f1", "B", 700000)>>,
        <<T("f1", "B", 700001)>>, <<T("f1", "Q2", 10)>>, <<T("f1", "X", 10)>>, <<T("f1", "bad", 10)>>, <<T("f1", "B", 0)>>, <<T("f1", "B", -1)>>, <<T("f1", "B", Big)>>, <<T("own", "B", 6000), T("f1", "B", 7000)>>,
        <<T("plain", "B", 10)>>, <<T("bad", "B", 10)>>, <<T("f1", "B", 1000), T("f1", "B", 1000)>>, <<T("f1", "Q1", 300000)>>, <<T("f1", "B", 50000)>>, <<T("f1", "Q1", 5), T("f2", "Q1", -5)>>}} \cup
  {S(<<T("f1", "B", 4000), T("f1", "Q1", 5000)>>, pu, ra, dn) : pu \in BOOLEAN, ra \in {0, 200}, dn \in {"", "broadcast"}}
Keeps == {[op |-> "reserve", ids |-> i, k |-> 1] : i \in {<<1>>, <<3, 5>>, <<1, 2, 6>>, <<7>>}} \cup {[op |-> "release", ids |-> i] : i \in {<<1, 3>>, <<7, 2>>}} \cup {A("feebal"), A("walletbal")}
Wide ==
  {[op |-> "claim", base |-> "ok", q |-> q, pts |-> <<i, i + 1>>, down |-> ""] : q \in Quotes, i \in Ids} \cup {[op |-> "claim", base |-> "ok", q |-> q, pts |-> <<i>>, down |-> ""] : q \in {"Q1", "Q2"}, i \in Ids} \cup
  {[op |-> "claimfee", pts |-> <<i>>, down |-> ""] : i \in Ids} \cup {[op |-> x, base |-> "ok", q |-> q] : x \in {"open", "close"}, q \in Quotes} \cup
  {[op |-> "drop", acc |-> m] : m \in 5..8} \cup {W("ok", q, wb, wq, "f2", pu, 120, "") : q \in Quotes, wb \in {0, 250000}, wq \in {40000, 0}, pu \in BOOLEAN} \cup
  {[op |-> "reserve", ids |-> <<i, i + 2>>, k |-> 2] : i \in Ids} \cup {[op |-> "release", ids |-> <<i, i + 2>>] : i \in Ids}
Actions == Deposits \cup World \cup Claims \cup Edits \cup Payouts \cup Keeps \cup (IF Small THEN {} ELSE Wide)

(* a payment of the model takes as few coins as possible, and says which outputs are asked for *)
Reqs(a) ==
  LET to(ad) == CASE ad = "f1" -> <<1, -1>> [] ad = "f2" -> <<2, -1>> [] ad = "own" -> <<0, 1>> [] ad = "plain" -> <<1, -1>> [] OTHER -> <<99, -1>>
      r(ad, as, n) == [to |-> to(ad)[1], acc |-> to(ad)[2], ch |-> 0, ix |-> 0, asset |-> as, amt |-> n, addr |-> ad]
  IN IF a.op = "send" THEN [i \in DOMAIN a.outs |-> r(a.outs[i].addr, a.outs[i].asset, a.outs[i].amt)]
     ELSE (IF a.wb # 0 THEN <<r(a.addr, "B", a.wb)>> ELSE << >>) \o (IF a.wq # 0 THEN <<r(a.addr, a.q, a.wq)>> ELSE << >>)
Whole(a) ==
  CASE a.op = "withdraw" -> [op |-> "withdraw", base |-> a.base, q |-> a.q, addr |-> a.addr, push |-> a.push, rate |-> a.rate, down |-> a.down, reqs |-> Reqs(a)]
    [] a.op = "send" -> [op |-> "send", push |-> a.push, rate |-> a.rate, down |-> a.down, reqs |-> Reqs(a)]
    [] OTHER -> a
RECURSIVE Seqs(_)
Seqs(X) == IF X = {} THEN << >> ELSE LET i == CHOOSE i \in X : \A j \in X : i <= j IN <<i>> \o Seqs(X \ {i})
Cover(acc, asset, n) == LET all == {X \in SUBSET Avails(acc, asset) : Amount(X) >= n} IN IF all = {} THEN {} ELSE CHOOSE X \in all : \A Y \in all : Cardinality(X) <= Cardinality(Y)
Tx(f, acc) ==
  LET fee == 300 + Rate(f)
      as == Wanted(f)
      src == UNION {Cover(acc, x, Total(f, x)) : x \in as}
      fc == Cover(0, "B", fee)
      left(x) == Amount({i \in src : coins[i].asset = x}) - Total(f, x)
      ch(c, ix, x, n) == [to |-> 0, acc |-> c, ch |-> 1, ix |-> ix, asset |-> x, amt |-> n]
      o == [i \in DOMAIN f.reqs |-> Shape(f.reqs[i])]
      chB == IF "B" \in as /\ left("B") > 0 THEN <<ch(acc, nx[acc][2], "B", left("B"))>> ELSE << >>
      oth == as \ {"B"}
      y == CHOOSE y \in oth : TRUE
      chQ == IF oth # {} /\ left(y) > 0 THEN <<ch(acc, nx[acc][2] + Len(chB), y, left(y))>> ELSE << >>
  IN [ins |-> Seqs(src) \o Seqs(fc), signed |-> Seqs(src \cup fc), extra |-> 0, tally |-> TRUE, fees |-> 1, fee |-> fee, size |-> (fee * 1000) \div Rate(f),
      outs |-> o \o chB \o chQ \o (IF Amount(fc) > fee THEN <<ch(0, nx[0][2], "B", Amount(fc) - fee)>> ELSE << >>)]
Fresh == CHOOSE m \in 5..12 : ~Used(m) /\ m \notin DOMAIN mk /\ \A n \in 5..12 : (~Used(n) /\ n \notin DOMAIN mk) => m <= n
Addrs(acc, n) == [i \in 1..n |-> [acc |-> acc, ch |-> 0, ix |-> nx[acc][1] + i - 1]]
Replies(a, f) ==
  LET ok == [res |-> "ok"] err == [res |-> "err"] IN
  CASE a.op = "new" -> {err, [res |-> "ok", addrs |-> Addrs(Fresh, Count(a.n))]}
    [] a.op = "deposit" -> IF Known(a) THEN {err, [res |-> "ok", addrs |-> Addrs(Of(a.q), Count(a.n))]} ELSE {err}
    [] a.op = "fee" -> {err, [res |-> "ok", addrs |-> Addrs(0, Count(a.n))]}
    [] a.op = "addr" -> {err, [res |-> "ok", addrs |-> Addrs(1, 1)]}
    [] a.op \in {"pct", "fixed"} -> IF Known(a) THEN LET x == mk[Of(a.q)] IN
         {err, [res |-> "ok", shows |-> <<a.q, IF a.op = "pct" THEN a.fee ELSE x.fee, IF a.op = "fixed" THEN a.fb ELSE x.fb, IF a.op = "fixed" THEN a.fq ELSE x.fq>>]} ELSE {err}
    [] a.op \in {"withdraw", "send"} -> LET acc == IF a.op = "send" THEN 1 ELSE IF Known(a) THEN Of(a.q) ELSE -1 IN
         {err} \cup (IF acc >= 0 /\ f.reqs # << >> /\ (\A i \in DOMAIN f.reqs : f.reqs[i].to # 99) /\ Enough(f, acc) /\ Balance(0, "B") > 300 + Rate(f) THEN {[res |-> "ok", tx |-> Tx(f, acc)]} ELSE {})
    [] a.op \in {"feebal", "walletbal"} -> {err, [res |-> "ok", n |-> Amount(Held(0, "B")), bal |-> << >>]}
    [] OTHER -> {ok, err}
Exists(X) == \A i \in X : i > 0 => i \in DOMAIN coins
Enabled(a) ==
  CASE a.op = "pay" -> (\A o \in Range(a.outs) : o.acc >= 0 => Used(o.acc)) /\ Len(coins) < 24
    [] a.op = "mine" -> a.tx \in DOMAIN txs /\ ~txs[a.tx].mined /\ (txs[a.tx].chain \/ \A i \in txs[a.tx].ins : ~coins[i].gone)
    [] a.op \in {"claim", "claimfee"} -> Exists(Range(a.pts)) /\ (coins = << >> => Range(a.pts) \cap {-1, -2} = {})
    [] a.op \in {"reserve", "release"} -> Exists(Range(a.ids))
    [] a.op = "new" -> Cardinality({m \in 5..12 : Used(m)}) < 7
    [] a.op = "unlock" -> locked
    [] a.op = "lock" -> ~locked /\ (Small \/ Len(hist) % 5 = 3)
    [] a.op = "restart" -> Small \/ Len(hist) % 5 = 4
    [] a.op = "send" -> (\E o \in Range(a.outs) : o.addr = "own") => Used(1)
    [] a.op = "withdraw" -> a.addr = "own" => Used(1)
    [] OTHER -> TRUE
MCInit == \E w \in Resets : Init0(w) /\ hist = <<w>>
MCNext == \E a \in Actions : /\ Len(hist) <= Depth /\ Enabled(a)
                             /\ \E f \in {Whole(a)} : \E r \in Replies(a, f) : (IF r.res = "err" /\ a.op \in {"withdraw", "send"} /\ Cardinality(Replies(a, f)) > 1 /\ ~locked /\ a.down = "" THEN FALSE ELSE Do(f, r))
                             /\ hist' = Append(hist, a)
Spec == MCInit /\ [][MCNext]_<<ovars, hist>>
View == <<mk, nx, coins, txs, watch, on, locked>>
Emit == PrintT("SCRIPT " \o ToJson(hist'))
EmitSim == Len(hist) = SimDepth => PrintT("SCRIPT " \o ToJson(hist))
===============================================================================
