------------------------------- MODULE Restore_mc -------------------------------
(* Bounded worlds for model checking and for generating scripts. *)
EXTENDS Restore, Json
VARIABLE hist
CONSTANTS SimDepth, Depth
Small == SimDepth = 0

ASSUME \A g \in 1..4 : \A S \in SUBSET (0..9) : Scan(S, g, 0, -1) = Last(Reach(S, g))
ASSUME \A g \in 1..4 : \A S \in SUBSET (0..9) : Reach(Reach(S, g), g) = Reach(S, g)

Quote(acc) == CASE acc = 5 -> "Q1" [] acc = 6 -> "Q2" [] OTHER -> "Q3"
Patterns == {{0}, {1}, {0, 1, 2}, {3}, {19}, {20}, {0, 20}, {0, 21}, {19, 39}, {5, 24, 44}, {2, 4}}
(* what is at index x of pattern P: everything spent; coins of the base asset; of both assets; the last unconfirmed; of three assets *)
Coin(acc, ch, P, v, x, n) ==
  LET k == Cardinality({y \in P : y < x})
      asset == CASE v = 1 -> "B" [] v = 2 -> (IF k % 2 = 0 THEN Quote(acc) ELSE "B") [] v = 3 -> (IF x = Max(P) THEN Quote(acc) ELSE "B") [] OTHER -> (IF k % 3 = 0 THEN "B" ELSE IF k % 3 = 1 THEN Quote(acc) ELSE "Q3")
  IN [acc |-> acc, ch |-> ch, ix |-> x, n |-> IF v = 0 THEN 0 ELSE n + k, asset |-> IF v = 0 THEN "B" ELSE asset, amt |-> 1000 + 10 * (n + k), conf |-> v # 3 \/ x # Max(P)]
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN << >> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN << m >> \o SortSet(S \ {m})
Uses(acc, ch, P, v, n) == LET q == SortSet(P) IN [i \in DOMAIN q |-> Coin(acc, ch, P, v, q[i], n)]
Ops(h) == [op |-> "use", used |-> h]
NextN == 1 + Cardinality(Ids(Ours))
A(x) == [op |-> x]

(* directed worlds of the exhaustive search *)
W1 == Uses(0, 0, {0}, 1, 1) \o Uses(1, 0, {0, 2}, 2, 2) \o Uses(5, 0, {0, 1}, 2, 4)
W2 == Uses(0, 1, {3}, 0, 1) \o Uses(0, 0, {0, 20}, 1, 1) \o Uses(5, 0, {0, 1, 2}, 4, 3) \o Uses(6, 1, {19}, 3, 6) \o Uses(7, 0, {1}, 1, 7)
W3 == Uses(1, 1, {0, 1}, 3, 1) \o Uses(5, 0, {0}, 1, 3) \o Uses(5, 1, {5, 24}, 3, 4) \o Uses(6, 0, {0}, 0, 6) \o Uses(7, 0, {0, 1}, 2, 6)
W4 == << >>
Worlds == {W1, W2, W3, W4}

Faults == {[fault |-> "none", at |-> 0], [fault |-> "words", at |-> 0], [fault |-> "down", at |-> 0]} \cup
          {[fault |-> f, at |-> k] : f \in {"addrtxs"}, k \in {1, 25, 60, 90, 130}} \cup {[fault |-> "unspents", at |-> k] : k \in {1, 2, 5}} \cup
          {[fault |-> "leave", at |-> k] : k \in {1, 2, 3, 6}} \cup {[fault |-> "crash", at |-> k] : k \in 1..9}
I(f, re, p, tw) == [op |-> "init", restore |-> re, fault |-> f.fault, at |-> f.at, pass |-> p, twice |-> tw]
Inits == {I(f, TRUE, p, FALSE) : f \in Faults, p \in {"p", "q"}} \cup {I([fault |-> "none", at |-> 0], re, "p", TRUE) : re \in BOOLEAN} \cup
         {I([fault |-> f, at |-> 1], FALSE, p, FALSE) : f \in {"none", "words", "down", "leave", "crash"}, p \in {"p", "q"}}
Steps == Inits \cup {[op |-> "unlock", pass |-> p] : p \in {"p", "q"}} \cup {[op |-> "derive", acc |-> x] : x \in {0, 1, 5, 6}} \cup {A("restart")} \cup
         {[op |-> "mine", n |-> u.n] : u \in {v \in Ours : ~v.conf}}
Late == {Ops(Uses(acc, 0, {x}, v, NextN)) : acc \in {0, 1, 5}, x \in {0, 1}, v \in {1, 3}}

(* the outcomes of the daemon as it is meant to be *)
Nx == [acc \in Accounts |-> <<Last(Reach(At(acc, 0), Gap)) + 1, Last(Reach(At(acc, 1), Gap)) + 1>>]
Whole == LET c == Ids({u \in Found(Nx) : u.acc # 1}) \cup coins IN
  [next |-> Nx, coins |-> c, conf |-> Mined(c),
   mks |-> [m \in {x \in Markets : Nx[x] # <<0, 0>>} |-> LET S == Assets(Nx, m) IN IF "B" \in S /\ Cardinality(S) = 2 THEN CHOOSE q \in S : q # "B" ELSE "-"]]
Still == [next |-> next, coins |-> coins, conf |-> conf, mks |-> mks]
Seen == [Still EXCEPT !.conf = Mined(coins)]
Again == LET c == coins \cup IF phase = "none" THEN {} ELSE Ids(Found(next)) IN [Still EXCEPT !.coins = c, !.conf = IF phase = "none" THEN conf ELSE Mined(c)]
Outs(a) == CASE a.op = "init" -> {Whole, Still, Again} [] a.op = "unlock" -> {Still, Seen} [] a.op = "restart" -> {Again}
             [] a.op = "mine" -> {Still, [Still EXCEPT !.conf = IF a.n \in coins THEN @ \cup {a.n} ELSE @]} [] OTHER -> {Still}
Rs(a) == CASE a.op = "init" -> {[res |-> <<"ok">>], [res |-> <<"err">>], [res |-> <<"ok", "ok">>]}
           [] a.op = "derive" -> {[res |-> x, ix |-> next[a.acc][1]] : x \in {"ok", "err", "none"}}
           [] OTHER -> {[res |-> x] : x \in {"ok", "err"}}
Step(a) == \E s \in Outs(a) : \E r \in Rs(a) : Do(a, r, s)

Init == Fresh /\ hist = << A("reset") >>
Random == {Ops(Uses(acc, ch, P, v, NextN)) : acc \in {0, 1, 5, 6, 7}, ch \in {0, 1}, P \in Patterns, v \in 0..4}
Next == IF Small
        THEN IF Len(hist) = 1 THEN \E w \in Worlds : Use(Ops(w)) /\ hist' = Append(hist, Ops(w))
             ELSE Len(hist) < Depth /\ \E a \in Steps \cup Late : Step(a) /\ hist' = Append(hist, a)
        ELSE IF Len(hist) < 10
             THEN \E a \in Random : (a.used[1].acc < 6 \/ Reach(At(a.used[1].acc - 1, 0), Gap) \cup Reach(At(a.used[1].acc - 1, 1), Gap) # {}) /\ At(a.used[1].acc, a.used[1].ch) = {}
                                     /\ Use(a) /\ hist' = Append(hist, a)
             ELSE \E k \in 1..4 : \E a \in (CASE k = 1 -> Inits [] k = 2 -> Steps \ Inits [] k = 3 -> {I([fault |-> "none", at |-> 0], TRUE, "p", FALSE), [op |-> "unlock", pass |-> "p"]} [] OTHER -> Late) :
                    Step(a) /\ hist' = Append(hist, a)
Spec == Init /\ [][Next]_<<rvars, hist>>
View == <<rvars, Len(hist)>>
Emit == PrintT("SCRIPT " \o ToJson(hist'))
EmitSim == Len(hist) = SimDepth => PrintT("SCRIPT " \o ToJson(hist))
===============================================================================
