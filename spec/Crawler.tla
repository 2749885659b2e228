------------------------------ MODULE Crawler ------------------------------
(* The chain watcher: what is watched, what the explorer answers, and what is *)
(* reported. Time passes in rounds (polling intervals).                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Keys == {"t1", "t2", "a1", "a2"}       \* transactions and addresses
Lim == 7         \* failures of one key after which asking for it may pause
Pause == 62      \* rounds such a pause may last once the explorer answers again
VARIABLES on,      \* not stopped yet
          obs,     \* watched keys
          ans,     \* key -> what the explorer answers
          fail,    \* key -> failures since it is watched, as far as Lim
          rest,    \* key -> rounds during which its reports may be missing
          tail,    \* key -> rounds during which a slow answer from before may come
          late     \* keys no longer watched with a slow answer still on its way
cvars == <<on, obs, ans, fail, rest, tail, late>>
Zero == [k \in Keys |-> 0]
First == [k \in Keys |-> IF k \in {"t1", "t2"} THEN "un" ELSE "1"]
Init == on = TRUE /\ obs = {} /\ ans = First /\ fail = Zero /\ rest = Zero /\ tail = Zero /\ late = {}
Reset == on' = TRUE /\ obs' = {} /\ ans' = First /\ fail' = Zero /\ rest' = Zero /\ tail' = Zero /\ late' = {}

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Range(s) == {s[i] : i \in 1..Len(s)}
Bad(k) == ans[k] = "err"
Slow(k) == ans[k] = "slow"
Pending(k) == Slow(k) \/ tail[k] > 0
\* watched keys and late ones after a sequence of calls
RECURSIVE Calls(_, _)
Calls(q, s) ==
  IF q = << >> THEN s
  ELSE LET a == Head(q) IN
       Calls(Tail(q), CASE a.op = "add" /\ s.on -> [s EXCEPT !.obs = @ \cup {a.k}, !.fresh = IF a.k \in s.obs THEN @ ELSE @ \cup {a.k}]
                        [] a.op = "del" -> [s EXCEPT !.obs = @ \ {a.k}, !.late = IF a.k \in s.obs /\ Pending(a.k) THEN @ \cup {a.k} ELSE @]
                        [] OTHER -> s)
Seq1(a) == CASE a.op \in {"add", "del"} -> <<a>> [] a.op \in {"burst", "par"} -> a.q [] OTHER -> << >>
State == [on |-> on, obs |-> obs, late |-> late, fresh |-> {}]
\* of two calls about one key at the same time either may come last: a.fin says which keys ended up watched
Both(a) == {k \in Keys : a.op = "par" /\ \E i, j \in 1..Len(a.q) : a.q[i].op = "add" /\ a.q[j].op = "del" /\ a.q[i].k = k /\ a.q[j].k = k}
Do(a) ==
  LET s == Calls(Seq1(a), State)
      obs1 == IF Both(a) = {} THEN s.obs ELSE (s.obs \ Both(a)) \cup (IF on THEN Range(a.fin) \cap Both(a) ELSE {})
      late1 == IF Both(a) = {} THEN s.late ELSE s.late \cup {k \in Both(a) : Pending(k)}
      fresh == s.fresh \cup Both(a)
  IN
  /\ on' = (on /\ a.op # "stop")
  /\ obs' = IF a.op = "stop" THEN {} ELSE obs1
  /\ ans' = IF a.op = "answer" THEN [ans EXCEPT ![a.k] = a.v] ELSE ans
  /\ fail' = [k \in Keys |-> IF k \in fresh THEN 0 ELSE IF a.op = "step" /\ k \in obs /\ Bad(k) THEN Min(Lim, fail[k] + a.n + 1) ELSE fail[k]]
  /\ rest' = [k \in Keys |->
       CASE k \in fresh -> 0
         [] a.op = "answer" /\ a.k = k -> Max(IF fail[k] >= Lim THEN Pause ELSE 2, IF ans[k] = "slow" \/ a.v = "slow" THEN 5 ELSE 0)
         [] a.op = "step" -> IF Bad(k) THEN rest[k] ELSE Max(0, rest[k] - a.n)
         [] OTHER -> rest[k]]
  /\ tail' = [k \in Keys |-> CASE a.op = "answer" /\ a.k = k /\ ans[k] = "slow" -> 3
                               [] a.op = "step" -> Max(0, tail[k] - a.n)
                               [] OTHER -> tail[k]]
  /\ late' = CASE a.op = "step" -> IF a.n >= 5 THEN {} ELSE late1
               [] a.op = "stop" -> {}
               [] OTHER -> late1
N(L, k) == Cardinality({i \in 1..Len(L) : L[i].k = k})
\* what may and must be reported in n rounds
Rounds(r, n) ==
  /\ \A i \in 1..Len(r.ev) : r.ev[i].k \in Keys
  /\ \A k \in Keys :
       LET c == N(r.ev, k) IN
       IF k \in obs
       THEN /\ c <= (IF k \in late THEN 3 ELSE 0) + (IF Bad(k) /\ rest[k] = 0 THEN 0 ELSE n + 1)
            /\ ~Bad(k) /\ rest[k] = 0 => c >= (IF Slow(k) THEN (n \div 4) - 1 ELSE n - 1)
            /\ \A i \in 1..Len(r.ev) : r.ev[i].k = k /\ rest[k] = 0 /\ k \notin late => r.ev[i].v = ans[k]
            /\ Bad(k) /\ fail[k] + n < Lim => r.nq[k] >= n - 1
            /\ r.nq[k] <= n + 1
            /\ Bad(k) /\ rest[k] = 0 => r.errs[k] = r.nq[k]
       ELSE /\ c <= (IF k \in late THEN 3 ELSE 0)
            /\ r.nq[k] = 0
Ok(a, r) ==
  /\ r.panic = ""
  /\ CASE a.op = "step" -> /\ on => Rounds(r, a.n)
                           /\ ~on => r.ev = << >> /\ r.reqs = 0 /\ r.closed = 0
       [] a.op = "stop" -> /\ on => r.closed = 1
                           /\ r.after = 0
                           /\ \A k \in Keys : N(r.ev, k) <= (IF k \in obs THEN 1 ELSE 0) + (IF k \in late THEN 3 ELSE 0)
       [] OTHER -> r.closed = 0
ObsOk(o) == /\ on => \A k \in Keys : o.obs[k] = (k \in obs)
            /\ ~o.none
-----------------------------------------------------------------------------
StoppedIsQuiet == ~on => obs = {} /\ late = {}
=============================================================================
