------------------------------ MODULE Webhooks ------------------------------
(* The registry of webhooks and the delivery of events to them.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Topics == {"TRADE_SETTLED", "ACCOUNT_LOW_BALANCE", "ACCOUNT_WITHDRAW", "*"}
Lim == 7     \* failed posts after which an endpoint (no other) may be skipped for a while

VARIABLES pw, ready, locked,   \* the store: password ("" before the first), initialised, locked
          hooks,               \* {[id, t, e, s]}: registered webhooks: topic, endpoint, secret
          n,                   \* ids given out
          how,                 \* endpoint -> how it answers now
          fails                \* endpoint -> posts it did not answer well, as far as Lim
wvars == <<pw, ready, locked, hooks, n, how, fails>>
Ends == {"e1", "e2", "e3"}
Init == pw = "" /\ ready = FALSE /\ locked = TRUE /\ hooks = {} /\ n = 0 /\ how = [e \in Ends |-> "ok"] /\ fails = [e \in Ends |-> 0]
Reset == pw' = "" /\ ready' = FALSE /\ locked' = TRUE /\ hooks' = {} /\ n' = 0 /\ how' = [e \in Ends |-> "ok"] /\ fails' = [e \in Ends |-> 0]

Range(s) == {s[i] : i \in 1..Len(s)}
Min(a, b) == IF a < b THEN a ELSE b
For(hs, t) == {h \in hs : h.t \in {t, "*"}}
Usable == ready /\ ~locked
CanSub(a) == Usable /\ a.t \in Topics /\ a.e \in Ends
CanUnlock(a) == pw \in {"", a.p}
Pub(a) == IF locked \/ a.t \notin Topics THEN {} ELSE For(hooks, a.t)

Sub1(hs, k, a) == hs \cup {[id |-> k, t |-> a.t, e |-> a.e, s |-> a.s]}
Unsub1(hs, a) == {h \in hs : h.id # a.id}
\* the registrations left by calls made at the same time: they touch different hooks, so their order does not matter
RECURSIVE ParHooks(_, _, _)
ParHooks(hs, k, q) ==
  IF q = << >> THEN hs
  ELSE LET a == Head(q) IN
       IF a.op = "sub" /\ CanSub(a) THEN ParHooks(Sub1(hs, a.k, a), k, Tail(q))
       ELSE IF a.op = "unsub" /\ Usable /\ a.id <= k THEN ParHooks(Unsub1(hs, a), k, Tail(q))
       ELSE ParHooks(hs, k, Tail(q))
Subs(q) == Cardinality({i \in 1..Len(q) : q[i].op = "sub" /\ CanSub(q[i])})
After(a) ==
  CASE a.op = "sub" -> IF CanSub(a) THEN Sub1(hooks, n + 1, a) ELSE hooks
    [] a.op = "unsub" -> IF Usable THEN Unsub1(hooks, a) ELSE hooks
    [] a.op = "par" -> ParHooks(hooks, n, a.q)
    [] OTHER -> hooks
Failing(hs, e) == IF how[e] = "ok" THEN 0 ELSE Cardinality({h \in hs : h.e = e})
FailAdd(q) == [e \in Ends |-> LET RECURSIVE S(_)
                                  S(p) == IF p = << >> THEN 0 ELSE (IF Head(p).op = "pub" THEN Head(p).n * Failing(Pub(Head(p)), e) ELSE 0) + S(Tail(p))
                              IN Min(Lim, fails[e] + S(q))]
Do(a) ==
  /\ hooks' = After(a)
  /\ n' = n + (CASE a.op = "sub" -> IF CanSub(a) THEN 1 ELSE 0 [] a.op = "par" -> Subs(a.q) [] OTHER -> 0)
  /\ pw' = CASE a.op \in {"init", "unlock"} -> IF locked /\ pw = "" THEN a.p ELSE pw
             [] a.op = "change" -> IF ~locked /\ pw = a.p THEN a.np ELSE pw
             [] OTHER -> pw
  /\ locked' = CASE a.op \in {"lock", "reopen"} -> TRUE
                 [] a.op = "unlock" -> IF locked THEN ~CanUnlock(a) ELSE FALSE
                 [] a.op = "init" -> TRUE
                 [] OTHER -> locked
  /\ ready' = (ready \/ (a.op = "init" /\ (~locked \/ CanUnlock(a))))
  /\ how' = IF a.op = "behave" THEN [how EXCEPT ![a.e] = a.b] ELSE how
  /\ fails' = CASE a.op = "reopen" -> [e \in Ends |-> 0]
                [] a.op = "pub" -> FailAdd(<<a>>)
                [] a.op = "par" -> FailAdd(a.q)
                [] OTHER -> fails

Err(b) == IF b THEN "ok" ELSE "err"
Count(hs, e, s) == Cardinality({h \in hs : h.e = e /\ h.s = s})
Posts(L, e, s) == Cardinality({i \in 1..Len(L) : L[i].e = e /\ L[i].s = s})
\* posts L delivered one event: one per hook of must, and none but to hooks of may
Delivered(L, must, may) ==
  /\ \A i \in 1..Len(L) : L[i].e \in Ends /\ L[i].good
  /\ \A e \in Ends, s \in {L[i].s : i \in 1..Len(L)} \cup {h.s : h \in may} :
       /\ Posts(L, e, s) <= Count(may, e, s)
       /\ fails[e] + Failing(may, e) < Lim => Posts(L, e, s) >= Count(must, e, s)
\* several posts of a burst reach the limit one by one
Skip(a, e) == fails[e] >= Lim
Ok1(a, r) ==
  CASE a.op = "sub" -> r.err = Err(CanSub(a)) /\ (CanSub(a) => r.id = n + 1)
    [] a.op = "unsub" -> a.id \in {h.id : h \in hooks} /\ Usable => r.err = "ok"
    [] a.op = "pub" ->
         LET hs == Pub(a) IN
         /\ a.t \notin Topics => r.err = "err"
         /\ \A i \in 1..Len(r.posts) : r.posts[i].e \in Ends /\ r.posts[i].good
         /\ \A e \in Ends, s \in {r.posts[i].s : i \in 1..Len(r.posts)} \cup {h.s : h \in hs} :
              IF Skip(a, e) THEN Posts(r.posts, e, s) <= Count(hs, e, s) ELSE Posts(r.posts, e, s) = Count(hs, e, s)
         /\ a.t \in Topics /\ Usable /\ (\A h \in hs : how[h.e] = "ok" /\ ~Skip(a, h.e)) => r.err = "ok"
    [] a.op = "init" -> locked => r.err = Err(CanUnlock(a))
    [] a.op = "unlock" -> locked => r.err = Err(CanUnlock(a))
    [] a.op = "change" -> r.err = Err(~locked /\ pw = a.p)
    [] OTHER -> TRUE
Listed(L) == {[id |-> L[i].id, t |-> L[i].t, e |-> L[i].e, sec |-> L[i].sec] : i \in 1..Len(L)}
Same(L, hs) == Len(L) = Cardinality(hs) /\ Listed(L) = {[id |-> h.id, t |-> h.t, e |-> h.e, sec |-> h.s # ""] : h \in hs}
Anon(L) == {[t |-> L[i].t, e |-> L[i].e, sec |-> L[i].sec] : i \in 1..Len(L)}
Anon2(hs) == {[t |-> h.t, e |-> h.e, sec |-> h.s # ""] : h \in hs}
Ok(a, r) ==
  CASE a.op = "crash" ->    \* the registrations found if the process dies during a.of, then those after calling it again
         /\ \E hs \in {hooks, After(a.of)} : Len(r.l) = Cardinality(hs) /\ Anon(r.l) = Anon2(hs)
         /\ r.retried => /\ a.of.op = "unsub" => Same(r.again, After(a.of))
                         /\ a.of.op = "sub" /\ CanSub(a.of) => Len(r.again) = Len(r.l) + 1 /\ Anon(r.again) = Anon(r.l) \cup Anon2(After(a.of))
    [] a.op = "par" ->
         LET q == a.q IN
         /\ \A i \in 1..Len(q) : q[i].op = "sub" => r.rs[i].err = Err(CanSub(q[i]))
         /\ \A i \in 1..Len(q) : q[i].op = "unsub" /\ Usable /\ q[i].id \in {h.id : h \in hooks} => r.rs[i].err = "ok"
         /\ \A i \in 1..Len(q) : q[i].op = "pub" => Delivered(r.rs[i].posts, Pub(q[i]) \cap ParHooks(hooks, n, q),
               IF locked THEN {} ELSE For(hooks \cup ParHooks(hooks, n, q), q[i].t))
    [] OTHER -> Ok1(a, r)
ObsOk(o) == /\ o.locked = locked
            /\ \A t \in Topics : Same(o.lists[t], IF Usable THEN For(hooks, t) ELSE {})
-----------------------------------------------------------------------------
Unique == \A g, h \in hooks : g.id = h.id => g = h
Given == \A h \in hooks : h.id \in 1..n
Quiet == [][~Usable => hooks' = hooks]_wvars
=============================================================================
