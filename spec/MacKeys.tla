------------------------------ MODULE MacKeys ------------------------------
(* The store of macaroon root keys: password, lock and one key per id. Keys   *)
(* are abstract generation numbers; a macaroon remembers the generation of    *)
(* the key it was baked with.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES st,      \* on disk: [pw, keys: id -> generation, n: generations used]
          open,    \* "closed", "locked" or "open"
          macs     \* every macaroon baked in this history: <<id, generation>>
mvars == <<st, open, macs>>

None == [pw |-> "", keys |-> << >>, n |-> 0]
Init == st = None /\ open = "locked" /\ macs = << >>
Reset == st' = None /\ open' = "locked" /\ macs' = << >>

Range(s) == {s[i] : i \in 1..Len(s)}
Default == "0"
Reserved == "enckey"
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Open == open = "open"

CanUnlock(s, a) == open = "locked" /\ a.p # "nil" /\ (s.pw = "" \/ s.pw = a.p)
CanChange(s, a) == Open /\ a.p # "nil" /\ a.np # "nil" /\ s.pw = a.p /\ Default \in DOMAIN s.keys
CanBake(s, a) == Open /\ a.id # "" /\ a.id # Reserved
CanDel(s, a) == Open /\ a.id \notin {"", Default, Reserved}
Fresh(s, id) == [s EXCEPT !.keys = Put(@, id, s.n + 1), !.n = @ + 1]

Step1(s, a) ==
  CASE a.op = "unlock" -> IF CanUnlock(s, a) /\ s.pw = "" THEN [s EXCEPT !.pw = a.p] ELSE s
    [] a.op = "change" -> IF CanChange(s, a) THEN [s EXCEPT !.pw = a.np] ELSE s
    [] a.op = "bake" -> IF CanBake(s, a) /\ a.id \notin DOMAIN s.keys THEN Fresh(s, a.id) ELSE s
    [] a.op = "renew" -> IF Open THEN Fresh(s, Default) ELSE s
    [] a.op = "delete" -> IF CanDel(s, a) /\ a.id \in DOMAIN s.keys THEN [s EXCEPT !.keys = Del(@, a.id)] ELSE s
    [] OTHER -> s
RECURSIVE StepAll(_, _)
StepAll(s, q) == IF q = << >> THEN s ELSE StepAll(Step1(s, Head(q)), Tail(q))
Step(s, a) == IF a.op = "par" THEN StepAll(s, a.q) ELSE Step1(s, a)

Baked(s, a) == IF a.op = "bake" /\ CanBake(st, a) THEN << <<a.id, s.keys[a.id]>> >> ELSE << >>
RECURSIVE BakedAll(_, _)
BakedAll(s, q) == IF q = << >> THEN << >> ELSE Baked(s, Head(q)) \o BakedAll(s, Tail(q))

Do(a) ==
  /\ st' = Step(st, a)
  /\ open' = CASE a.op = "close" -> "closed" [] a.op = "reopen" -> "locked"
               [] a.op = "unlock" -> IF CanUnlock(st, a) THEN "open" ELSE open
               [] OTHER -> open
  /\ macs' = macs \o (IF a.op = "par" THEN BakedAll(Step(st, a), a.q) ELSE Baked(Step(st, a), a))

Valid(s, m) == m[1] \in DOMAIN s.keys /\ s.keys[m[1]] = m[2]
ValidSet(s) == {i \in 1..Len(macs) : Valid(s, macs[i])}
Err(b) == IF b THEN "ok" ELSE "err"
Ok1(a, r) ==
  CASE a.op = "unlock" -> r.err = Err(CanUnlock(st, a))
    [] a.op = "change" -> r.err = Err(CanChange(st, a))
    [] a.op = "bake" -> r.err = Err(CanBake(st, a))
    [] a.op = "renew" -> r.err = Err(Open)
    [] a.op = "delete" -> r.err = Err(CanDel(st, a)) /\ (r.err = "ok" => r.del = (a.id \in DOMAIN st.keys))
    [] a.op = "list" -> r.err = Err(Open) /\ Range(r.ids) = (IF Open THEN DOMAIN st.keys ELSE {}) /\ r.stable
    [] a.op = "validate" -> a.m \in 1..Len(macs) => r.err = Err(Open /\ Valid(st, macs[a.m]))
    [] a.op = "get" -> r.err = Err(Open /\ a.id \in DOMAIN st.keys)
    [] OTHER -> TRUE
Ok(a, r) ==
  CASE a.op = "crash" -> \E s \in {st, Step(st, a.of)} : r.pw = s.pw /\ (s.pw # "" => Range(r.valid) = ValidSet(s))
    [] a.op = "par" -> \A i \in 1..Len(a.q) : Ok1(a.q[i], r.rs[i])
    [] OTHER -> Ok1(a, r)
\* every macaroon ever baked is accepted exactly when its key is the current one and the store is open
ObsOk(o) == Range(o.valid) = (IF Open THEN ValidSet(st) ELSE {}) /\ ~o.clear
-----------------------------------------------------------------------------
OpenNeedsPw == Open => st.pw # ""
NoReserved == Reserved \notin DOMAIN st.keys
Unique == \A x, y \in DOMAIN st.keys : x # y => st.keys[x] # st.keys[y]
RekeyKeeps == \A p, q \in {"p1", "p2"} : Step1(st, [op |-> "change", p |-> p, np |-> q]).keys = st.keys
=============================================================================
