---------------------------- MODULE SecureStore ----------------------------
(* The encrypted key/value store: password, lock, buckets and their entries.  *)
(* st is what is on disk, locked is the process's own. A crash during a call  *)
(* leaves on disk what was there before the call or what it leaves behind.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES st,      \* [pw: password or "", bs: buckets, kv: {<<bucket, key, value>>}]; bucket "" is the root
          locked
svars == <<st, locked>>

None == [pw |-> "", bs |-> {}, kv |-> {}]
Init == st = None /\ locked = TRUE
Reset == st' = None /\ locked' = TRUE

Range(s) == {s[i] : i \in 1..Len(s)}
Reserved == "enckey"
Has(s, b, k) == \E e \in s.kv : e[1] = b /\ e[2] = k
Val(s, b, k) == IF Has(s, b, k) THEN (CHOOSE e \in s.kv : e[1] = b /\ e[2] = k)[3] ELSE ""
Exists(s, b) == b = "" \/ b \in s.bs

CanUnlock(s, a) == a.p # "nil" /\ (s.pw = "" \/ s.pw = a.p)
CanChange(s, lk, a) == ~lk /\ a.p # "nil" /\ a.np # "nil" /\ s.pw = a.p
CanMkb(s, lk, a) == ~lk /\ a.b # "" /\ a.b # Reserved /\ ~Has(s, "", a.b)
CanRmb(s, lk, a) == ~lk /\ a.b \in s.bs
CanPut(s, lk, a) == /\ ~lk /\ a.k # "" /\ a.k # Reserved /\ a.v # "" /\ Exists(s, a.b)
                    /\ ~(a.b = "" /\ a.k \in s.bs)
CanDel(s, lk, a) == /\ ~lk /\ a.k # "" /\ a.k # Reserved /\ Exists(s, a.b)
                    /\ ~(a.b = "" /\ a.k \in s.bs)
CanGet(s, lk, a) == ~lk /\ a.k # "" /\ a.k # Reserved /\ Exists(s, a.b)

Without(s, b, k) == {e \in s.kv : ~(e[1] = b /\ e[2] = k)}
\* what one call leaves on disk
Step1(s, lk, a) ==
  CASE a.op = "unlock" -> IF lk /\ s.pw = "" /\ CanUnlock(s, a) THEN [s EXCEPT !.pw = a.p] ELSE s
    [] a.op = "change" -> IF CanChange(s, lk, a) THEN [s EXCEPT !.pw = a.np] ELSE s
    [] a.op = "mkb" -> IF CanMkb(s, lk, a) THEN [s EXCEPT !.bs = @ \cup {a.b}] ELSE s
    [] a.op = "rmb" -> IF CanRmb(s, lk, a) THEN [s EXCEPT !.bs = @ \ {a.b}, !.kv = {e \in @ : e[1] # a.b}] ELSE s
    [] a.op = "put" -> IF CanPut(s, lk, a) THEN [s EXCEPT !.kv = Without(s, a.b, a.k) \cup {<<a.b, a.k, a.v>>}] ELSE s
    [] a.op = "del" -> IF CanDel(s, lk, a) THEN [s EXCEPT !.kv = Without(s, a.b, a.k)] ELSE s
    [] OTHER -> s
RECURSIVE StepAll(_, _, _)
StepAll(s, lk, q) == IF q = << >> THEN s ELSE StepAll(Step1(s, lk, Head(q)), lk, Tail(q))
\* calls made at the same time touch different entries: their order does not matter
Step(s, lk, a) == IF a.op = "par" THEN StepAll(s, lk, a.q) ELSE Step1(s, lk, a)

Do(a) ==
  /\ st' = Step(st, locked, a)
  /\ locked' = CASE a.op \in {"lock", "reopen"} -> TRUE
                 [] a.op = "unlock" -> IF locked THEN ~CanUnlock(st, a) ELSE FALSE
                 [] OTHER -> locked

Err(b) == IF b THEN "ok" ELSE "err"
Triples(L) == {<<L[i].b, L[i].k, L[i].v>> : i \in 1..Len(L)}
DataIs(r, s) == /\ Range(r.bs) = s.bs /\ Len(r.bs) = Cardinality(s.bs)
                /\ Triples(r.kv) = s.kv /\ Len(r.kv) = Cardinality(s.kv)
Ok1(a, r, s, lk) ==
  CASE a.op = "unlock" -> IF lk THEN r.err = Err(CanUnlock(s, a)) ELSE TRUE
    [] a.op = "change" -> r.err = Err(CanChange(s, lk, a))
    [] a.op = "mkb" -> r.err = Err(CanMkb(s, lk, a))
    [] a.op = "rmb" -> r.err = Err(CanRmb(s, lk, a))
    [] a.op = "put" -> r.err = Err(CanPut(s, lk, a))
    [] a.op = "del" -> r.err = Err(CanDel(s, lk, a))
    [] a.op = "get" -> r.err = Err(CanGet(s, lk, a)) /\ r.v = (IF CanGet(s, lk, a) THEN Val(s, a.b, a.k) ELSE "")
    [] a.op = "all" -> /\ r.err = Err(~lk /\ Exists(s, a.b))
                       /\ Triples(r.kv) = (IF ~lk THEN {e \in s.kv : e[1] = a.b} ELSE {})
    [] a.op = "list" -> r.err = Err(~lk) /\ Range(r.bs) = (IF lk THEN {} ELSE s.bs)
    [] OTHER -> TRUE
Ok(a, r) ==
  CASE a.op = "crash" ->      \* the disk as found if the process dies during a.of
         \E s \in {st, Step(st, locked, a.of)} : r.pw = s.pw /\ (s.pw # "" => DataIs(r, s))
    [] a.op = "par" -> \A i \in 1..Len(a.q) : Ok1(a.q[i], r.rs[i], st, locked)
    [] OTHER -> Ok1(a, r, st, locked)

ObsOk(o) == /\ o.locked = locked
            /\ ~o.clear                   \* no value ever stored is in clear on disk
            /\ ~locked => DataIs(o, st)
-----------------------------------------------------------------------------
OneValue == \A x, y \in st.kv : x[1] = y[1] /\ x[2] = y[2] => x = y
Housed == \A x \in st.kv : Exists(st, x[1]) /\ ~(x[1] = "" /\ x[2] \in st.bs)
NoReserved == Reserved \notin st.bs /\ \A x \in st.kv : x[2] # Reserved
OpenNeedsPw == ~locked => st.pw # ""
KeepsData == \A p, q \in {"p1", "p2", "p3"} : LET t == Step1(st, locked, [op |-> "change", p |-> p, np |-> q]) IN t.kv = st.kv /\ t.bs = st.bs
             /\ (t.pw # st.pw => st.pw = p /\ ~locked)
LockedQuiet == [][locked => (st'.kv = st.kv /\ st'.bs = st.bs)]_svars
=============================================================================
