------------------------------- MODULE Repos --------------------------------
(* The stored records of the daemon: trades, markets with their prices, and   *)
(* the accounts of the vault, behind the repositories and the transactions of *)
(* the repository manager. Every call is a function of the whole store, a     *)
(* transaction is the composition of its calls or nothing, a restart changes  *)
(* nothing, and a crash in the middle of a call leaves the store as it was    *)
(* before or after the call.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES db, be      \* the store; the back end: "badger" | "inmem"
rvars == <<db, be>>

T == 1..3  \* trades
A == 1..3  \* market accounts; a market's quote asset has its account's number
NoTrade == [e |-> FALSE, m |-> 0, c |-> -1, f |-> FALSE, x |-> FALSE, a |-> FALSE, n |-> 0]
NoMarket == [e |-> FALSE, q |-> 0, n |-> 0, t |-> FALSE, b |-> FALSE, p |-> 0]
Empty == [tr |-> [k \in T |-> NoTrade], mk |-> [i \in A |-> NoMarket], va |-> {}]
Init == db = Empty /\ be = "any"

MarketOf(k) == (k % 2) + 1

-----------------------------------------------------------------------------
(* One call: the store after it, and whether it reports success ("any": the   *)
(* property leaves it open).                                                  *)
Same(s, ok) == [s |-> s, ok |-> ok]
TNew(s, k) == Same(IF s.tr[k].e THEN s ELSE [s EXCEPT !.tr[k] = [NoTrade EXCEPT !.e = TRUE]], "yes")
TUpd(s, k, w) ==
  IF ~s.tr[k].e \/ w = "err" THEN Same(s, "no")
  ELSE LET t == s.tr[k]
           u == CASE w = "inc" -> [t EXCEPT !.n = @ + 1]
                  [] w = "accept" -> [t EXCEPT !.m = MarketOf(k), !.c = 2, !.a = TRUE]
                  [] w = "complete" -> [t EXCEPT !.c = 3, !.x = TRUE]
                  [] w = "settle" -> [t EXCEPT !.c = 4]
                  [] w = "expire" -> [t EXCEPT !.c = 5, !.f = TRUE]
                  [] w = "fail" -> [t EXCEPT !.f = TRUE]
       IN Same([s EXCEPT !.tr[k] = u], "yes")
MNew(s, i) == Same(IF s.mk[i].e THEN s ELSE [s EXCEPT !.mk[i] = [NoMarket EXCEPT !.e = TRUE, !.b = TRUE]], "yes")
MUpd(s, i, w) ==
  IF ~s.mk[i].e \/ w = "err" THEN Same(s, "no")
  ELSE LET m == s.mk[i]
           u == CASE w = "inc" -> [m EXCEPT !.n = @ + 1]
                  [] w = "fund" -> [m EXCEPT !.q = i]
                  [] w = "plug" -> [m EXCEPT !.b = FALSE]
                  [] w = "bal" -> [m EXCEPT !.b = TRUE]
       IN Same([s EXCEPT !.mk[i] = u], "yes")
MSet(s, i, open) ==   \* by quote asset
  IF ~(s.mk[i].e /\ s.mk[i].q = i) THEN Same(s, "any")
  ELSE IF open /\ ~s.mk[i].t /\ ~s.mk[i].b /\ s.mk[i].p = 0 THEN Same(s, "no")
  ELSE Same([s EXCEPT !.mk[i].t = open], "yes")
MPrice(s, i, p, done) ==
  IF ~s.mk[i].e THEN Same(s, "any")
  ELSE IF s.mk[i].q = 0 THEN (IF done THEN Same([s EXCEPT !.mk[i].p = p], "any") ELSE Same(s, "any"))
  ELSE Same([s EXCEPT !.mk[i].p = p], "yes")
MDel(s, i) == Same([s EXCEPT !.mk[i] = NoMarket], "yes")
VAcc(s, i) == Same([s EXCEPT !.va = @ \cup {i}], "yes")

(* done: what the call reported (for the one case left open) *)
One(s, a, done) ==
  CASE a.op = "tNew" -> TNew(s, a.k)
    [] a.op = "tUpd" -> TUpd(s, a.k, a.w)
    [] a.op = "mNew" -> MNew(s, a.i)
    [] a.op = "mUpd" -> MUpd(s, a.i, a.w)
    [] a.op = "mOpen" -> MSet(s, a.i, TRUE)
    [] a.op = "mClose" -> MSet(s, a.i, FALSE)
    [] a.op = "mPrice" -> MPrice(s, a.i, a.p, done)
    [] a.op = "mDel" -> MDel(s, a.i)
    [] a.op = "vAcc" -> VAcc(s, a.i)
    [] OTHER -> Same(s, "yes")

(* the calls of a transaction in order; the first that fails, or the last step of the function, aborts them all *)
RECURSIVE Fold(_, _)
Fold(s, q) == IF q = << >> THEN Same(s, "yes")
              ELSE LET r == One(s, Head(q), TRUE) IN IF r.ok = "no" THEN Same(s, "no") ELSE Fold(r.s, Tail(q))
Tx(s, a) == LET r == Fold(s, a.q) IN IF r.ok = "yes" /\ a.end = "commit" THEN r ELSE Same(s, "no")
Call(s, a, done) == IF a.op \in {"tx", "ptx"} THEN Tx(s, a) ELSE One(s, a, done)

(* two calls, one of them made while the other was under way, act as if made one after the other *)
Orders(s, a, b) ==
  LET ab1 == Call(s, a, TRUE)  ab2 == Call(ab1.s, b, TRUE)
      ba1 == Call(s, b, TRUE)  ba2 == Call(ba1.s, a, TRUE)
  IN {[s |-> ab2.s, a |-> ab1.ok, b |-> ab2.ok], [s |-> ba2.s, a |-> ba2.ok, b |-> ba1.ok]}
Middles(s, a, b) == {s, Call(s, a, TRUE).s, Call(s, b, TRUE).s} \cup {o.s : o \in Orders(s, a, b)}

(* calls made at the same time that commute *)
RECURSIVE All(_, _)
All(s, q) == IF q = << >> THEN s ELSE All(Call(s, Head(q), TRUE).s, Tail(q))

Reset(b) == db' = Empty /\ be' = b
Has(a, f) == f \in DOMAIN a
Do(a, done) ==
  /\ CASE a.op = "mid" -> \E o \in Orders(db, a.a, a.b) : db' = o.s
       [] a.op = "par" -> db' = All(db, a.q)
       [] OTHER -> db' = Call(db, a, done).s
  /\ UNCHANGED be

-----------------------------------------------------------------------------
(* results *)
Fits(ok, err) == ok = "any" \/ (ok = "yes") = (err = "ok")
OkDo(a, r) ==
  CASE a.op = "mid" -> \E o \in Orders(db, a.a, a.b) : o.s = db' /\ Fits(o.a, r.a) /\ Fits(o.b, r.b)
    [] a.op = "par" -> \A i \in 1..Len(a.q) : r.rs[i] = "ok"
    [] OTHER -> Fits(Call(db, a, r.err = "ok").ok, r.err)

(* the observation o of the store s: every record by its key, and every other lookup *)
Seq2Set(q) == {q[i] : i \in 1..Len(q)}
SameList(q, S) == Len(q) = Cardinality(S) /\ Seq2Set(q) = S
Max0(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Sees(o, s) ==
  LET Tr == {k \in T : s.tr[k].e}   Mk == {i \in A : s.mk[i].e} IN
  /\ SameList(o.all, Tr)
  /\ \A k \in T : o.tr[k] = s.tr[k]
  /\ \A i \in 1..2 : SameList(o.bm[i], {k \in Tr : s.tr[k].m = i})
  /\ \A i \in 1..2 : SameList(o.dn[i], {k \in Tr : s.tr[k].m = i /\ s.tr[k].c >= 3 /\ ~s.tr[k].f})
  /\ \A k \in T : o.ba[k] = IF s.tr[k].a THEN k ELSE 0
  /\ \A k \in T : o.bx[k] = IF s.tr[k].x THEN k ELSE 0
  /\ SameList(o.mall, Mk) /\ SameList(o.mopen, {i \in Mk : s.mk[i].t})
  /\ \A i \in A : o.mk[i] = s.mk[i]
  /\ \A i \in A : o.bq[i] = IF s.mk[i].e /\ s.mk[i].q = i THEN i ELSE 0
  /\ o.last = Max0(Mk)
  /\ SameList(o.va, s.va)

(* what the function of a transaction saw inside it, just before it ended *)
Inside(a, r) == Has(r, "in") => Sees(r.in, Fold(db, a.q).s)

(* an image of the disk taken while call a was under way *)
CrashOk(a, o) ==
  CASE a.op = "mid" -> \E s \in Middles(db, a.a, a.b) : Sees(o, s)
    [] a.op = "par" -> \E S \in SUBSET (1..Len(a.q)) :
                         Sees(o, All(db, [j \in 1..Cardinality(S) |-> a.q[CHOOSE x \in S : Cardinality({y \in S : y <= x}) = j]]))
    [] OTHER -> \E s \in {db, Call(db, a, TRUE).s} : Sees(o, s)

-----------------------------------------------------------------------------
TypeOK == \A k \in T : ~db.tr[k].e => db.tr[k] = NoTrade
NoOpenUnfunded == \A i \in A : db.mk[i].t => db.mk[i].q = i
=============================================================================
