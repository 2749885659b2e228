------------------------------ MODULE Unspents ------------------------------
(* The wallet's coin store (UTXO repository): coins are added once, then      *)
(* confirmed, reserved for a trade, released and spent. Every action is one   *)
(* repository call. "restart" is a daemon restart of the durable back end:    *)
(* coins are rebuilt from the chain, reservations persist.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES coins,   \* key -> [v, as, ad, cf, sp, fp]
          locks,   \* key -> trade id, for reserved coins
          gone,    \* keys spent before a restart: the chain no longer reports them
          backend  \* "badger" | "inmem"
uvars == <<coins, locks, gone, backend>>

Range(s) == {s[i] : i \in 1..Len(s)}
Known == DOMAIN coins
Lk(k) == IF k \in DOMAIN locks THEN locks[k] ELSE ""
Restrict(f, S) == [x \in (DOMAIN f) \cap S |-> f[x]]

Live(k)      == k \in Known /\ ~coins[k].sp
Counted(k)   == Live(k) /\ coins[k].cf
Available(k) == Counted(k) /\ Lk(k) = ""

RECURSIVE SumV(_)
SumV(S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN coins[k].v + SumV(S \ {k})

AtAddr(S, A) == {k \in S : coins[k].ad \in A}
OfAsset(S, a) == {k \in S : coins[k].as = a}

Init == coins = << >> /\ locks = << >> /\ gone = {} /\ backend = "any"

Reset(b) == /\ coins' = << >> /\ locks' = << >> /\ gone' = {} /\ backend' = b

(* the first occurrence of a key wins, within the call and against the store *)
Add(cs) ==
  LET new == {c.k : c \in Range(cs)} \ Known
      First(k) == LET i == CHOOSE i \in 1..Len(cs) : cs[i].k = k /\ \A j \in 1..(i-1) : cs[j].k # k
                  IN [v |-> cs[i].v, as |-> cs[i].as, ad |-> cs[i].ad, cf |-> cs[i].cf, sp |-> FALSE, fp |-> cs[i].fp]
  IN /\ coins' = [k \in Known \cup new |-> IF k \in Known THEN coins[k] ELSE First(k)]
     /\ UNCHANGED <<locks, gone, backend>>

Spend(ks) ==
  /\ coins' = [k \in Known |-> IF k \in Range(ks) THEN [coins[k] EXCEPT !.sp = TRUE] ELSE coins[k]]
  /\ locks' = Restrict(locks, DOMAIN locks \ (Range(ks) \cap Known))
  /\ UNCHANGED <<gone, backend>>

Confirm(ks) ==
  /\ coins' = [k \in Known |-> IF k \in Range(ks) THEN [coins[k] EXCEPT !.cf = TRUE] ELSE coins[k]]
  /\ UNCHANGED <<locks, gone, backend>>

(* a coin that is reserved keeps its holder; an unknown one is ignored *)
Lock(ks, t) ==
  LET new == {k \in Range(ks) \cap Known : k \notin DOMAIN locks /\ ~coins[k].sp}
  IN /\ locks' = [k \in DOMAIN locks \cup new |-> IF k \in new THEN t ELSE locks[k]]
     /\ UNCHANGED <<coins, gone, backend>>

Unlock(ks) ==
  /\ locks' = Restrict(locks, DOMAIN locks \ (Range(ks) \cap Known))
  /\ UNCHANGED <<coins, gone, backend>>

Restart ==
  /\ backend # "inmem"
  /\ gone' = gone \cup {k \in Known : coins[k].sp}
  /\ coins' = << >>
  /\ UNCHANGED <<locks, backend>>

Do(a) ==
  \/ a.op = "add" /\ Add(a.cs)
  \/ a.op = "spend" /\ Spend(a.ks)
  \/ a.op = "confirm" /\ Confirm(a.ks)
  \/ a.op = "lock" /\ Lock(a.ks, a.t)
  \/ a.op = "unlock" /\ Unlock(a.ks)
  \/ a.op = "restart" /\ Restart
  \/ a.op = "query" /\ UNCHANGED uvars

(* result of a call, judged in the state before it *)
CountOK(n, lo, hi) == lo <= n /\ n <= hi
Occ(ks, S) == Cardinality({i \in 1..Len(ks) : ks[i] \in S})
Ok(a, r) ==
  \/ a.op = "add" /\ r.err = "ok"
  \/ a.op = "spend" /\ r.err = "ok" /\ CountOK(r.n, Cardinality({k \in Range(a.ks) : Live(k)}), Occ(a.ks, Known))
  \/ a.op = "confirm" /\ r.err = "ok" /\ CountOK(r.n, Cardinality({k \in Range(a.ks) : k \in Known /\ ~coins[k].cf}), Occ(a.ks, Known))
  \/ a.op = "lock" /\ r.err = "ok" /\ CountOK(r.n, Cardinality({k \in Range(a.ks) : Live(k) /\ Lk(k) = ""}), Occ(a.ks, Known))
  \/ a.op = "unlock" /\ r.err = "ok" /\ CountOK(r.n, Cardinality({k \in Range(a.ks) \cap Known : Lk(k) # ""}), Occ(a.ks, Known))
  \/ a.op = "restart"
  \/ a.op = "query" /\
       LET A == Range(a.addrs) IN
       /\ Range(r.avail) = {k \in Known : Available(k)} /\ Len(r.avail) = Cardinality(Range(r.avail))
       /\ Range(r.availFor) = AtAddr({k \in Known : Available(k)}, A) /\ Len(r.availFor) = Cardinality(Range(r.availFor))
       /\ Range(r.unspentsFor) = AtAddr({k \in Known : Counted(k)}, A) /\ Len(r.unspentsFor) = Cardinality(Range(r.unspentsFor))
       /\ Range(r.allFor) = AtAddr(Known, A) /\ Len(r.allFor) = Cardinality(Range(r.allFor))
       /\ r.bal = SumV(OfAsset(AtAddr({k \in Known : Counted(k)}, A), a.asset))
       /\ r.ubal = SumV(OfAsset(AtAddr({k \in Known : Available(k)}, A), a.asset))
       /\ r.get = IF a.k \in Known THEN [coins[a.k] EXCEPT !.sp = coins[a.k].sp] @@ [lk |-> IF coins[a.k].sp THEN "" ELSE Lk(a.k)]
                  ELSE [none |-> TRUE]

(* what the driver can see after each call *)
Obs == [k \in Known |-> coins[k] @@ [lk |-> IF coins[k].sp THEN "" ELSE Lk(k)]]

-----------------------------------------------------------------------------
(* properties *)
SpentForever == [][\A k \in Known : coins[k].sp => (k \in DOMAIN coins' => coins'[k].sp)]_uvars
ImmutableData == [][\A k \in Known : k \in DOMAIN coins' =>
                     /\ coins'[k].v = coins[k].v /\ coins'[k].as = coins[k].as
                     /\ coins'[k].ad = coins[k].ad /\ coins'[k].fp = coins[k].fp]_uvars
HolderStable == [][\A k \in DOMAIN locks : k \in DOMAIN locks' => locks'[k] = locks[k]]_uvars
ReservedNeverAvailable == \A k \in Known : ~(Available(k) /\ (k \in DOMAIN locks \/ coins[k].sp))
UnlockedWithinTotal == \A x \in {coins[k].as : k \in Known} :
   SumV(OfAsset({k \in Known : Available(k)}, x)) <= SumV(OfAsset({k \in Known : Counted(k)}, x))
LocksOnKnown == backend = "inmem" => DOMAIN locks \subseteq Known
=============================================================================
