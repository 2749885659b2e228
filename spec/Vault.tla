------------------------------- MODULE Vault -------------------------------
(* The wallet's vault: passphrase, lock, accounts and their two chains of     *)
(* addresses. An address is a function of (seed, account, chain, index).      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES made,    \* a vault exists
          seed,    \* its seed's name
          pass,    \* current passphrase
          locked,
          cnt,     \* account -> <<number of external, number of internal addresses derived>>
          known    \* <<seed, path>> -> [ad, key]: what was derived there, ever (survives resets)
vvars == <<made, seed, pass, locked, cnt, known>>

Init == made = FALSE /\ seed = "" /\ pass = "" /\ locked = TRUE /\ cnt = << >> /\ known = << >>
Reset == made' = FALSE /\ seed' = "" /\ pass' = "" /\ locked' = TRUE /\ cnt' = << >> /\ UNCHANGED known

Range(s) == {s[i] : i \in 1..Len(s)}
Path(ac, ch, i) == ToString(ac) \o "'/" \o ToString(ch) \o "/" \o ToString(i)
Cnt(ac) == IF ac \in DOMAIN cnt THEN cnt[ac] ELSE <<0, 0>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Open == made /\ ~locked
\* what the accounts hold: <<account, chain, index>>
Slots(ac) == {<<ac, 0, i>> : i \in 0..(Cnt(ac)[1] - 1)} \cup {<<ac, 1, i>> : i \in 0..(Cnt(ac)[2] - 1)}
AllSlots == UNION {Slots(ac) : ac \in DOMAIN cnt}
K(s, sl) == <<s, Path(sl[1], sl[2], sl[3])>>

\* an address not met before must be new; one met before must be the same again
Consistent(s, sl, d) ==
  LET k == K(s, sl) IN
  IF k \in DOMAIN known THEN known[k].ad = d.ad /\ known[k].key = d.key
  ELSE \A x \in DOMAIN known : known[x].ad # d.ad
Derived(d, sl) == d.path = Path(sl[1], sl[2], sl[3]) /\ d.ac = sl[1] /\ d.valid /\ Consistent(seed, sl, d)

CanDerive(a) == Open /\ a.ac >= 0
\* d: <<ad, key>> unused in the model run
Bump(ac, ch) == Put(cnt, ac, IF ch = 0 THEN <<Cnt(ac)[1] + 1, Cnt(ac)[2]>> ELSE <<Cnt(ac)[1], Cnt(ac)[2] + 1>>)

CanUnlock(p) == made /\ locked /\ p = pass
CanChange(a) == made /\ locked /\ a.p = pass /\ a.np # ""

Learn(sl, d) == known' = Put(known, K(seed, sl), [ad |-> d.ad, key |-> d.key])
NextSlot(a) == <<a.ac, a.ch, Cnt(a.ac)[a.ch + 1]>>
\* keys of several derivations made at the same time: account and chain of the requests q, in any order
Mult(q, ac, ch) == Cardinality({i \in 1..Len(q) : q[i].ac = ac /\ q[i].ch = ch})
RECURSIVE BumpAll(_, _)
BumpAll(c, q) == IF q = << >> THEN c
  ELSE LET h == Head(q)
           o == IF h.ac \in DOMAIN c THEN c[h.ac] ELSE <<0, 0>> IN
       BumpAll(Put(c, h.ac, IF h.ch = 0 THEN <<o[1] + 1, o[2]>> ELSE <<o[1], o[2] + 1>>), Tail(q))

(* state change of action a; r is only read for what the driver learned of derived addresses *)
Do(a, r) ==
  CASE a.op = "create" ->
         IF ~made /\ a.p # "" /\ a.seed # ""
         THEN made' = TRUE /\ seed' = a.seed /\ pass' = a.p /\ locked' = FALSE /\ cnt' = << >> /\ UNCHANGED known
         ELSE UNCHANGED vvars
    [] a.op = "lock" -> locked' = TRUE /\ UNCHANGED <<made, seed, pass, cnt, known>>
    [] a.op = "restart" -> locked' = TRUE /\ UNCHANGED <<made, seed, pass, cnt, known>>
    [] a.op = "unlock" -> IF CanUnlock(a.p) THEN locked' = FALSE /\ UNCHANGED <<made, seed, pass, cnt, known>> ELSE UNCHANGED vvars
    [] a.op = "change" -> IF CanChange(a) THEN pass' = a.np /\ UNCHANGED <<made, seed, locked, cnt, known>> ELSE UNCHANGED vvars
    [] a.op = "init" -> IF made /\ a.ac >= 0 THEN cnt' = Put(cnt, a.ac, Cnt(a.ac)) /\ UNCHANGED <<made, seed, pass, locked, known>> ELSE UNCHANGED vvars
    [] a.op = "derive" ->
         IF CanDerive(a) THEN /\ cnt' = Bump(a.ac, a.ch) /\ Learn(NextSlot(a), r)
                              /\ UNCHANGED <<made, seed, pass, locked>>
         ELSE UNCHANGED vvars
    [] a.op = "txderive" ->   \* in a transaction that commits or not
         IF CanDerive(a) /\ a.commit THEN /\ cnt' = Bump(a.ac, a.ch) /\ Learn(NextSlot(a), r)
                                          /\ UNCHANGED <<made, seed, pass, locked>>
         ELSE UNCHANGED vvars
    [] a.op = "many" ->       \* derivations requested at the same time
         IF Open THEN /\ cnt' = BumpAll(cnt, a.q)
                      /\ known' = [x \in DOMAIN known \cup {<<seed, r.ds[i].path>> : i \in 1..Len(r.ds)} |->
                                     IF x \in DOMAIN known THEN known[x]
                                     ELSE LET i == CHOOSE i \in 1..Len(r.ds) : r.ds[i].path = x[2] IN [ad |-> r.ds[i].ad, key |-> r.ds[i].key]]
                      /\ UNCHANGED <<made, seed, pass, locked>>
         ELSE UNCHANGED vvars
    [] OTHER -> UNCHANGED vvars

Err(b) == IF b THEN "ok" ELSE "err"
EntryOK(e, sl) == e.ac = sl[1] /\ e.path = Path(sl[1], sl[2], sl[3])
                  /\ K(seed, sl) \in DOMAIN known /\ known[K(seed, sl)].ad = e.ad /\ known[K(seed, sl)].key = e.key
\* a list of addresses is exactly the slots, each once
ListIs(L, S) == /\ Len(L) = Cardinality(S)
                /\ \A sl \in S : \E i \in 1..Len(L) : EntryOK(L[i], sl)
AdOf(sl) == known[K(seed, sl)].ad

(* may the code answer r to a in the current state? *)
Ok(a, r) ==
  CASE a.op = "create" -> r.err = Err(made \/ (a.p # "" /\ a.seed # ""))
    [] a.op = "unlock" -> IF made /\ locked THEN r.err = Err(a.p = pass) ELSE TRUE
    [] a.op = "change" -> r.err = Err(CanChange(a))
    [] a.op = "seed" -> r.err = Err(Open) /\ r.s = (IF Open THEN seed ELSE "")
    [] a.op = "derive" -> r.err = Err(CanDerive(a)) /\ (CanDerive(a) => Derived(r, NextSlot(a)))
    [] a.op = "txderive" -> r.err = Err(CanDerive(a) /\ a.commit) /\ (CanDerive(a) /\ a.commit => Derived(r, NextSlot(a)))
    [] a.op = "failderive" -> r.err = "err"
    [] a.op = "many" ->
         IF ~Open THEN \A i \in 1..Len(a.q) : r.ds[i].err = "err"
         ELSE /\ \A i \in 1..Len(a.q) :
                   LET d == r.ds[i]
                       n == Cnt(a.q[i].ac)[a.q[i].ch + 1] IN
                   /\ d.err = "ok"
                   /\ \E j \in 0..(Mult(a.q, a.q[i].ac, a.q[i].ch) - 1) : Derived(d, <<a.q[i].ac, a.q[i].ch, n + j>>)
              /\ \A i, j \in 1..Len(a.q) : i # j => r.ds[i].path # r.ds[j].path /\ r.ds[i].ad # r.ds[j].ad
    [] a.op = "list" ->
         IF ~made THEN r.err = "err"
         ELSE IF ~(a.ac \in DOMAIN cnt) THEN r.err = "err" /\ r.l = << >>
         ELSE IF locked THEN r.err = "err" \/ ListIs(r.l, {sl \in Slots(a.ac) : a.ext => sl[2] = 0})
         ELSE r.err = "ok" /\ ListIs(r.l, {sl \in Slots(a.ac) : a.ext => sl[2] = 0})
    [] a.op = "account" -> r.err = Err(made /\ a.ac \in DOMAIN cnt) /\ (r.err = "ok" => r.ac = a.ac)
    [] a.op = "owner" ->   \* account of an address: the account that derived it
         LET S == {sl \in AllSlots : AdOf(sl) = a.ad} IN
         r.err = Err(made /\ S # {}) /\ (r.err = "ok" => r.ac = (CHOOSE sl \in S : TRUE)[1])
    [] a.op = "paths" ->   \* paths of the scripts of addresses
         LET In(ad) == {sl \in Slots(a.ac) : AdOf(sl) = ad} IN
         /\ r.err = Err(made /\ a.ac \in DOMAIN cnt /\ \A ad \in Range(a.ads) : In(ad) # {})
         /\ (r.err = "ok" => /\ Len(r.ps) = Len(a.ads)
                             /\ \A i \in 1..Len(a.ads) : \A sl \in In(a.ads[i]) : r.ps[i] = Path(sl[1], sl[2], sl[3]))
    [] OTHER -> TRUE

(* what is observed after every action *)
ObsOk(o) == /\ o.made = made
            /\ made => /\ o.locked = locked
                       /\ ~o.clear             \* the seed is nowhere in clear in the store
                       /\ ListIs(o.all, AllSlots)
-----------------------------------------------------------------------------
NoDuplicates == \A x, y \in DOMAIN known : (x # y) => known[x].ad # known[y].ad
OnlyForward == [][made /\ made' /\ seed' = seed => \A ac \in DOMAIN cnt : ac \in DOMAIN cnt' /\ cnt'[ac][1] >= cnt[ac][1] /\ cnt'[ac][2] >= cnt[ac][2]]_vvars
OnlyOpen == [][(made /\ made' /\ locked) => \A ac \in DOMAIN cnt : cnt'[ac] = cnt[ac]]_vvars
RekeyLocked == [][(made /\ made' /\ pass' # pass) => locked]_vvars
OthersUntouched == [][made /\ made' => Cardinality({ac \in DOMAIN cnt : cnt'[ac] # cnt[ac]}) <= 2]_vvars
=============================================================================
