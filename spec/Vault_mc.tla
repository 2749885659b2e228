------------------------------ MODULE Vault_mc ------------------------------
EXTENDS Vault, Json
VARIABLE hist
CONSTANTS Max, SimDepth
Accts == {0, 5}
Passes == {"p1", "p2"}
Actions ==
  {[op |-> "create", p |-> p, seed |-> s] : p \in {"p1", ""}, s \in {"s1", ""}} \cup
  {[op |-> "lock"], [op |-> "restart"], [op |-> "seed"]} \cup
  {[op |-> "unlock", p |-> p] : p \in Passes \cup {""}} \cup
  {[op |-> "change", p |-> p, np |-> q] : p \in Passes \cup {""}, q \in Passes} \cup
  {[op |-> "init", ac |-> ac] : ac \in Accts} \cup
  {[op |-> o, ac |-> ac, ch |-> ch] : o \in {"derive", "failderive"}, ac \in Accts, ch \in {0, 1}} \cup
  {[op |-> "derive", ac |-> -1, ch |-> 0]} \cup
  {[op |-> "txderive", ac |-> 5, ch |-> ch, commit |-> c] : ch \in {0, 1}, c \in BOOLEAN} \cup
  {[op |-> "many", q |-> <<[ac |-> x, ch |-> 0], [ac |-> 5, ch |-> y], [ac |-> 5, ch |-> 0]>>] : x \in {0, 5}, y \in {0, 1}} \cup
  {[op |-> "list", ac |-> ac, ext |-> e] : ac \in Accts \cup {3}, e \in BOOLEAN} \cup
  {[op |-> "account", ac |-> ac] : ac \in Accts} \cup
  {[op |-> "ownerall"], [op |-> "pathsall", ac |-> 5]}
\* in the model an address is named after its path
D(sl) == [path |-> Path(sl[1], sl[2], sl[3]), ad |-> <<seed, sl>>, key |-> "k"]
Fake(a) == CASE a.op \in {"derive", "txderive"} -> D(NextSlot(a))
             [] a.op = "many" -> [ds |-> [i \in 1..Len(a.q) |-> D(<<a.q[i].ac, a.q[i].ch,
                                    Cnt(a.q[i].ac)[a.q[i].ch + 1] + Cardinality({j \in 1..(i - 1) : a.q[j] = a.q[i]})>>)]]
             [] OTHER -> << >>
MCInit == Init /\ hist = << >>
Bounded == \A ac \in DOMAIN cnt' : cnt'[ac][1] <= Max /\ cnt'[ac][2] <= Max
MCNext == \E a \in Actions : (made \/ a.op \in {"create", "derive", "seed", "unlock", "change", "list", "account"}) /\ Do(a, Fake(a)) /\ Bounded /\ hist' = Append(hist, a)
Spec == MCInit /\ [][MCNext]_<<vvars, hist>>
View == <<made, seed, pass, locked, cnt>>
Emit == PrintT("SCRIPT " \o ToJson(hist'))
EmitSim == Len(hist) = SimDepth => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
