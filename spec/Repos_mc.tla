------------------------------ MODULE Repos_mc ------------------------------
EXTENDS Repos, Json
VARIABLE hist
CONSTANTS SimDepth, Max
Small == SimDepth = 0
TT == IF Small THEN {1, 2} ELSE T
AA == IF Small THEN {1, 2} ELSE A
TU(k, w) == [op |-> "tUpd", k |-> k, w |-> w]
MU(i, w) == [op |-> "mUpd", i |-> i, w |-> w]
TN(k) == [op |-> "tNew", k |-> k]
MN(i) == [op |-> "mNew", i |-> i]
VA(i) == [op |-> "vAcc", i |-> i]
MP(i, p) == [op |-> "mPrice", i |-> i, p |-> p]
MO(i) == [op |-> "mOpen", i |-> i]
MC(i) == [op |-> "mClose", i |-> i]
MD(i) == [op |-> "mDel", i |-> i]
TX(q, e) == [op |-> "tx", q |-> q, end |-> e]
PTX(q, e) == [op |-> "ptx", q |-> q, end |-> e]
Mid(a, b) == [op |-> "mid", a |-> a, b |-> b]
Simple == {TN(k) : k \in TT} \cup {TU(k, w) : k \in TT, w \in {"inc", "accept", "complete", "settle", "expire", "fail", "err"}} \cup
  {MN(i) : i \in AA} \cup {MU(i, w) : i \in AA, w \in {"inc", "fund", "plug", "bal", "err"}} \cup
  {MP(i, p) : i \in AA, p \in {1, 2}} \cup {MO(i) : i \in AA} \cup {MC(i) : i \in AA} \cup {MD(i) : i \in AA} \cup {VA(i) : i \in AA}
Qs == {<<VA(1), MN(1)>>, <<TN(1), TU(1, "accept")>>, <<TU(1, "inc"), TU(2, "accept")>>, <<MU(1, "fund"), MO(1)>>, <<MD(1), MN(2)>>,
       <<TU(1, "complete"), TU(2, "err")>>, <<MN(2), MU(2, "fund"), MC(2), MU(1, "plug")>>, <<TN(2), TU(2, "accept"), TU(2, "complete"), VA(2)>>}
TXs == {TX(q, e) : q \in Qs, e \in {"commit", "fail"}}
PTXs == {PTX(q, e) : q \in {<<MP(1, 2), MP(2, 1)>>, <<MP(1, 1)>>}, e \in {"commit", "fail"}}
Mids == {Mid(TU(1, "inc"), TU(1, "fail")), Mid(TU(1, "inc"), TU(2, "inc")), Mid(TU(1, "inc"), TX(<<TU(1, "accept")>>, "commit")),
         Mid(MU(1, "inc"), MU(1, "fund")), Mid(MU(1, "inc"), MO(1)), Mid(MU(1, "inc"), MC(1)), Mid(MU(1, "inc"), MD(1)), Mid(MU(1, "inc"), MP(1, 2)),
         Mid(MU(2, "plug"), TX(<<MU(2, "inc")>>, "commit")), Mid(VA(1), VA(2)), Mid(VA(1), TX(<<VA(2), MN(2)>>, "commit")),
         Mid(TX(<<TU(1, "inc"), VA(1)>>, "commit"), TU(1, "fail")), Mid(TX(<<TU(1, "inc"), VA(1)>>, "fail"), VA(2)),
         Mid(TX(<<MU(1, "inc")>>, "commit"), MO(1)), Mid(TX(<<MN(1), VA(1)>>, "commit"), MN(1)), Mid(TX(<<TN(1), TU(1, "inc")>>, "commit"), TN(1)),
         Mid(TX(<<VA(1), MN(1)>>, "commit"), VA(2)), Mid(TX(<<TU(1, "inc")>>, "commit"), TX(<<TU(1, "settle"), TU(2, "inc")>>, "commit")),
         Mid(PTX(<<MP(1, 1)>>, "commit"), MP(1, 2)), Mid(PTX(<<MP(1, 1), MP(2, 1)>>, "commit"), MU(1, "inc"))}
Pars == {[op |-> "par", q |-> q] : q \in {<<TU(1, "inc"), TU(1, "inc"), TU(1, "inc"), TU(2, "inc")>>, <<MU(1, "inc"), MU(1, "inc"), MU(1, "inc"), MU(2, "inc")>>,
         <<VA(1), VA(2), VA(3), MU(1, "inc"), TU(1, "inc")>>, <<TX(<<TU(1, "inc"), MU(1, "inc")>>, "commit"), TU(1, "inc"), MU(1, "inc"), TU(1, "inc")>>}}
Actions == Simple \cup TXs \cup PTXs \cup Mids \cup Pars \cup {[op |-> "reopen"]}
(* calls whose outcome is left open are made only where it is not *)
Sure(a) == CASE a.op \in {"mPrice"} -> db.mk[a.i].e /\ db.mk[a.i].q # 0
             [] a.op = "ptx" -> \A j \in 1..Len(a.q) : db.mk[a.q[j].i].e /\ db.mk[a.q[j].i].q # 0
             [] a.op = "par" -> \A j \in {1, 2} : db.tr[j].e /\ db.mk[j].e
             [] a.op = "mid" /\ a.a.op = "ptx" -> \A j \in 1..2 : db.mk[j].e /\ db.mk[j].q # 0
             [] a.op = "mid" /\ a.b.op = "mPrice" -> db.mk[a.b.i].e /\ db.mk[a.b.i].q # 0
             [] OTHER -> TRUE
MCInit == Init /\ hist = << >>
MCNext == \E a \in Actions : Sure(a) /\ Do(a, TRUE) /\ hist' = Append(hist, a)
          /\ \A k \in T : db'.tr[k].n <= Max /\ db'.mk[k].n <= Max
Spec == MCInit /\ [][MCNext]_<<rvars, hist>>
(* one record of each kind in full, the other only by whether it exists *)
View == <<db.tr[1].e, db.tr[1].c, db.tr[1].f, db.tr[2].e, [db.mk[1] EXCEPT !.n = 0, !.p = IF @ = 0 THEN 0 ELSE 1], db.mk[2].e, db.mk[2].t, db.va>>
Emit == PrintT("SCRIPT " \o ToJson(hist'))
EmitSim == Len(hist) = SimDepth => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
