-------------------------------- MODULE Trade --------------------------------
(* The life of one trade (domain.Trade). Each action is one method call; the  *)
(* clock advances by "tick". A token n stands for the data a call brings      *)
(* (message, id, transaction), so that keeping and overwriting are told apart.*)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES code,    \* -1 empty, 1 proposal, 2 accepted, 3 completed, 4 settled, 5 expired
          failed, dl, st,           \* dl: deadline, -1 when unset; st: settlement time, -1 when unset
          req, acc, cmp, fl,        \* recorded messages (0 = none)
          txid, txhex, pset,        \* tokens (0 = none)
          now
tvars == <<code, failed, dl, st, req, acc, cmp, fl, txid, txhex, pset, now>>

Empty == -1
Proposal == 1
Accepted == 2
Completed == 3
Settled == 4
Expired == 5

Init == /\ code = Empty /\ failed = FALSE /\ dl = -1 /\ st = -1 /\ req = 0 /\ acc = 0 /\ cmp = 0 /\ fl = 0
        /\ txid = 0 /\ txhex = 0 /\ pset = 0 /\ now = 0
Reset == /\ code' = Empty /\ failed' = FALSE /\ dl' = -1 /\ st' = -1 /\ req' = 0 /\ acc' = 0 /\ cmp' = 0 /\ fl' = 0
         /\ txid' = 0 /\ txhex' = 0 /\ pset' = 0 /\ now' = 0

DeadlinePassed == dl >= 0 /\ now >= dl

(* the first failure is the one recorded *)
MarkFailed(n) == /\ failed' = TRUE /\ fl' = IF failed THEN fl ELSE n

Propose(a) ==
  IF code >= Proposal THEN UNCHANGED tvars
  ELSE /\ code' = Proposal /\ pset' = a.n
       /\ UNCHANGED <<dl, st, acc, cmp, txid, txhex, now>>
       /\ IF a.valid THEN req' = a.n /\ UNCHANGED <<failed, fl>>
                     ELSE req' = 0 /\ failed' = TRUE /\ fl' = a.n

CanAccept == code = Proposal /\ ~failed
Accept(a) ==
  IF ~CanAccept THEN UNCHANGED tvars
  ELSE IF a.valid
       THEN /\ code' = Accepted /\ dl' = now + a.dur /\ acc' = a.n /\ txid' = a.n /\ pset' = a.n
            /\ UNCHANGED <<failed, st, req, cmp, fl, txhex, now>>
       ELSE /\ MarkFailed(a.n) /\ UNCHANGED <<code, dl, st, req, acc, cmp, txid, txhex, pset, now>>

CanComplete == code = Accepted /\ ~failed /\ ~DeadlinePassed
Complete(a) ==
  IF CanComplete
  THEN IF a.valid
       THEN /\ code' = Completed /\ cmp' = a.n /\ txhex' = a.n
            /\ pset' = IF a.hex THEN pset ELSE a.n
            /\ UNCHANGED <<failed, dl, st, req, acc, fl, txid, now>>
       ELSE MarkFailed(a.n) /\ UNCHANGED <<code, dl, st, req, acc, cmp, txid, txhex, pset, now>>
  ELSE \* too late: the trade may be marked as failed at that point
       /\ UNCHANGED <<code, dl, st, req, acc, cmp, fl, txid, txhex, pset, now>>
       /\ IF code = Accepted /\ DeadlinePassed THEN failed' \in {failed, TRUE} ELSE UNCHANGED failed

CanSettle == code \in {Accepted, Completed} \/ (failed /\ code # Settled)
Settle(a) ==
  IF CanSettle THEN /\ code' = Settled /\ failed' = FALSE /\ st' = a.time /\ dl' = -1
                    /\ UNCHANGED <<req, acc, cmp, fl, txid, txhex, pset, now>>
  ELSE UNCHANGED tvars

Fail(a) == IF failed THEN UNCHANGED tvars
           ELSE MarkFailed(a.n) /\ UNCHANGED <<code, dl, st, req, acc, cmp, txid, txhex, pset, now>>

CanExpire == code # Expired /\ DeadlinePassed
Expire(a) == IF CanExpire THEN /\ code' = Expired /\ failed' = TRUE
                               /\ UNCHANGED <<dl, st, req, acc, cmp, fl, txid, txhex, pset, now>>
             ELSE UNCHANGED tvars

Tick(a) == now' = now + a.d /\ UNCHANGED <<code, failed, dl, st, req, acc, cmp, fl, txid, txhex, pset>>

Do(a) == \/ a.op = "propose" /\ Propose(a)
         \/ a.op = "accept" /\ Accept(a)
         \/ a.op = "complete" /\ Complete(a)
         \/ a.op = "settle" /\ Settle(a)
         \/ a.op = "fail" /\ Fail(a)
         \/ a.op = "expire" /\ Expire(a)
         \/ a.op = "tick" /\ Tick(a)

Ok(a, r) ==
  \/ a.op = "propose" /\ r.err = "ok" /\ r.ok = (code >= Proposal \/ a.valid)
  \/ a.op = "accept" /\ IF code >= Accepted THEN r.err = "ok" /\ r.ok
                        ELSE IF CanAccept THEN r.err = "ok" /\ r.ok = a.valid
                        ELSE r.err = "err"
  \/ a.op = "complete" /\ IF code \in {Completed, Settled} THEN r.err = "ok" /\ r.ok /\ r.txhex = txhex /\ r.txid = txid
                          ELSE IF CanComplete
                               THEN /\ r.err = "ok" /\ r.ok = a.valid
                                    /\ a.valid => r.txhex = a.n /\ r.txid = txid
                          ELSE r.err = "err"
  \/ a.op = "settle" /\ IF code = Settled \/ CanSettle THEN r.err = "ok" /\ r.ok ELSE r.err = "err"
  \/ a.op = "fail"
  \/ a.op = "expire" /\ IF code = Expired \/ CanExpire THEN r.err = "ok" /\ r.ok ELSE r.err = "err"
  \/ a.op = "tick"

Obs == [code |-> code, failed |-> failed, dl |-> dl, st |-> st, req |-> req, acc |-> acc, cmp |-> cmp, fl |-> fl,
        txid |-> txid, txhex |-> txhex, pset |-> pset,
        isProposal |-> code = Proposal, isAccepted |-> code = Accepted, isCompleted |-> code = Completed,
        isSettled |-> code = Settled, isRejected |-> failed, isEmpty |-> code = Empty /\ ~failed,
        isExpired |-> code = Expired \/ DeadlinePassed,
        \* which message tokens the trade recognises as its own
        owns |-> {x \in {req, acc, cmp} : x # 0}]

-----------------------------------------------------------------------------
Rank(c) == CASE c = Empty -> 0 [] c = Proposal -> 1 [] c = Accepted -> 2 [] c = Completed -> 3 [] OTHER -> 4
Forward == [][Rank(code') >= Rank(code)]_tvars
AcceptedOnlyFromProposal == [][code' = Accepted /\ code # Accepted => code = Proposal /\ ~failed /\ ~failed']_tvars
CompletedOnlyInTime == [][code' = Completed /\ code # Completed => code = Accepted /\ ~failed /\ (dl < 0 \/ now < dl)]_tvars
ExpiredOnlyAfterDeadline == [][code' = Expired /\ code # Expired => dl >= 0 /\ now >= dl /\ dl <= now']_tvars
StepDataStable == [][/\ (acc # 0 => acc' = acc /\ txid' = txid) /\ (cmp # 0 => cmp' = cmp /\ txhex' = txhex)
                     /\ (req # 0 => req' = req) /\ (failed /\ fl # 0 => fl' = fl)
                     /\ (code = Settled => st' = st /\ code' = Settled)]_tvars
OnlySettlementClearsFailure == [][failed /\ ~failed' => code' = Settled /\ code # Settled]_tvars
DeadlineOnlyByAccept == [][dl' # dl => (code' = Accepted /\ code = Proposal) \/ code' = Settled]_tvars
Recorded == /\ (code = Completed => acc # 0 /\ cmp # 0 /\ req # 0) /\ (code = Accepted => acc # 0 /\ req # 0 /\ dl >= 0)
            /\ (code = Settled => st >= 0) /\ (failed /\ code \in {Proposal} => fl # 0)
            /\ (code = Expired => failed)
=============================================================================
