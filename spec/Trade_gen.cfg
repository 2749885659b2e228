SPECIFICATION Spec
CONSTANTS MaxNow = 20 SimDepth = 0
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Recorded
PROPERTIES Forward AcceptedOnlyFromProposal CompletedOnlyInTime ExpiredOnlyAfterDeadline StepDataStable OnlySettlementClearsFailure DeadlineOnlyByAccept
CHECK_DEADLOCK FALSE
