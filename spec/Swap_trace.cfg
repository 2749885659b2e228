SPECIFICATION TSpec
CONSTRAINT Progress
POSTCONDITION Done
INVARIANTS OneHolder LocksAreLive Reserved FailedNotSent PublishedOnce WatchedIsPending
CHECK_DEADLOCK FALSE
