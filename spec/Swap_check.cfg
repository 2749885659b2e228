SPECIFICATION Spec
CONSTANTS Parts <- Whole
  Faults = {1}
  Plain = TRUE
  SimDepth = 0
  Free = TRUE
VIEW View
CONSTRAINT Few
INVARIANTS OneHolder LocksAreLive Reserved FailedNotSent PublishedOnce WatchedIsPending
CHECK_DEADLOCK FALSE
