SPECIFICATION Spec
CONSTANTS Parts <- Whole
  Faults = {}
  Plain = TRUE
  SimDepth = 0
  Free = FALSE
VIEW View
CONSTRAINT Few
ACTION_CONSTRAINT Emit
INVARIANTS OneHolder LocksAreLive Reserved FailedNotSent PublishedOnce WatchedIsPending
CHECK_DEADLOCK FALSE
