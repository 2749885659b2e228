SPECIFICATION Spec
CONSTANTS Parts <- Whole
  Faults = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
  Plain = FALSE
  SimDepth = 0
  Free = FALSE
VIEW View
CONSTRAINT Few
ACTION_CONSTRAINT Emit
INVARIANTS OneHolder LocksAreLive Reserved FailedNotSent PublishedOnce WatchedIsPending
CHECK_DEADLOCK FALSE
